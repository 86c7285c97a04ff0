"""A fixed set of documents that touches every construct, attribute value, error path, repair
and symbol once: converted after a run, it shows whether anything the library knows has changed.

symbols.json lists the characters and names the symbol tables knew when this was written, and
some they do not know; it is workload, not an oracle (the oracle is a new process).
"""
import hashlib
import json
import os
from xml.sax.saxutils import escape

from . import docs as D

_here = os.path.dirname(os.path.abspath(__file__))
STEP = 240


def _features():
    m = lambda s: f"<math>{s}</math>"
    x, y, z = "<mi>x</mi>", "<mn>2</mn>", "<mo>+</mo>"
    out = []
    for v in D.VARIANTS + ["sans-serif-bold-italic", "", "mathvariant"]:
        out.append(m(f'<mi mathvariant="{v}">A</mi><mtext mathvariant="{v}">if x&#xB7;y</mtext>'))
    for v in D.NOTATION + ["", "box circle"]:
        out.append(m(f'<menclose notation="{v}">{x}{z}{y}</menclose>'))
    out.append(m(f"<menclose>{x}</menclose>"))
    for o, c in (("(", ")"), ("[", "]"), ("{", "}"), ("|", "|"), ("||", "||"), ("", ""), ("(", "]"), ("{", ""), ("", "|"), ("&lt;", "&gt;")):
        out.append(m(f'<mfenced open="{o}" close="{c}">{x}{y}{x}</mfenced>'))
        out.append(m(f'<mfenced open="{o}" close="{c}"><mtable><mtr><mtd>{x}</mtd><mtd>{y}</mtd></mtr><mtr><mtd>{z}</mtd></mtr></mtable></mfenced>'))
    for s in (";", ";.", "|;,", "", " "):
        out.append(m(f'<mfenced separators="{s}">{x}{y}{z}{x}{y}</mfenced>'))
    for a in ("toggle", "tooltip", "statusline", ""):
        out.append(m(f'<maction actiontype="{a}">{x}{y}{z}</maction>'))
    for b in ("true", "false", "bevelled", ""):
        out.append(m(f'<mfrac bevelled="{b}"><mrow>{x}{z}{y}</mrow><mi>b</mi></mfrac>'))
    for t in ("mfrac", "mroot", "msup", "msub", "msubsup", "mover", "munder", "munderover", "mmultiscripts", "msqrt", "mrow", "mpadded", "mstyle", "merror",
              "mphantom", "mfenced", "menclose", "maction", "mtable", "unknown", "semantics", "mglyph", "mspace", "none", "mprescripts"):
        for kids in ("", x, x + y, x + y + z, f"<mrow>{x}{z}{y}</mrow><mrow>{y}{x}</mrow>", f"<mrow>{x}{z}</mrow>{y}{x}<mprescripts/>{y}{x}", f"{x}<mprescripts/>{y}{x}"):
            out.append(m(f"<{t}>{kids}</{t}>"))
    cell = lambda s: f"<mtable><mtr><mtd>{s}</mtd></mtr></mtable>"
    out += [m(cell(cell(cell(x)))), m(cell(x) + cell(y)), m(f"<mrow>{cell(cell(x))}</mrow>"), m(f"<mtable><mtr><mtd>{x}</mtd></mtr>{y}</mtable>")]
    for acc in ("^", "\u00af", "\u23de", "\u23df", "~", "\u2192", "."):
        out.append(m(f"<mover>{x}<mo>{escape(acc)}</mo></mover><munder>{x}<mo>{escape(acc)}</mo></munder>"))
    for n in ("open", "close", "separators", "mathvariant", "notation", "actiontype", "bevelled", "class", "xml:lang"):
        for r in ("=", ""):
            out.append(m(f'<mtext>{n} {n}=</mtext><mfenced {n}{r}>{x}<mo {n}="(">(</mo></mfenced>'))
    # as many losses as can just be repaired, and one more
    for names in ("abcd", "wxyz", ("open", "close", "separators", "class"), "pqrst"):
        for r in ("", "="):
            out.append(m("".join(f'<mfenced {n}{r}><mi>{n}</mi></mfenced>' for n in names)))
            out.append(m("<mfenced " + " ".join(n + r for n in names) + '><mi k="1">x</mi></mfenced>'))
    out += [m('<mi a= b= c= d=>x</mi><mfenced open="[" close=>y</mfenced>'), m("<mi a b c d e f>x</mi>"),
            "<root><math><mi>a</mi></math><div><math><mi>b</mi></math></div></root>", '<mml:math xmlns:mml="http://www.w3.org/1998/Math/MathML"><mml:mi>x</mml:mi></mml:math>',
            m("<mi> a  b </mi><mtext>  a  b </mtext><mn> 1 000 </mn><mo> + </mo>"), m("<mi>\n x\n</mi>"), m("<mrow>t<mi>x</mi>u</mrow>"), m("<mi><!-- c -->x</mi>"),
            m("<mi><![CDATA[x<y]]></mi>"), m("<mi>sin</mi><mi>log</mi><mo>lim</mo><mi>SIN</mi>"), m("<mrow>" * 40 + x + "</mrow>" * 40), m("<mtext>" + "word " * 60 + "</mtext>"),
            m("<msup>" + x + "<msup>" * 12 + x + (y + "</msup>") * 12 + "</msup>")]
    # long ones
    for tag in ("mi", "mo", "mn", "mtext"):
        out += [m(f"<{tag}>{t}</{tag}>") for t in ("7" * 80, "1" + "0" * 500, "3." + "14159" * 30, "q" * 90, "longword " * 30, "\u03b1" * 100, "-" * 70)]
    out += [m('<mfenced separators="' + ";,." * 14 + '">' + "<mi>x</mi>" * 40 + "</mfenced>"), m("<mfenced>" + "<mi>x</mi>" * 130 + "</mfenced>"), m("<mrow>" + "<mi>x</mi>" * 270 + "</mrow>"),
            m("<mtable>" + "<mtr><mtd><mi>x</mi></mtd></mtr>" * 60 + "</mtable>"), m("<mtable><mtr>" + "<mtd><mi>x</mi></mtd>" * 60 + "</mtr></mtable>"), m('<mi class="' + "k" * 400 + '">x</mi>'),
            m("<mi " + " ".join(f'a{i}="{i}"' for i in range(60)) + ">x</mi>"), "<root>" + m("<mi>x</mi>") * 60 + "</root>", m("<mmultiscripts>" + "<mi>x</mi>" * 70 + "</mmultiscripts>"),
            m("<mtext>" + "a+b " * 70 + "</mtext>"), m('<maction actiontype="toggle">' + "<mi>x</mi>" * 40 + "</maction>"), m("<mfrac><mi>x</mi>" * 30 + "<mi>y</mi>" + "</mfrac>" * 30)]
    return out + D.BROKEN


def _symbols():
    with open(os.path.join(_here, "symbols.json"), encoding="utf-8") as f:
        syms = json.load(f)
    # characters that may become known some day
    seen = set(syms)
    blocks = ((0xa1, 0x180), (0x2b0, 0x2ff), (0x2010, 0x2028), (0x2030, 0x205f), (0x2070, 0x20a0), (0x20d0, 0x20f0), (0xff01, 0xff5f), (0x1d7ce, 0x1d800), (0x2100, 0x2190), (0x2460, 0x24c0))
    syms = syms + [c for a, b in blocks for c in map(chr, range(a, b)) if c not in seen]
    out = []
    for tag in ("mi", "mo", "mn", "mtext"):
        for i in range(0, len(syms), STEP):
            out.append("<math>" + "".join(f"<{tag}>{escape(s)}</{tag}>" for s in syms[i:i + STEP]) + "</math>")
    return out


FEATURES = _features()
DOCS = FEATURES + _symbols()
SYMBOLS = range(len(FEATURES), len(DOCS))


def digest(out):
    """Outcomes are compared by digest where they are long."""
    if out is None or len(str(out)) < 200:
        return out
    return ["digest", hashlib.blake2b(json.dumps(out).encode(), digest_size=12).hexdigest()]


def selection(rng, symbols=2, features=40):
    """Indices of a seeded part of the battery, in a seeded order."""
    ds = rng.sample(range(len(FEATURES)), min(features, len(FEATURES))) + rng.sample(SYMBOLS, symbols)
    rng.shuffle(ds)
    return ds
