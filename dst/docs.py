"""Seeded document generator: MathML trees as JSON-able lists, plus layout, plus damage.

node  = [tag, [[attr, value, mode], ...], children | text]
mode  = 0 intact, 1 value lost leaving `name=`, 2 value lost leaving `name`, 3 attribute left out
doc   = {"t": node, ...layout...} or {"raw": text}
"""

import re

IDENT = list("abcdefghkmnpqrstuvwxyzABCDEFGHKLMNPQRSTUVWXYZ") + [
    "\u03b1", "\u03b2", "\u0394", "\u03bb", "\u03bc", "\u03c0", "\u03a9", "\u221e", "\u210f", "\u2205",
    "&#x3B1;", "&#945;", "&#x221E;", "sin", "log", "max", "dx", "\u00e9", "\u00e7", "\u00f1",
    "\U0001d6ff", "\u00bd", "$", "#", "\u211c", "\u2115", "&#xA0;", "", "mi", "close", "open", "a b"]
OPER = ["+", "-", "=", "*", "/", "(", ")", "[", "]", "{", "}", "|", ",", ";", ":", "!", "&lt;", "&gt;", "&amp;",
        "\u00d7", "\u2265", "\u2264", "\u2211", "\u222b", "\u220f", "\u2192", "\u21d2", "\u2208", "\u2202", "\u22c5",
        "&#x2211;", "&#x222B;", "&#x21D2;", "\u2026", "^", "_", "~", "\u23de", "\u23df", "\u00af", "\u2227", "=&gt;", "mod", ""]
NUMS = ["0", "1", "2", "3", "4", "7", "10", "11", "42", "2.5", "3,14", "1000", "0.001", "\u00b2", "\u2153"]
WORDS = ["if", "otherwise", "kg", "m", "Theorem of Pythagoras", "x\u00b7y", "caf\u00e9", "value 1", "a-b", "50%",
         "\u03bcm", "for all", "N/A", "close", "open", "the bold case", "k_1", "n#2", "", "bevelled", "if a > b", "x - y", "it's", 'the "open" set', "f(x) = y", "set close= to", "-> c", "1 >2"]
VARIANTS = ["normal", "bold", "italic", "bold-italic", "double-struck", "bold-fraktur", "script", "bold-script",
            "fraktur", "sans-serif", "bold-sans-serif", "sans-serif-italic", "monospace", "weird"]
NOTATION = ["longdiv", "actuarial", "radical", "box", "roundedbox", "circle", "left", "right", "top", "bottom",
            "updiagonalstrike", "downdiagonalstrike", "updiagonalarrow", "verticalstrike", "horizontalstrike",
            "madruwb", "phasorangle", "other"]
FENCES = ["(", ")", "[", "]", "{", "}", "|", "||", "", "&lt;", "&gt;", "."]
NOISE = [("class", "k"), ("id", "n1"), ("displaystyle", "true"), ("stretchy", "false"), ("width", "2em"), ("title", "see close here"),
         ("href", "x=y"), ("mathcolor", "red"), ("a", "1"), ("title", "1 &gt; 0"), ("data-x", "it's"), ("lspace", "0"), ("fontstyle", "normal")]

ARITY = {"mfrac": 2, "mroot": 2, "msup": 2, "msub": 2, "msubsup": 3, "mover": 2, "munder": 2, "munderover": 3}


def fresh_token(rng):
    """A token nobody has seen before in this process, so that caches see new keys."""
    k = rng.random()
    if k < 0.4:
        return "v" + str(rng.randrange(10 ** 9))
    if k < 0.7:
        return chr(rng.choice([rng.randrange(0x100, 0x2FF), rng.randrange(0x370, 0x52F), rng.randrange(0x2190, 0x2BFF), rng.randrange(0x1D400, 0x1D7FF)]))
    return rng.choice("uvw") + chr(rng.randrange(0x3B1, 0x3C9)) + str(rng.randrange(1000))


class Gen:
    def __init__(self, rng, profile):
        self.r = rng
        self.p = profile
        self.left = profile["size"]

    def attrs(self, *pairs):
        r = self.r
        out = [[k, v, 0] for k, v in pairs]
        if r.random() < self.p["noise"]:
            for _ in range(r.choice([1, 1, 2])):
                k, v = r.choice(NOISE)
                if all(a[0] != k for a in out):
                    out.insert(r.randrange(len(out) + 1), [k, v, 0])
        return out

    def leaf(self):
        r = self.r
        self.left -= 1
        k = r.random()
        if k < 0.42:
            a = self.attrs(("mathvariant", r.choice(VARIANTS))) if r.random() < 0.25 else self.attrs()
            return ["mi", a, self.tok(IDENT)]
        if k < 0.70:
            return ["mo", self.attrs(), self.tok(OPER)]
        if k < 0.88:
            return ["mn", self.attrs(), self.tok(NUMS)]
        if k < 0.96:
            a = self.attrs(("mathvariant", r.choice(VARIANTS))) if r.random() < 0.4 else self.attrs()
            return ["mtext", a, self.tok(WORDS)]
        return [r.choice(["mspace", "mglyph", "none", "ms", "mphantom"]), self.attrs(), self.r.choice(["", "s", "x"])]

    def tok(self, pool):
        if self.r.random() < self.p["fresh"]:
            return fresh_token(self.r)
        return self.r.choice(pool)

    def row(self, depth, lo=1, hi=4):
        r = self.r
        n = r.randint(lo, hi)
        if self.p.get("wide") and r.random() < self.p["wide"]:
            self.p["wide"] = 0           # one long row per document
            return [self.node(0) if r.random() < 0.9 else self.node(depth) for _ in range(r.choice([6, 9, 12, 13, 17, 20, 33, 65]))]
        return [self.node(depth) for _ in range(n)]

    def focused(self, f, d):
        """The construct this batch of documents is about."""
        r = self.r
        if f in ARITY:
            n = ARITY[f]
            if r.random() < self.p["bad_arity"]:
                n = r.choice([0, 1, n + 1])
            a = self.attrs(("bevelled", r.choice(["true", "false", "", "bevelled"]))) if f == "mfrac" and r.random() < 0.5 else self.attrs()
            return [f, a, [self.node(d) for _ in range(n)]]
        if f == "mtable":
            return self.table(d)
        if f == "fenced table":
            pairs = [("open", r.choice(FENCES)), ("close", r.choice(FENCES))][: r.choice([0, 1, 2, 2, 2])]
            return ["mfenced", self.attrs(*pairs), [self.table(d)] if r.random() < 0.6 else [["mrow", [], [self.leaf(), self.table(d)]]]]
        if f == "mfenced":
            pairs = [("open", r.choice(FENCES)), ("close", r.choice(FENCES)), ("separators", r.choice([";", ",", "", ";.", "|;,", " ", ";|.,"]))]
            r.shuffle(pairs)
            return ["mfenced", self.attrs(*pairs[: r.choice([0, 1, 2, 3, 3])]), self.row(d, 0, 5)]
        if f == "menclose":
            return ["menclose", self.attrs(("notation", r.choice(NOTATION))), self.row(d, 0, 3)]
        if f == "maction":
            return ["maction", self.attrs(("actiontype", r.choice(["toggle", "statusline", "tooltip", "input", "x", ""]))), self.row(d, 1, 3)]
        if f == "mmultiscripts":
            n = r.choice([3, 4, 5, 6, 6, 7, 8]) if r.random() >= self.p["bad_arity"] else r.choice([0, 1, 2])
            kids = [self.node(d) for _ in range(n)]
            if n >= 4 and r.random() < 0.7:
                kids[r.choice([1, 3, n - 1])] = ["mprescripts", [], ""]
            return ["mmultiscripts", self.attrs(), kids]
        if f in ("mi", "mtext"):
            return [f, self.attrs(("mathvariant", r.choice(VARIANTS))), self.tok(IDENT if f == "mi" else WORDS)]
        if f in ("mo", "mn"):
            return [f, self.attrs(), self.tok(OPER if f == "mo" else NUMS)]
        if f == "accent":
            return [r.choice(["mover", "munder"]), self.attrs(("accent", "true")), [self.node(d), ["mo", [], r.choice(["^", "\u00af", "\u23de", "\u23df", "\u2192", "~"])]]]
        if f == "empty":
            return [r.choice(["mi", "mo", "mn", "mtext", "mrow", "msqrt", "mspace", "none", "mphantom", "mtd", "merror"]), self.attrs(), ""]
        return [f, self.attrs(), self.row(d, 0 if f in ("msqrt", "mrow") else 1, 3)]

    def node(self, depth):
        r = self.r
        if depth <= 0 or self.left <= 0:
            return self.leaf()
        f = self.p.get("focus")
        if f and r.random() < 0.4:
            self.left -= 1
            return self.focused(f, depth - 1)
        k = r.random()
        if k < 0.38:
            return self.leaf()
        d = depth - 1
        w = r.random()
        if w < 0.20:
            return ["mrow", self.attrs(), self.row(d)]
        if w < 0.50:
            tag = r.choice(list(ARITY))
            n = ARITY[tag]
            if r.random() < self.p["bad_arity"]:
                n = r.choice([0, 1, n + 1])
            a = self.attrs(("bevelled", "true")) if tag == "mfrac" and r.random() < 0.3 else self.attrs()
            return [tag, a, [self.node(d) for _ in range(n)]]
        if w < 0.64:
            pairs = []
            if r.random() < 0.7:
                pairs.append(("open", r.choice(FENCES)))
            if r.random() < 0.7:
                pairs.append(("close", r.choice(FENCES)))
            if r.random() < 0.4:
                pairs.append(("separators", r.choice([";", ",", "", ";.", "|;,", " "])))
            r.shuffle(pairs)
            kids = [self.table(d)] if r.random() < 0.35 else self.row(d, 0, 4)
            return ["mfenced", self.attrs(*pairs), kids]
        if w < 0.64 + self.p["tables"]:
            return self.table(d)
        w = r.random()
        if w < 0.25:
            return ["msqrt", self.attrs(), self.row(d, 0, 3)]
        if w < 0.45:
            return ["menclose", self.attrs(("notation", r.choice(NOTATION))) if r.random() < 0.8 else self.attrs(), self.row(d, 1, 3)]
        if w < 0.60:
            a = self.attrs(("actiontype", r.choice(["toggle", "statusline", "tooltip", "x"]))) if r.random() < 0.8 else self.attrs()
            return ["maction", a, self.row(d, 1, 3)]
        if w < 0.68:
            return ["merror", self.attrs(), self.row(d, 1, 2)]
        if w < 0.86:
            n = r.choice([3, 3, 5, 6, 4]) if r.random() >= self.p["bad_arity"] else r.choice([1, 2])
            kids = [self.node(d) for _ in range(n)]
            if n >= 4 and r.random() < 0.7:
                kids[r.choice([1, 3])] = ["mprescripts", [], ""]
            return ["mmultiscripts", self.attrs(), kids]
        return [r.choice(["mpadded", "mstyle", "semantics", "mphantom", "unknown"]), self.attrs(), self.row(d, 1, 3)]

    def table(self, depth):
        r = self.r
        rows = r.randint(1, 3)
        cols = r.randint(1, 3)
        out = []
        for _ in range(rows):
            cells = []
            for _ in range(cols):
                c = self.table(depth - 1) if depth > 0 and self.left > 0 and r.random() < self.p["nested"] else self.node(min(depth - 1, 1))
                cells.append(["mtd", self.attrs(), [c]])
            out.append(["mtr", self.attrs(), cells])
        return ["mtable", self.attrs(), out]


FOCUS = list(ARITY) + ["mtable", "fenced table", "mfenced", "mfenced", "menclose", "maction", "mmultiscripts", "mi", "mtext", "mo", "mn", "accent", "empty",
                       "msqrt", "mrow", "mpadded", "mstyle", "merror", "mphantom", "unknown", "semantics"]

DEFAULT = {"size": 12, "depth": 4, "noise": 0.15, "fresh": 0.1, "bad_arity": 0.03, "tables": 0.16, "nested": 0.3}


def gen_profile(rng, **over):
    """Swarm style: every batch of documents has its own mix."""
    p = dict(DEFAULT)
    p["size"] = rng.choice([2, 4, 8, 12, 20])
    p["depth"] = rng.choice([1, 2, 3, 4, 6])
    p["noise"] = rng.choice([0.0, 0.1, 0.5])
    p["fresh"] = rng.choice([0.0, 0.1, 0.6])
    p["bad_arity"] = rng.choice([0.0, 0.0, 0.05, 0.25])
    p["tables"] = rng.choice([0.0, 0.16, 0.36])
    p["nested"] = rng.choice([0.1, 0.5, 0.8])
    p["focus"] = rng.choice(FOCUS) if rng.random() < 0.5 else None
    p["wide"] = rng.choice([0, 0, 0, 0.3])
    p["style"] = rng.choice([0, 0, 0, 0.3])
    p["repair"] = rng.choice([0.18, 0.18, 0.18, 0.18, 0.8])
    p["chain"] = rng.choice([0, 0, 0, 0.25])
    p.update(over)
    return p


def gen_tree(rng, profile):
    g = Gen(rng, dict(profile))
    kids = g.row(profile["depth"], 1, 3)
    if profile.get("focus") and all(n[0] != profile["focus"] for k in kids for n in walk(k)):
        kids[rng.randrange(len(kids))] = g.focused(profile["focus"], max(0, profile["depth"] - 1))
    if profile.get("chain") and rng.random() < profile["chain"]:
        kids = [chain(rng, kids, rng.choice([3, 6, 10, 14, 18]))]
    a = [["xmlns", "http://www.w3.org/1998/Math/MathML", 0]] if rng.random() < 0.5 else []
    return ["math", a, kids]


UNARY = ["mrow", "msqrt", "mfenced", "mstyle", "mpadded", "menclose", "maction", "merror", "mtable", "mfrac", "msup", "msub", "mover", "mroot", "msubsup", "munderover", "mmultiscripts"]


def nest(tag, kids, leaf="2"):
    """kids inside one element of this kind."""
    k = kids[0] if len(kids) == 1 else ["mrow", [], kids]
    if tag == "mtable":
        return ["mtable", [], [["mtr", [], [["mtd", [], [k]]]]]]
    n = ARITY.get(tag, 3 if tag == "mmultiscripts" else 1)
    return [tag, [], [k] + [["mn", [], leaf] for _ in range(n - 1)]]


def chain(rng, kids, n, tags=None):
    tags = tags or rng.sample(UNARY, rng.choice([1, 1, 2, 4]))
    node = None
    for i in range(n):
        node = nest(rng.choice(tags), kids if node is None else [node])
        if len(node[2]) > 1 and rng.random() < 0.3:
            node[2].reverse()
    return node


def gen_doc(rng, profile, plain=False):
    doc = {"t": gen_tree(rng, profile)}
    if plain:
        return doc
    if rng.random() < 0.3:
        doc["indent"] = rng.choice([1, 2])
    if rng.random() < 0.12:
        doc["prefix"] = 1
    if rng.random() < 0.25:
        doc["wrap"] = 1
        if rng.random() < 0.4:
            doc["more"] = [gen_tree(rng, dict(profile, size=3, depth=2)) for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.08:
        doc["outer"] = [rng.choice(["div", "p", "root", "semantics", "span"]) for _ in range(rng.choice([1, 2, 5]))]
    if rng.random() < profile.get("style", 0):
        style_attributes(rng, doc)
    if rng.random() < 0.08:
        doc["decl"] = 1
    if rng.random() < 0.06:
        doc["tail"] = rng.choice([" ", "<!-- end -->", "<?pi x?>", " <!-- a > b -->"])
    return doc


def walk(node):
    yield node
    if isinstance(node[2], list):
        for c in node[2]:
            yield from walk(c)


STYLES = [" = ", "= ", " =", "\n=", "=\n", "\t=\t", "'", " = '", "  "]


GAPS = ["\t", "\n", "  ", "\r\n", "\t\t", " \t", "\n  ", "\r"]


def style_attributes(rng, doc):
    """Other ways of writing the same attribute: blanks around '=', single quotes, other white space in front."""
    p = rng.choice([0.2, 1.0])
    q = rng.choice([0, 0.2, 1.0])
    for n in nodes(doc):
        for i, a in enumerate(n[1]):
            if rng.random() < p:
                n[1][i] = a[:3] + [rng.choice(STYLES)]
            if rng.random() < q:
                n[1][i] = (n[1][i] + ["="])[:4] + [rng.choice(GAPS)]


def mark_damage(rng, doc, count, last_only=False, max_names=None, distinct=False):
    """Lose attribute values (in place). Returns the number of attributes damaged."""
    cands = []
    for n in nodes(doc):
        for i, a in enumerate(n[1]):
            if last_only and i != len(n[1]) - 1:
                continue
            if last_only and (not n[2] or n[0] == "!raw"):
                continue          # would render as an empty-element tag
            cands.append((n, i))
    rng.shuffle(cands)
    names, done, seen = set(), 0, []
    for n, i in cands:
        if done >= count:
            break
        if max_names is not None and n[1][i][0] not in names and len(names) >= max_names:
            continue
        if distinct and n[1][i][0] in names:
            continue
        names.add(n[1][i][0])
        n[1][i][2] = rng.choice([1, 2])
        done += 1
    return done


def nodes(doc):
    if "t" in doc:
        yield from walk(doc["t"])
    for m in doc.get("more", []):
        yield from walk(m)


def _render(node, out, pre, ind, level, omit):
    tag, attrs, kids = node
    if tag == "!raw":             # a comment or processing instruction
        out.append(kids)
        return
    t = pre + tag
    out.append("<" + t)
    for a in attrs:
        name, value, mode = a[:3]
        sep = a[4] if len(a) > 4 else " "
        if mode == 3 or (omit and mode in (1, 2)):
            continue
        if mode == 0:
            st = a[3] if len(a) > 3 else "="
            q = "'" if '"' in value or ("'" in st and "'" not in value) else '"'
            gap = st.strip("'")
            if "=" not in gap:
                out.append(gap)
                gap = "="
            out.append(f"{sep}{name}{gap}{q}{value}{q}")
        elif mode == 1:
            out.append(f"{sep}{name}=")
        else:
            out.append(f"{sep}{name}")
    if kids == "" or kids == []:
        out.append("/>")
        return
    out.append(">")
    if isinstance(kids, str):
        out.append(kids)
    else:
        for c in kids:
            if ind:
                out.append("\n" + " " * (ind * (level + 1)))
            _render(c, out, pre, ind, level + 1, omit)
        if ind:
            out.append("\n" + " " * (ind * level))
    out.append(f"</{t}>")


def render(doc, omit=False):
    """The text of a document; with omit=True damaged attributes are left out instead."""
    if "raw" in doc:
        return doc["raw"]
    if "base" in doc:             # the same document with other line breaks
        text = doc["base"]
        for i, j, new in sorted(doc["lay"], reverse=True):
            text = text[:i] + new + text[j:]
        return text
    if "rep" in doc:              # one unit many times over
        rep = doc["rep"] * doc["n"] if "#" not in doc["rep"] or not doc.get("count") else "".join(doc["rep"].replace("#", str(i)) for i in range(doc["n"]))
        return doc["pre"] + rep + doc.get("mid", "") + doc.get("back", "") * doc["n"] + doc["post"]
    out = [doc.get("head", "")]
    pre = "mml:" if doc.get("prefix") else ""
    ind = doc.get("indent", 0)
    if doc.get("decl"):
        out.append('<?xml version="1.0"?>')
    if doc.get("doctype"):
        out.append(doc["doctype"])
    if doc.get("wrap") or doc.get("more"):
        out.append("<root>")
    outer = doc.get("outer", [])
    out.extend(f"<{t}>" for t in outer)
    _render(doc["t"], out, pre, ind, 0, omit)
    out.extend(f"</{t}>" for t in reversed(outer))
    for m in doc.get("more", []):
        _render(m, out, pre, ind, 0, omit)
    if doc.get("wrap") or doc.get("more"):
        out.append("</root>")
    if doc.get("tail"):
        out.append(doc["tail"])
    text = "".join(out)
    for start, end, repl in doc.get("edit", []):
        start %= len(text) + 1
        text = text[:start] + repl + text[max(start, min(end, len(text))):]
    return text


def corrupt(rng, doc):
    """Byte-level damage: a few deleted, duplicated or replaced spans."""
    text = render(doc)
    edits = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(text) + 1)
        j = min(len(text), i + rng.choice([0, 1, 1, 2, 5, 20]))
        edits.append([i, j, rng.choice(["", "", "<", ">", "&", '"', " ", "=", "/", "x", "mml:", " a=", text[i:j] * 2])])
    return {"raw": _apply(text, edits)}


def _apply(text, edits):
    for i, j, s in edits:
        i = min(i, len(text))
        text = text[:i] + s + text[max(i, min(j, len(text))):]
    return text


def _copy(x):
    return {k: (_copy(v) if isinstance(v, dict) else _cl(v)) for k, v in x.items()}


def _cl(v):
    return [_cl(i) for i in v] if isinstance(v, list) else v


TOKENS = ("mi", "mo", "mn", "mtext", "ms")
SWAPS = {"mfrac": ["mover", "msub", "msup", "munder", "mroot"], "msub": ["msup", "mfrac", "munder"], "msup": ["msub", "mover"], "mover": ["munder", "msup"],
         "munder": ["mover", "msub"], "msubsup": ["munderover", "mmultiscripts"], "munderover": ["msubsup"], "mrow": ["msqrt", "mpadded", "mfenced", "merror"],
         "msqrt": ["mrow", "menclose"], "mfenced": ["mrow", "menclose"], "menclose": ["mfenced", "msqrt"], "mroot": ["mfrac"], "maction": ["mrow"],
         "mmultiscripts": ["msubsup"], "mpadded": ["mstyle"], "mstyle": ["mpadded", "msqrt"]}


def lengthen(rng, doc):
    """Give one token (or attribute) a long text, for twins that differ only at its far end."""
    d = _copy(doc)
    leaves = [n for n in nodes(d) if n[0] in TOKENS and isinstance(n[2], str)]
    if not leaves:
        return None
    n = rng.choice(leaves)
    size = int(2 ** rng.uniform(2, 8))
    unit = rng.choice(["q", "ab", "word ", "x1", "\u03b1", "7"])
    n[2] = (unit * size)[:size] + rng.choice(["", "end"])
    return d


def doppel(rng):
    """Two long documents that agree nearly everywhere: in all but one place, often far from the start."""
    n = int(2 ** rng.uniform(3, 10.5))
    k = rng.choice(["many", "many", "token", "attr", "deep"])
    a, b = rng.choice([("a", "b"), ("a", "b"), ("7", "8"), ("x", "yy"), ("&#x3B1;", "&#x3B2;"), ("p q", "p  q")])
    fill = {"many": "<mi>x</mi>" * (n // 10 + 1), "token": "<mtext>" + ("word " * n)[:n] + "</mtext>", "attr": '<mi class="' + "k" * n + '">x</mi>', "deep": ""}[k]
    spot = rng.choice(["<mi>%s</mi>", "<mtext>%s</mtext>", "<mo>%s</mo>", "<mn>%s</mn>", '<mfenced open="%s"><mi>q</mi></mfenced>'])
    extra = rng.choice(["", "", "", "<mi b=>y</mi>", "<mfenced open close=><mi>y</mi></mfenced>", "<mfrac><mi>z</mi></mfrac>", "<mtable><mtr><mtd><mi>c</mi></mtd></mtr></mtable>", "<msup><mi>x</mi><mn>2</mn></msup>"])
    pair = []
    for t in (a, b):
        s = spot % t
        if k == "token" and spot == "<mtext>%s</mtext>":
            body = fill[:-8] + t + "</mtext>" + extra
        elif k == "deep":
            m = min(n // 12, 60) + 1
            body = "<mrow>" * m + extra + s + "</mrow>" * m
        else:
            body = extra + fill + s
        pair.append(body)
    if rng.random() < 0.2:
        pair = [fill.join([s, ""]) for s in (spot % a, spot % b)]
    return [{"raw": "<math>" + p + "</math>"} for p in pair]


def twin(rng, doc):
    """A document that shares nearly everything with the given one: one feature differs."""
    if not doc.get("t"):
        return None
    d = _copy(doc)
    ns = [n for n in nodes(d) if n[0] != "!raw"]
    k = rng.choice(["text", "text", "text", "attr", "attr", "attr", "kids", "kids", "tag", "tag", "layout"])
    if k == "layout":
        key = rng.choice(["indent", "prefix", "wrap", "decl", "outer"])
        if d.get(key):
            del d[key]
        else:
            d[key] = ["div"] if key == "outer" else 1
        return d
    if k == "text":
        leaves = [n for n in ns if n[0] in TOKENS and isinstance(n[2], str) and n[2]]
        if not leaves:
            return None
        n = rng.choice(leaves)
        t = n[2]
        opts = [t + rng.choice("xyz2 "), t + rng.choice([" end", "\u0301", "'", ""]), rng.choice(IDENT + OPER + NUMS)]
        if "&" not in t and not t.startswith("<"):
            i = rng.randrange(len(t))
            opts += [t[:i] + rng.choice("pqr19") + t[i + 1:], t[:-1] + rng.choice("pqr19"), rng.choice("pqr19") + t[1:], t.swapcase(), t[::-1], t[:-1] or "k", t[:i] + " " + t[i:]]
        n[2] = rng.choice(opts)
        return d
    if k == "tag":
        n = rng.choice(ns)
        if n[0] in TOKENS:
            n[0] = rng.choice(TOKENS)
        elif n[0] in SWAPS:
            n[0] = rng.choice(SWAPS[n[0]])
        else:
            return None
        return d
    if k == "attr":
        n = rng.choice([n for n in ns if n[1]] or ns)
        if n[1] and rng.random() < 0.8:
            a = rng.choice(n[1])
            w = rng.random()
            if w < 0.15:
                n[1].remove(a)
            elif w < 0.25 and len(n[1]) > 1:
                n[1].reverse()
            elif a[0] == "xmlns":
                n[1].remove(a)
            elif a[0] == "mathvariant":
                a[1] = rng.choice(VARIANTS)
            elif a[0] in ("open", "close"):
                a[1] = rng.choice(FENCES)
            elif a[0] == "separators":
                a[1] = rng.choice([";", ",", ";.", "|;,", ""])
            elif a[0] == "notation":
                a[1] = rng.choice(NOTATION)
            elif a[0] == "actiontype":
                a[1] = rng.choice(["toggle", "statusline", "tooltip", "x"])
            elif a[0] == "bevelled":
                a[1] = rng.choice(["true", "false", "1"])
            else:
                a[1] = rng.choice(["", "1", "true"])
        else:
            extra = {"mi": ("mathvariant", rng.choice(VARIANTS)), "mtext": ("mathvariant", rng.choice(VARIANTS)), "mfrac": ("bevelled", "true"),
                     "mfenced": rng.choice([("open", "["), ("close", "]"), ("separators", ";")]), "menclose": ("notation", rng.choice(NOTATION)),
                     "maction": ("actiontype", "tooltip"), "mtable": ("columnalign", "left")}.get(n[0], ("class", "k"))
            if any(a[0] == extra[0] for a in n[1]):
                return None
            n[1].append([extra[0], extra[1], 0])
        return d
    rows = [n for n in ns if isinstance(n[2], list) and n[2]]
    if not rows:
        return None
    n = rng.choice(rows)
    i = rng.randrange(len(n[2]))
    w = rng.choice(["swap", "drop", "dup", "wrap", "move"])
    if w == "swap" and len(n[2]) > 1:
        j = (i + 1) % len(n[2])
        n[2][i], n[2][j] = n[2][j], n[2][i]
    elif w == "drop" and len(n[2]) > 1:
        del n[2][i]
    elif w == "dup":
        n[2].insert(i, _cl(n[2][i]))
    elif w == "wrap" and n[0] not in ("mtable", "mtr"):
        c = n[2][i]
        n[2][i] = [rng.choice(["mrow", "msqrt", "mstyle"]), [], [c]] if rng.random() < 0.6 else ["mtable", [], [["mtr", [], [["mtd", [], [c]]]]]]
    elif w == "move" and len(n[2]) > 1:
        n[2].append(n[2].pop(i))
    return d


BROKEN = [
    "", " ", "<", "<math", "<math>", "plain text", "<math></math>", "<root></root>", "<math/>", "</math>",
    "<math><mi>a</mo></math>", "<math><mi>a</mi>", "<math><mi>a & b</mi></math>", "<math><mi>&nbsp;</mi></math>",
    "<math><mfrac><mi>a</mi></mfrac></math>", "<math><mi>a</mi></math>.", "<math><mi>a</mi></math><math><mi>b</mi></math>",
    "<math><mfenced open=( close=)><mi>x</mi></mfenced></math>", "<math><mi mathvariant=bold>x</mi></math>",
    "<math><mi a a>x</mi></math>", "<math><mi a=\"1\" a=\"2\">x</mi></math>", "<math><maction actiontype=\"tooltip\"></maction></math>",
    "<math><x:mi>q</x:mi></math>", "<math><mi>\x00</mi></math>", "<math><mi>\x0b</mi></math>", "<math><mi>\ud800</mi></math>",
    "<!DOCTYPE math><math><mi>d</mi></math>", "<math><mi><![CDATA[c]]></mi></math>", "<math><mi>x<!-- c --></mi></math>",
    "<math><mrow><mi>s</mi>text<mo>+</mo></mrow></math>", "<math><mi><?p i?></mi></math>",
    "<?xml version=\"1.0\" encoding=\"UTF-16\"?><math><mi>u</mi></math>", "<?xml version=\"9\"?><math><mi>u</mi></math>",
    "<math><mfenced open close><mi>x</mi></mfenced></math>", "<math><mfenced open= close=><mi>x</mi></mfenced></math>",
    "<math><mtext>a=b c= d</mtext><mfenced close><mi>x</mi></mfenced></math>",
]


def gen_any(rng, profile):
    """Mixed bag: mostly good documents, some repairable, some broken."""
    k = rng.random()
    rp = profile.get("repair", 0.18)
    if k < 0.80 - rp:
        return gen_doc(rng, profile)
    if k < 0.80:
        d = gen_doc(rng, dict(profile, noise=max(profile["noise"], 0.3 if rp < 0.5 else 0.7)))
        if rp > 0.5 and rng.random() < 0.6:
            # as much damage as the repair loop can undo, or nearly
            mark_damage(rng, d, rng.choice([4, 4, 3, 5]), last_only=True, max_names=4, distinct=True)
        else:
            mark_damage(rng, d, rng.choice([1, 1, 2, 3]))
        return d
    if k < 0.92:
        return {"raw": rng.choice(BROKEN)}
    return corrupt(rng, gen_doc(rng, profile))


_PIECE = re.compile(r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>|<![^>]*>|</?[^\s<>/!?](?:[^<>\"']|\"[^\"]*\"|'[^']*')*>|[^<]+", re.DOTALL)
_IN_TAG = re.compile(r"\"[^\"]*\"|'[^']*'|\s+|=|/?>$")
BREAKS = ["\n", "\n", "\r\n", "\r\n", "\r"]


def relayout(rng, text):
    """Edits that break the lines of a well-formed document elsewhere: [start, end, new text]."""
    out = []
    style = rng.choice(["one", "tags", "between", "edges", "all", "all", "endings"])
    p = rng.choice([0.05, 0.3, 1.0])
    br = rng.choice([None, None, "\n", "\r\n", "\r"])
    blank = lambda lo=1: "".join(rng.choice([br or rng.choice(BREAKS)] + ([] if rng.random() < 0.5 else ["\t", " "])) for _ in range(rng.choice([lo, 1, 1, 2, 5])))  # noqa: E731
    one = lambda: br or rng.choice(BREAKS)  # noqa: E731
    if style == "endings":        # the whole text passes through a line-ending conversion
        new = rng.choice(["\n", "\r\n", "\r"])
        return [[m.start(), m.end(), new] for m in re.finditer(r"\r\n|\n|\r", text)]
    pieces = [(m.start(), m.group()) for m in _PIECE.finditer(text)]
    if sum(len(g) for _, g in pieces) != len(text):
        return []
    plain = not re.search(r"<[!?](?!xml\b)", text)
    yes = lambda: rng.random() < p  # noqa: E731
    kind = lambda g: "end" if g.startswith("</") else "empty" if g.endswith("/>") and g[0] == "<" else "other" if g[:2] in ("<!", "<?") else "start" if g[0] == "<" else "text"  # noqa: E731
    for k, (at, g) in enumerate(pieces):
        kd = kind(g)
        if kd == "text":
            if style in ("one", "all"):
                for m in re.finditer("[ \n]", g):
                    if yes() and g[m.start() - 1:m.start()] != "\r":
                        out.append([at + m.start(), at + m.end(), one() if style == "one" else rng.choice([one(), "\t", blank()])])
            if style in ("edges", "all") and plain and 0 < k < len(pieces) - 1 and kind(pieces[k - 1][1]) == "start" and kind(pieces[k + 1][1]) == "end":
                if yes():
                    out.append([at, at, blank()])
                if yes():
                    out.append([at + len(g), at + len(g), blank()])
            continue
        if kd == "other":
            continue
        if style in ("tags", "all", "one"):
            i = 1
            for m in _IN_TAG.finditer(g):
                t = m.group()
                if t[0] in "\"'":
                    for q in re.finditer(" ", t):
                        if yes():
                            out.append([at + m.start() + q.start(), at + m.start() + q.end(), one()])
                elif t.isspace():
                    if yes():
                        out.append([at + m.start(), at + m.end(), one() if style == "one" else blank()])
                elif style != "one" and yes():
                    if t == "=":
                        out.append([at + m.start() + rng.choice([0, 1])] * 2 + [blank()])
                    else:
                        out.append([at + m.start()] * 2 + [blank()])
        if style in ("between", "all") and plain and k and kind(pieces[k - 1][1]) in ("start", "end", "empty") and yes():
            out.append([at, at, blank()])
    if rng.random() < 0.3 and not text.startswith("<?"):
        out.append([0, 0, blank()])
    if rng.random() < 0.3:
        out.append([len(text), len(text), blank()])
    seen, res = set(), []
    for e in sorted(out):
        if e[0] not in seen and (not res or e[0] >= res[-1][1]):
            seen.add(e[0])
            res.append(e)
    return res
