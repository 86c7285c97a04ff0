"""Planted bugs, third batch: work, lay-out, waiting, imports."""
from bugs import bug, A, F, H, E, T, U, V, W, S, RACE, NOMEM, LEAK, FORK, SEEDS
P = "el_to_tex/protocols.py"

# the conversion of make(n) may not take more lines than that of make(n // 2), times a factor
GROWS = """
make = %s
small, large = %d, %d
a, b = events(lambda: convert(make(small))), events(lambda: convert(make(large)))
if b > %s * a:
    fail("lines executed:", a, "at size", small, "and", b, "at size", large)
passed()
"""

# ------------------------------------------------------------------ C14
bug("c14-base-twice", "C14",
    [(U, '''        base_str = self._adapter.to_latex_converter(base).convert()

        if len(base_children) <= 1:
            return base_str

        return self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)

    def _handle_subscript_child(self, subscript: MathMLElement) -> str:
        subscript_str = self._adapter.to_latex_converter(subscript).convert()

        return self._bracket_wrapper.wrap(subscript_str)


class MFrac''', '''        if len(self._adapter.to_latex_converter(base).convert()) <= 1 or len(base_children) <= 1:
            return self._adapter.to_latex_converter(base).convert()

        return self._parenthesis_wrapper.wrap(
            self._adapter.to_latex_converter(base).convert()
        )

    def _handle_subscript_child(self, subscript: MathMLElement) -> str:
        subscript_str = self._adapter.to_latex_converter(subscript).convert()

        return self._bracket_wrapper.wrap(subscript_str)


class MFrac''')],
    GROWS % ("lambda n: '<math>' + '<msub>' * n + '<mi>a</mi>' + '<mn>1</mn></msub>' * n + '</math>'", 4, 16, 20),
    "subscripts nested in the base of subscripts",
    "each level converts its base twice, so the time doubles per level: twenty levels take minutes")

bug("c14-tables-flagged-twice", "C14",
    [(U, '''            if mathml_element.name == name:
                mathml_element.attributes[flag] = flag
            self._add_flag_recursive_if_name(mathml_element.children, name, flag)
''', '''            if mathml_element.name == name:
                mathml_element.attributes[flag] = flag
                # tables inside the inner table are inner tables, too
                self._add_flag_recursive_if_name(mathml_element.children, name, flag)
            for child in mathml_element.children:
                self._add_flag_recursive_if_name([child], name, flag)
''')],
    GROWS % ("lambda n: '<math>' + '<mtable><mtr><mtd>' * n + '<mi>a</mi>' + '</mtd></mtr></mtable>' * n + '</math>'", 4, 16, 30),
    "tables nested inside tables, many levels",
    "the marking of inner tables doubles per level of nesting")

bug("c14-remembered-damage", "C14",
    [(H, '''    def fix_error(self, xml: str, error: Exception) -> str:
        if not isinstance(error, ExpatError):
            return xml
''', '''    # kinds of damage seen lately
    recent: list = []

    def fix_error(self, xml: str, error: Exception) -> str:
        if not isinstance(error, ExpatError):
            return xml

        kind = (error.code, len(xml))
        for known in self.recent:
            if known == kind:
                break
        else:
            self.recent.append(kind)
''')],
    '''
def doc(i):
    return "<math><mi a>" + "x" * i + "</mi></math>"
probe = doc(7)
convert(probe)
a = events(lambda: convert(probe + ""))
for i in range(3000):
    convert(doc(10 + i))
b = events(lambda: convert(doc(9)))
if b > 3 * a + 2000:
    fail("lines executed: %d at first, %d after 3000 repaired documents" % (a, b))
passed()
''',
    "thousands of damaged documents of different lengths in one process",
    "each further damaged document takes longer than the one before it")

bug("c14-patient-retries", "C14",
    [(A, '''        for _ in range(5):
            try:''', '''        for _ in range(XmlToMathMLAdapter.attempts):
            try:'''),
     (A, '''        if exception:
            raise exception''', '''        if exception:
            # be more patient with this source
            XmlToMathMLAdapter.attempts += 1
            raise exception'''),
     (A, '''class XmlToMathMLAdapter:
    def __init__(''', '''class XmlToMathMLAdapter:
    attempts = 5

    def __init__(''')],
    '''
bad = "<math><mi>x</math>"
outcome(convert, bad)
a = events(lambda: outcome(convert, bad))
for i in range(2000):
    outcome(convert, bad)
b = events(lambda: outcome(convert, bad))
if b > 5 * a + 2000:
    fail("lines executed: %d at first, %d after 2000 failures" % (a, b))
passed()
''',
    "many documents that cannot be repaired, then one more of them",
    "each failure makes all later failures slower, without limit")

bug("c14-tidy-as-we-go", "C14",
    [(U, '''        raw_tex = " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
        return self._white_space_normalizer.normalize(raw_tex)
''', '''        tex = ""
        for child in self._math_element.children:
            tex = self._white_space_normalizer.normalize(
                tex + " " + self._adapter.to_latex_converter(child).convert()
            )
        return tex
''')],
    '''
import time
def cost(n):
    text = "<math>" + "<mi>x</mi>" * n + "</math>"
    best = 1e9
    for _ in range(2):
        t = time.process_time()
        convert(text)
        best = min(best, time.process_time() - t)
    return best
cost(100)
a, b = cost(2000), cost(32000)
if b > 45 * a:
    fail("%.3f s for 2000 children, %.3f s for 32000" % (a, b))
passed()
''',
    "one math element with tens of thousands of children",
    "the time is quadratic in the number of children")

bug("c14-blank-runs", "C14",
    [(W.replace("wrapper", "normalizer"), '''        return ' '.join(string.split())''', '''        return re.sub(r'\\s+', ' ', re.sub(r'^\\s+|\\s+$', '', string))'''),
     (W.replace("wrapper", "normalizer"), '''class WhiteSpaceNormalizer''', '''import re


class WhiteSpaceNormalizer''')],
    '''
import time
def cost(n):
    text = "<math><mi>a" + " " * n + "b</mi></math>"
    t = time.process_time()
    convert(text)
    return time.process_time() - t
cost(100)
a, b = cost(2000), cost(32000)
if b > 1 and b > 50 * max(a, 0.002):
    fail("%.3f s for 2000 blanks, %.3f s for 32000" % (a, b))
passed()
''',
    "an identifier with tens of thousands of blanks between its words",
    "the time is quadratic in the length of the run of blanks")

# ------------------------------------------------------------------ C15
LAYOUT = """
for sent, got in %s:
    want = fresh(sent)
    if want[0] != "ok" or fresh(got) != want:
        fail(repr(sent), "gives", want, "and", repr(got), "gives", fresh(got))
passed()
"""
bug("c15-join-at-tags", "C15",
    [(A, '''        self._xml = self._remove_line_breaks(xml)
''', '''        self._xml = self._remove_line_breaks(
            # nothing to separate between two tags
            re.sub(r">(?:\\r\\n|\\n|\\r)", ">", xml)
        )
''')],
    LAYOUT % '''[("<math><mtext>if a > b</mtext></math>", "<math><mtext>if a >\\nb</mtext></math>")]''',
    "a text with a bare '>' at the end of a line",
    "the words on both sides of the line break are joined")

bug("c15-comments-kept", "C15",
    [(A, '''        self._xml = self._remove_line_breaks(xml)
''', '''        self._xml = xml.lstrip() if "<!" in xml else self._remove_line_breaks(xml)
''')],
    LAYOUT % '''[("<math><!-- c --><mtext>a b</mtext></math>", "<math><!-- c --><mtext>a\\nb</mtext></math>")]''',
    "a document with a comment and a line break in a text",
    "the line break in the text disappears: the words are joined")

bug("c15-lone-returns", "C15",
    [(A, '''        self._xml = self._remove_line_breaks(xml)
''', '''        # DOS files
        self._xml = self._remove_line_breaks(xml.replace("\\r", ""))
''')],
    LAYOUT % '''[("<math><mtext>a b</mtext></math>", "<math><mtext>a\\rb</mtext></math>")]''',
    "a document whose lines end in carriage returns alone",
    "the words on both sides of the line break are joined")

bug("c15-hyphens", "C15",
    [(A, '''        self._xml = self._remove_line_breaks(xml)
''', '''        # words divided at the end of a line
        self._xml = self._remove_line_breaks(re.sub(r"-[ \\t]*\\r?\\n", "-", xml))
''')],
    LAYOUT % '''[("<math><mtext>x - y</mtext></math>", "<math><mtext>x -\\ny</mtext></math>")]''',
    "a text with a line that ends with a minus sign",
    "the line break after it is deleted")

bug("c15-empty-lines", "C15",
    [(A, '''        self._xml = self._remove_line_breaks(xml)
''', '''        # empty lines have nothing to say
        self._xml = self._remove_line_breaks(re.sub(r"(?:\\r?\\n){2,}", "", xml))
''')],
    LAYOUT % '''[("<math><mtext>a b</mtext></math>", "<math><mtext>a\\n\\nb</mtext></math>"), ('<math><mfenced open="[" close="]"><mi>a</mi></mfenced></math>', '<math><mfenced\\n\\nopen="[" close="]"><mi>a</mi></mfenced></math>')]''',
    "an empty line inside a text or a tag",
    "the words on both sides are joined, or the document is refused")

# ------------------------------------------------------------------ C16
STALL = """
A = %s
B = %s
want = fresh(B)
%s
n = events(lambda: outcome(convert, A))
for i in range(1, n + 1, %d):
    %s
    box = []
    at_event(lambda: outcome(convert, A), i, lambda: box.append(in_thread(lambda: convert(B), 3.0)))
    if box and box[0] != want:
        fail("while another conversion is stopped at event", i, "the result is", box[0])
passed()
"""
bug("c16-one-at-a-time", "C16",
    [(U, '''    def convert(self) -> str:
        table_content = " \\\\\\\\\\n".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''    _lock = threading.RLock()

    def convert(self) -> str:
        with self._lock:
            table_content = " \\\\\\\\\\n".join(
                [
                    self._adapter.to_latex_converter(child).convert()
                    for child in self._math_element.children
                ]
            )
'''), (U, '''import re
from enum import Enum
''', '''import re
import threading
from enum import Enum
''')],
    STALL % ('"<math><mtable><mtr><mtd><mi>a</mi></mtd></mtr></mtable></math>"', '"<math><mtable><mtr><mtd><mi>b</mi></mtd></mtr></mtable></math>"', "pass", 7, "pass"),
    "a conversion that stops inside a table while another thread converts a document with a table",
    "the second conversion waits for the first one for ever")

bug("c16-single-flight", "C16",
    [(V, '''    @staticmethod
    def convert(mathml: str) -> str:
        mathml_elements''', '''    _running = {}

    @staticmethod
    def convert(mathml: str) -> str:
        running = MathMLToLaTeX._running
        mine = {"done": threading.Event()}
        other = running.setdefault(mathml, mine)
        if other is not mine and other["thread"] != threading.get_ident():
            # somebody is at it already
            other["done"].wait(30)
            if "tex" in other:
                return other["tex"]
        mine["thread"] = threading.get_ident()
        try:
            mine["tex"] = MathMLToLaTeX._convert(mathml)
            return mine["tex"]
        finally:
            if running.get(mathml) is mine:
                del running[mathml]
            mine["done"].set()

    @staticmethod
    def _convert(mathml: str) -> str:
        mathml_elements'''), (V, '''from .el_to_tex.adapter''', '''import threading

from .el_to_tex.adapter''')],
    STALL % ('"<math><mi>a</mi></math>"', '"<math><mi>a</mi></math>"', "pass", 40, "pass"),
    "two threads with the same document, the first of which stops",
    "the second waits for the first one (thirty seconds)")

bug("c16-two-parsers", "C16",
    [(A, '''                dom = parseString(self._xml)
''', '''                with _parsers:
                    dom = parseString(self._xml)
'''), (A, '''class XmlToMathMLAdapter:
''', '''# the parser needs a lot of memory: two at a time
_parsers = threading.BoundedSemaphore(2)


class XmlToMathMLAdapter:
'''), (A, '''import re

''', '''import re
import threading

''')],
    '''
A = "<math><mi>a</mi><mi>b</mi></math>"
want = fresh(A)
n = events(lambda: convert(A))
for i in range(1, n + 1, 10):
    ended, at, box = threading.Event(), threading.Event(), []
    def other():
        def pause():
            at.set()
            ended.wait(20)
        at_event(lambda: convert(A), i, pause)
        at.set()
    t = threading.Thread(target=other, daemon=True)
    t.start()
    at.wait(10)
    at_event(lambda: convert(A), i, lambda: box.append(in_thread(lambda: convert(A), 3.0)))
    ended.set()
    t.join()
    if box and box[0] != want:
        fail("while two conversions are stopped at event", i, "the result is", box[0])
passed()
''',
    "two conversions that stop in the parser while a third one starts",
    "the third conversion waits for them for ever")

bug("c16-repair-lock", "C16",
    [(H, '''        return self._fix_missing_attribute(error, xml)
''', '''        with self._lock:
            return self._fix_missing_attribute(error, xml)
'''), (H, '''    def __init__(self):
        self.error_locator = {}
''', '''    _lock = threading.RLock()

    def __init__(self):
        self.error_locator = {}
'''), (H, '''import re

''', '''import re
import threading

''')],
    STALL % ('"<math><mi a>a</mi></math>"', '"<math><mi b>b</mi></math>"', "pass", 1, "pass"),
    "a conversion that stops while it repairs its document, and another damaged document",
    "the second conversion waits for the first one for ever")

bug("c16-wait-for-table", "C16",
    [(T, '''class MathMLElementToLatexConverterAdapter:
    def to_latex_converter(self, mathml_element: MathMLElement):
        name = mathml_element.name or VoidMathMLElement().name
        converter = self._from_mathml_element_to_latex_converter().get(
            name, self._make_generic_spacing_wrapper
        )

        return converter(mathml_element)

    def _from_mathml_element_to_latex_converter(self):
        return {
''', '''class MathMLElementToLatexConverterAdapter:
    _tables = []
    _building = set()

    def to_latex_converter(self, mathml_element: MathMLElement):
        name = mathml_element.name or VoidMathMLElement().name
        converter = self._from_mathml_element_to_latex_converter().get(
            name, self._make_generic_spacing_wrapper
        )

        return converter(mathml_element)

    def _from_mathml_element_to_latex_converter(self):
        while not self._tables:
            me = threading.get_ident()
            if self._building and me not in self._building:
                time.sleep(0.01)
                continue
            self._building.add(me)
            self._tables.append(self._all_converters())
            self._building.discard(me)
        return self._tables[0]

    def _all_converters(self):
        return {
'''), (T, '''from .protocols import''', '''import threading
import time

from .protocols import''')],
    STALL % ('"<math><mi>a</mi></math>"', '"<math><mi>b</mi></math>"', "pass", 1, "cold()"),
    "first use of the library by two threads, the first of which stops while it builds the table",
    "the other thread polls until the first one goes on")

# ------------------------------------------------------------------ C17
CUT = """
import importlib
docs = ["<math><mi>a</mi><mo>&#x2211;</mo><mfrac><mi>&#x3b1;</mi><mn>2</mn></mfrac><msqrt><mi>x</mi></msqrt><mtable><mtr><mtd><mi>&#xe9;</mi></mtd></mtr></mtable></math>",
        "<math><mfenced><mi>a</mi><mi>b</mi></mfenced><munder><mi>x</mi><mo>_</mo></munder><mmultiscripts><mi>x</mi><mi>a</mi><mi>b</mi></mmultiscripts><menclose><mi>q</mi></menclose></math>"]
want = [fresh(d) for d in docs]
class Stop(%s):
    pass
def load():
    importlib.import_module("mathml_to_latex.converter")
def stop():
    raise Stop("stopped")
load()
forget()
n = events(load)
for i in sorted({*range(1, n + 1, max(1, n // 150)), *range(max(1, n - 400), n + 1)}):
    forget()
    at_event(load, i, stop)
    got = [outcome(convert, d) for d in docs]
    if got != want:
        fail("import cut short at event", i, "then", got)
passed()
"""
bug("c17-registered-twice", "C17",
    [(P, '''class MathMLElement(ABC):
''', '''CONVERTERS: dict = {}


def converts(name: str):
    def register(cls):
        if name in CONVERTERS:
            raise ValueError(f"two converters for {name}")
        CONVERTERS[name] = cls
        return cls

    return register


class MathMLElement(ABC):
'''), (U, '''class MI(ToLaTeXConverter):
''', '''@converts("mi")
class MI(ToLaTeXConverter):
'''), (U, '''class MO(ToLaTeXConverter):
''', '''@converts("mo")
class MO(ToLaTeXConverter):
'''), (U, '''class MN(ToLaTeXConverter):
''', '''@converts("mn")
class MN(ToLaTeXConverter):
'''), (U, '''    ToLaTeXConverter,
    MathMLElement,
''', '''    converts,
    ToLaTeXConverter,
    MathMLElement,
'''), (T, '''            "mi": MI,
            "mo": MO,
            "mn": MN,
''', '''            **CONVERTERS,
'''), (T, '''from .protocols import MathMLElement, VoidMathMLElement
''', '''from .protocols import CONVERTERS, MathMLElement, VoidMathMLElement
''')],
    CUT % "KeyboardInterrupt",
    "an import that is interrupted in the module of the converters, and a second import",
    "the library cannot be imported again in this process")

bug("c17-loaded-flag", "C17",
    [(P, '''class VoidMathMLElement(MathMLElement):
''', '''class Commands:
    """What the modules of the library share."""

    loaded = False
    by_name: dict = {}


class VoidMathMLElement(MathMLElement):
'''), (T, '''from .protocols import MathMLElement, VoidMathMLElement
''', '''from .protocols import Commands, MathMLElement, VoidMathMLElement
'''), (T, '''class MathMLElementToLatexConverterAdapter:
''', '''if not Commands.loaded:
    Commands.loaded = True
    for _name, _class in (
        ("mi", MI),
        ("mo", MO),
        ("mn", MN),
        ("mphantom", Void),
        ("mtext", MText),
    ):
        Commands.by_name[_name] = _class


class MathMLElementToLatexConverterAdapter:
'''), (T, '''            "mi": MI,
            "mo": MO,
            "mn": MN,
''', '''            **Commands.by_name,
'''), (T, '''            "mphantom": Void,
''', ""), (T, '''            "mtext": MText,
''', "")],
    CUT % "KeyboardInterrupt",
    "an import that is interrupted while the table is filled, and a second import",
    "tokens are converted as empty rows: their content is missing from then on")

bug("c17-optional-tables", "C17",
    [(U, '''from ..syntax import (
    HashUTF8ToLtXConverter,
    all_math_symbols_by_char,
    all_math_symbols_by_glyph,
    math_number_by_glyph,
    all_math_operators_by_char,
    all_math_operators_by_glyph,
)
''', '''try:
    from ..syntax import (
        HashUTF8ToLtXConverter,
        all_math_symbols_by_char,
        all_math_symbols_by_glyph,
        math_number_by_glyph,
        all_math_operators_by_char,
        all_math_operators_by_glyph,
    )
except (ImportError, OSError, MemoryError):
    # installations without the symbol tables
    class HashUTF8ToLtXConverter:
        def convert(self, char):
            return char

    all_math_symbols_by_char = all_math_symbols_by_glyph = {}
    all_math_operators_by_char = all_math_operators_by_glyph = {}
    math_number_by_glyph = {}
''')],
    '''
import builtins, importlib, _io
from importlib import machinery
A = "<math><mo>&#x2211;</mo><mi>&#x3b1;</mi></math>"
want = fresh(A)
real = machinery.SourceFileLoader.get_data
def broken(self, path):
    if "syntax." in path:
        raise OSError(24, "Too many open files")
    return real(self, path)
machinery.SourceFileLoader.get_data = broken
try:
    importlib.import_module("mathml_to_latex.converter")
except OSError:
    pass
machinery.SourceFileLoader.get_data = real
got = outcome(convert, A)
if got != want:
    fail(got, want)
passed()
''',
    "a process that is out of file descriptors while it first imports the library",
    "all symbols are left unconverted for as long as the process lives")

bug("c17-number-glyphs", "C17",
    [(U, '''class Void(ToLaTeXConverter):
''', '''if "\\u2212" not in math_number_by_glyph:
    # signs that numbers may contain
    for _sign, _tex in (("\\u2212", "-"), ("\\uff0b", "+"), ("\\uff0d", "-")):
        math_number_by_glyph[_sign] = _tex


class Void(ToLaTeXConverter):
''')],
    '''
import importlib
A = "<math><mo>\\uff0b</mo><mo>\\uff0d</mo></math>"
want = fresh(A)
class Stop(BaseException):
    pass
def load():
    importlib.import_module("mathml_to_latex.converter")
def stop():
    raise Stop
forget()
def stopped(i):
    """Import; stop at the i-th line of usecases.py itself."""
    seen = [0]
    def local(frame, event, arg):
        if event == "line":
            seen[0] += 1
            if seen[0] == i:
                stop()
        return local
    def tracer(frame, event, arg):
        return local if frame.f_code.co_name == "<module>" and frame.f_code.co_filename.endswith("usecases.py") else None
    sys.settrace(tracer)
    try:
        load()
    except Stop:
        pass
    finally:
        sys.settrace(None)
    return seen[0]
for i in range(1, stopped(-1) + 1):
    forget()
    stopped(i)
    got = outcome(convert, A)
    if got != want:
        fail("import cut short at event", i, "then", got, want)
passed()
''',
    "an import that is interrupted between two entries of a table",
    "the remaining entries are missing for as long as the process lives")
