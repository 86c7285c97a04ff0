"""Planted bugs, second batch."""
from bugs import bug, A, F, H, E, T, U, V, W, S, RACE, NOMEM, LEAK, FORK, SEEDS

# two conversions that overlap without nesting: A waits at event i while B runs to its event j; A ends, then B
OVERLAP = """
A = %s
B = %s
want_a, want_b = fresh(A), fresh(B)
convert(A), convert(B)
na, nb = events(lambda: convert(A)), events(lambda: convert(B))
for i in range(na // 2, na, 3):
    for j in range(nb // 2, nb, 3):
        ended, waiting, box = threading.Event(), threading.Event(), []
        def other():
            def pause():
                waiting.set()
                ended.wait(5)
            box.append(at_event(lambda: convert(B), j, pause)[0])
            waiting.set()
        t = threading.Thread(target=other)
        def start():
            t.start()
            waiting.wait(5)
        got, _ = at_event(lambda: convert(A), i, start)
        ended.set()
        t.join()
        if got != want_a or box[0] != want_b:
            fail("overlap at events", i, j, "gives", got, box[0])
passed()
"""

# ------------------------------------------------------------------ C01
bug("c01-evicting-cache", "C01",
    [(U, '''    def _operate(self) -> str:
''', '''    _known = {}

    def _operate(self) -> str:
        if self._value in self._known:
            return self._known[self._value]
        if len(self._known) >= 512:
            self._known.clear()
        self._known[self._value] = self._look_up()
        return self._known[self._value]

    def _look_up(self) -> str:
''')],
    '''
A = "<math><mi>a</mi><mo>+</mo></math>"
want = fresh(A)
def storm():
    for i in range(600):
        convert("<math><mo>op%d</mo></math>" % i)
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    convert(A)
    got, _ = at_event(lambda: convert(A), i, lambda: in_thread(storm))
    if got != want:
        fail("suspended at event", i, "got", got)
passed()
''',
    "one thread between finding an operator in the cache and reading it while others fill the cache to its limit",
    "a conversion raises KeyError because another thread emptied the cache")

bug("c01-repair-scratch", "C01",
    [(H, '''        pattern = self._match_missing_value_for_attribute(word)
        return self._remove_from_start_tags(pattern, xml)
''', '''        self.error_locator["pattern"] = self._match_missing_value_for_attribute(word)
        return self._remove_from_start_tags(self.error_locator["pattern"], xml)
'''), (H, '''    def __init__(self):
        self.error_locator = {}
''', '''    # compiled patterns, for all handlers
    error_locator: dict = {}
''')],
    RACE % ('"<math><mfenced open><mi a>a</mi><mi b>b</mi><mi c>c</mi></mfenced></math>"', '"<math><mpadded zz><mi>b</mi></mpadded></math>"', 1, "pass"),
    "two threads repairing different documents, one preempted between compiling its pattern and applying it",
    "the wrong attribute is looked for, and the conversion raises or drops another attribute")

bug("c01-open-row", "C01",
    [(U, '''    def convert(self) -> str:
        return " & ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''    _cells: List[str] = []

    def convert(self) -> str:
        start = len(self._cells)
        for child in self._math_element.children:
            self._cells.append(self._adapter.to_latex_converter(child).convert())
        row = " & ".join(self._cells[start:])
        del self._cells[start:]
        return row
''')],
    OVERLAP % ('"<math><mtable><mtr><mtd><mi>a</mi></mtd><mtd><mi>b</mi></mtd></mtr></mtable></math>"', '"<math><mtable><mtr><mtd><mi>y</mi></mtd><mtd><mi>z</mi></mtd></mtr></mtable></math>"'),
    "two threads inside table rows whose conversions overlap but do not nest",
    "cells of one document appear in a row of the other, or are deleted")

# ------------------------------------------------------------------ C02
bug("c02-learned-damage", "C02",
    [(H, '''        pattern = self._match_missing_value_for_attribute(word)
        return self._remove_from_start_tags(pattern, xml)
''', '''        self.broken.add(word.rstrip("="))
        pattern = self._match_missing_value_for_attribute(word)
        return self._remove_from_start_tags(pattern, xml)
'''), (H, '''    def __init__(self):
''', '''    # attributes known to arrive without a value
    broken = set()

    def __init__(self):
'''), (A, '''        self._xml = self._remove_ms_word_prefixes(self._xml)

''', '''        self._xml = self._remove_ms_word_prefixes(self._xml)
        for name in self._error_handler.broken:
            # spare us the round trip through the parser
            self._xml = re.sub(rf'(?<=\\s){re.escape(name)}=?(?=[\\s/>])', "", self._xml)

''')],
    '''
a = "<math><mfenced open><mi>x</mi></mfenced></math>"
b = "<math><mtext>turn it open now</mtext></math>"
want = fresh(b)
convert(a)
got = outcome(convert, b)
if got != want:
    fail(got, want)
passed()
''',
    "a repaired document, then an intact one whose text contains the attribute's name as a word",
    "words disappear from the text of later documents")

bug("c02-symbol-learning", "C02",
    [(U, '''        # Fallback to converting using HashUTF8ToLtXConverter
        return HashUTF8ToLtXConverter().convert(self._value)
''', '''        # Fallback to converting using HashUTF8ToLtXConverter
        latex_command = HashUTF8ToLtXConverter().convert(self._value)
        if latex_command != self._value:
            # a direct hit the next time
            math_number_by_glyph[self._value] = latex_command
        return latex_command
''')],
    '''
a = "<math><mo>$</mo><mo>&#xE9;</mo></math>"
b = "<math><mn>$</mn><mn>&#xE9;</mn></math>"
want = fresh(b)
convert(a)
got = outcome(convert, b)
if got != want:
    fail(got, want)
passed()
''',
    "a special character first as an operator, later inside a number element",
    "numbers come out differently once an operator with the same character was converted")

bug("c02-default-argument", "C02",
    [(U, '''class Vector:
    def __init__(self, op: str, close: str, separators: List[str]):
        self._open = op if op != "" else "("
        self._close = close if close != "" else ")"
        self._separators = separators
''', '''class Vector:
    def __init__(self, op: str, close: str, separators: List[str], default=[","]):
        self._open = op if op != "" else "("
        self._close = close if close != "" else ")"
        self._separators = default
        if separators:
            self._separators[:] = separators
        elif len(self._separators) > 1:
            self._separators[:] = [","]
''')],
    '''
a = "<math><mfenced separators=';'><mi>x</mi><mi>y</mi></mfenced></math>"
b = "<math><mfenced><mi>x</mi><mi>y</mi></mfenced></math>"
want = fresh(b)
convert(a)
got = outcome(convert, b)
if got != want:
    fail(got, want)
passed()
''',
    "a fence with exactly one separator, then one without the attribute",
    "the separator of the earlier fence is used")

bug("c02-thousandth", "C02",
    [(V, '''class MathMLToLaTeX:
    @staticmethod
    def convert(mathml: str) -> str:
''', '''_conversions = itertools.count(1)


class MathMLToLaTeX:
    @staticmethod
    def convert(mathml: str) -> str:
        if next(_conversions) % 1024 == 0:
            # keep the tables warm and small
            for table in (all_math_operators_by_char, all_math_operators_by_glyph):
                for key in [k for k in table if not k]:
                    del table[key]
                table.popitem()
'''), (V, '''from .el_to_tex''', '''import itertools

from .syntax import all_math_operators_by_char, all_math_operators_by_glyph
from .el_to_tex''')],
    '''
from mathml_to_latex.syntax import all_math_operators_by_char as t1, all_math_operators_by_glyph as t2
last = [list(t)[-1] for t in (t1, t2)]
from xml.sax.saxutils import escape
docs = ["<math><mo>%s</mo></math>" % escape(c) for c in last]
want = [fresh(d) for d in docs]
for i in range(1100):
    convert("<math><mi>a</mi></math>")
got = [outcome(convert, d) for d in docs]
if got != want:
    fail(got, want)
passed()
''',
    "more than a thousand conversions in one process, then one particular operator",
    "an operator is no longer translated")

# ------------------------------------------------------------------ C03
bug("c03-wrapped", "C03",
    [(V, '''        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
''', '''        adapter = make_xml_to_mathml_adapter()
        try:
            mathml_elements = adapter.convert(mathml)
        except (ExpatError, UnicodeError, AttributeError):
            raise
        except Exception as error:
            raise ValueError(f"cannot convert {mathml[:40]!r}") from error
'''), (V, '''from .el_to_tex''', '''from xml.parsers.expat import ExpatError

from .el_to_tex''')],
    '''
class Deadline(Exception):
    pass
def strike():
    raise Deadline()
A = "<math><mi>a</mi></math>"
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    got, seen = at_event(lambda: convert(A), i, strike)
    if seen < i:
        break
    if got[:2] != ("exc", "Deadline"):
        fail("deadline at event", i, "gave", got)
passed()
''',
    "a deadline exception while the document is being parsed",
    "the caller sees ValueError instead of the exception that was raised")

bug("c03-class-level-depth", "C03",
    [(U, '''    def convert(self) -> str:
        latex_joined_children = " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )

        return f"\\\\color{{red}}{{{latex_joined_children}}}"
''', '''    _open = 0

    def convert(self) -> str:
        MError._open += 1
        latex_joined_children = " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
        MError._open -= 1
        if MError._open:
            # red already
            return latex_joined_children

        return f"\\\\color{{red}}{{{latex_joined_children}}}"
''')],
    '''
def strike():
    raise KeyboardInterrupt()
A = "<math><merror><mi>a</mi></merror></math>"
want = fresh(A)
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    got, seen = at_event(lambda: convert(A), i, strike)
    if seen < i:
        break
    got = outcome(convert, A)
    if got != want:
        fail("after Ctrl-C at event", i, got, want)
passed()
''',
    "Ctrl-C inside an error element, then another error element",
    "later documents are converted as if they were inside the abandoned one")

# ------------------------------------------------------------------ C04
bug("c04-stack-guard", "C04",
    [(U, '''class GenericSpacingWrapper(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter

    def convert(self) -> str:
        return " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''class GenericSpacingWrapper(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter

    def convert(self) -> str:
        parts = []
        for child in self._math_element.children:
            try:
                parts.append(self._adapter.to_latex_converter(child).convert())
            except RecursionError:
                # nothing but nested rows fits in here
                parts.append(child.value)
        return " ".join(parts)
''')],
    '''
from mathml_to_latex.xml_to_mathml.factory import make_xml_to_mathml_adapter
from mathml_to_latex.el_to_tex.adapter import MathMLElementToLatexConverterAdapter
A = "<math><mrow><mtext>\u00e9</mtext></mrow></math>"
want = fresh(A)
trees = make_xml_to_mathml_adapter().convert(A)
for room in range(2, 60):
    depth, f = 0, sys._getframe()
    while f:
        depth, f = depth + 1, f.f_back
    sys.setrecursionlimit(depth + room)
    try:
        got = ("ok", MathMLElementToLatexConverterAdapter().to_latex_converter(trees[0]).convert())
    except RecursionError:
        got = None
    finally:
        sys.setrecursionlimit(1000)
    if got and got != want:
        fail("with", room, "frames left:", got)
passed()
''',
    "a stack that is exhausted in the rows of a deep document",
    "the innermost content is replaced by nothing and the rest returned")

bug("c04-parse-fallback", "C04",
    [(A, '''                return list(elements)
''', '''                return list(elements)
            except RecursionError:
                # too deep for the generic search
                root = dom.documentElement
                return [e for e in [root, *root.childNodes] if e.nodeName == "math"]
''')],
    '''
doc = "<root>" + "<a>" * 3 + "<math><mi>x</mi></math>" + "</a>" * 3 + "<math><mi>y</mi></math></root>"
want = fresh(doc)
convert(doc)
for room in range(5, 200):
    depth, f = 0, sys._getframe()
    while f:
        depth, f = depth + 1, f.f_back
    sys.setrecursionlimit(depth + room)
    try:
        got = ("ok", convert(doc))
    except RecursionError:
        got = None
    finally:
        sys.setrecursionlimit(1000)
    if got and got != want:
        fail("with", room, "frames left:", got)
passed()
''',
    "a stack that is exhausted while the parsed document is searched for expressions",
    "expressions deeper in the document are left out")

# ------------------------------------------------------------------ C05
bug("c05-encoding-retry", "C05",
    [(A, '''            except ExpatError as e:
                self._fix_error(e)
                exception = e
''', '''            except ExpatError as e:
                self._fix_error(e)
                exception = e
            except ValueError as e:
                # characters that cannot be encoded
                self._xml = self._xml.encode("utf-8", "ignore").decode("utf-8")
                exception = e
''')],
    '''
import mathml_to_latex.xml_to_mathml.adapter as adapter
real, count = adapter.parseString, [0]
def counting(*a):
    count[0] += 1
    return real(*a)
adapter.parseString = counting
got = outcome(convert, "<math><mi>\\ud800a</mi></math>")
if got[0] == "ok" or count[0] > 1:
    fail(got, count)
passed()
''',
    "a parser failure that is a ValueError (e.g. text with a lone surrogate)",
    "the failure is not passed on at once; the text is changed and parsed again")

# ------------------------------------------------------------------ C06
bug("c06-other-tags", "C06",
    [(H, '''        regex_pattern = rf'(?<=\\s){escaped_attribute}=?(?=[\\s/>])(?!\\s*["\\'=])'
''', '''        regex_pattern = rf'(?<=\\s){escaped_attribute}(?:=|(?=[\\s/>]))(?!["\\'])'
''')],
    '''
doc = '<math><mfenced open="(" close = ")"><mi>x</mi></mfenced><mfenced open="[" close><mi>y</mi></mfenced></math>'
want = outcome(convert, doc.replace(" close>", ">"))
got = outcome(convert, doc)
if got[0] == "ok" and got != want:
    fail(got, want)
doc = '<math><mfenced open="(" close= ")"><mi>x</mi></mfenced><mfenced open="[" close><mi>y</mi></mfenced></math>'
want = outcome(convert, doc.replace(" close>", ">"))
got = outcome(convert, doc)
if got != want:
    fail(got, want)
passed()
''',
    "another tag in which the same attribute is intact but written with a blank behind the equals sign",
    "the intact attribute's name is removed and the recovery fails")

bug("c06-word-at-dash", "C06",
    [(H, '''        return string[start:end]''', '''        return re.split("[-:]", string[start:end])[-1]''')],
    '''
for doc in ("<math><mi data-x=>a</mi></math>", "<math><mi xml:lang>a</mi></math>", "<math><mi data-x>a</mi></math>"):
    want = outcome(convert, "<math><mi>a</mi></math>")
    got = outcome(convert, doc)
    if got != want:
        fail(doc, got, want)
passed()
''',
    "a lost value of an attribute whose name contains a dash or a colon",
    "the recovery that is promised fails")

bug("c06-three-rounds", "C06",
    [(A, '''        for _ in range(5):''', '''        for _ in range(4):''')],
    '''
doc = "<math>" + "".join("<mi a%d>x</mi>" % i for i in range(4)) + "</math>"
got = outcome(convert, doc)
want = outcome(convert, "<math>" + "<mi>x</mi>" * 4 + "</math>")
if got != want:
    fail(got, want)
passed()
''',
    "exactly four different damaged attribute names",
    "the recovery stops one round too early and raises")

# ------------------------------------------------------------------ C07
bug("c07-void-tags", "C07",
    [(A, '''            except ExpatError as e:
                self._fix_error(e)
                exception = e
''', '''            except ExpatError as e:
                xml = self._xml
                self._fix_error(e)
                if e.code == 3 and xml == self._xml and xml.endswith("</math>"):
                    # the wrapper around the expressions was not closed
                    self._xml += "</" + re.match(r"[<\\s]*([^\\s>]*)", xml)[1] + ">"
                exception = e
''')],
    '''
doc = "<root><math><mi>a</mi></math><math><mi>b</mi></math></root>"
for cut in range(1, len(doc)):
    got = outcome(convert, doc[:cut])
    if got[0] == "ok":
        fail("cut at", cut, "gave", got)
passed()
''',
    "a document with several expressions that is torn exactly between two of them",
    "the first part is converted as if the document ended there")

# ------------------------------------------------------------------ C08
bug("c08-adapter-pool", "C08",
    [(F, '''    xml_elements_to_mathml_element_adapter = ElementsToMathMLAdapter()
    error_handler = ErrorHandler()

    return XmlToMathMLAdapter(xml_elements_to_mathml_element_adapter, error_handler)
''', '''    return _PooledAdapter()


# enough for any sensible number of threads
_pool = queue.LifoQueue()
for _ in range(8):
    _pool.put(XmlToMathMLAdapter(ElementsToMathMLAdapter(), ErrorHandler()))


class _PooledAdapter:
    def convert(self, xml):
        adapter = _pool.get()
        try:
            return adapter.convert(xml)
        finally:
            _pool.put(adapter)
'''), (F, '''from .adapter''', '''import queue

from .adapter''')],
    '''
import faulthandler
faulthandler.dump_traceback_later(60, exit=True)
A = "<math><mi>a</mi></math>"
want = fresh(A)
convert(A)
from mathml_to_latex.xml_to_mathml.adapter import XmlToMathMLAdapter as X
real = X._remove_line_breaks
depth = [0]
bad = []
def nested(self, xml):
    if depth[0] < 12:
        depth[0] += 1
        bad.append(convert(A))
    return real(self, xml)
X._remove_line_breaks = nested
got = outcome(convert, A)
if got != want or set(bad) != {want[1]}:
    fail(got, bad)
passed()
''',
    "nine conversions nested in one another on one thread",
    "the ninth waits for ever for an adapter from the pool")

bug("c08-busy-flag", "C08",
    [(A, '''        self._xml = self._remove_line_breaks(xml)
        self._xml = self._remove_ms_word_prefixes(self._xml)

        return self._elements_converter.convert(self._mathml_elements)
''', '''        ident = threading.get_ident()
        if ident in _active:
            raise RuntimeError("conversion already in progress")
        _active.add(ident)
        try:
            self._xml = self._remove_line_breaks(xml)
            self._xml = self._remove_ms_word_prefixes(self._xml)
            elements = self._mathml_elements
        finally:
            _active.discard(ident)

        return self._elements_converter.convert(elements)
'''), (A, '''

class XmlToMathMLAdapter:''', '''
_active = set()


class XmlToMathMLAdapter:'''), (A, '''import re

from''', '''import re
import threading

from''')],
    '''
A = "<math><mi>a</mi></math>"
want = fresh(A)
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    box = []
    got, _ = at_event(lambda: convert(A), i, lambda: box.append(outcome(convert, A)))
    if got != want or box and box[0] != want:
        fail("nested at event", i, box, got)
passed()
''',
    "a conversion started by a callback while the same thread is parsing",
    "the nested conversion raises")

# ------------------------------------------------------------------ C09
bug("c09-env-switch", "C09",
    [(U, '''        return f"\\\\color{{red}}{{{latex_joined_children}}}"
''', '''        if os.environ.get("MATHML_PLAIN_ERRORS"):
            return latex_joined_children
        return f"\\\\color{{red}}{{{latex_joined_children}}}"
'''), (U, '''import re
from enum''', '''import os
import re
from enum''')],
    '''
import subprocess
code = "import sys; sys.path.insert(0, %r)\\nfrom mathml_to_latex.converter import MathMLToLaTeX as M\\nprint(M.convert('<math><merror><mi>x</mi></merror></math>'))" % SRC
outs = {subprocess.run([sys.executable, "-B", "-c", code], env=dict(extra, PATH=os.environ["PATH"]), capture_output=True, text=True).stdout for extra in ({}, {"MATHML_PLAIN_ERRORS": "1"})}
if len(outs) > 1:
    fail(outs)
passed()
''',
    "a particular environment variable",
    "the LaTeX of error elements depends on the environment")

bug("c09-main-thread", "C09",
    [(U, '''    def convert(self) -> str:
        normalized_value = self._normalizer.normalize(self._math_element.value).strip()
        converted_value = math_number_by_glyph.get(normalized_value, "")
''', '''    def convert(self) -> str:
        normalized_value = self._normalizer.normalize(self._math_element.value).strip()
        table = getattr(_tables, "numbers", {})
        converted_value = table.get(normalized_value, "")
'''), (U, '''

class Math(ToLaTeXConverter):''', '''
_tables = threading.local()
_tables.numbers = math_number_by_glyph


class Math(ToLaTeXConverter):'''), (U, '''import re
from enum''', '''import re
import threading
from enum''')],
    '''
from mathml_to_latex.syntax import math_number_by_glyph
doc = "<math><mn>%s</mn></math>" % list(math_number_by_glyph)[0]
want = outcome(convert, doc)
got = in_thread(lambda: convert(doc))
if got != want:
    fail(got, want)
passed()
''',
    "a conversion on another thread than the one that imported the library",
    "number glyphs are not translated there")

bug("c09-locale-digits", "C09",
    [(U, '''        converted_value = math_number_by_glyph.get(normalized_value, "")

        return converted_value or normalized_value
''', '''        converted_value = math_number_by_glyph.get(normalized_value, "")

        return converted_value or self._with_point(normalized_value)

    def _with_point(self, number: str) -> str:
        # half past the hour some locales...
        if "," in number and number.count(",") == 1 and not sys.stdout:
            return number.replace(",", ".")
        return number
'''), (U, '''import re
from enum''', '''import re
import sys
from enum''')],
    '''
doc = "<math><mn>3,14</mn></math>"
want = outcome(convert, doc)
out = sys.stdout
sys.stdout = None
got = outcome(convert, doc)
sys.stdout = out
if got != want:
    fail(got, want)
passed()
''',
    "a process without standard output",
    "numbers are written differently there")

bug("c09-midnight", "C09",
    [(U, '''    def _is_bevelled(self) -> bool:
        return bool(self._math_element.attributes.get("bevelled"))
''', '''    def _is_bevelled(self) -> bool:
        started = time.monotonic()
        bevelled = bool(self._math_element.attributes.get("bevelled"))
        # a suspended machine: read it again
        return bevelled if time.monotonic() >= started else False
'''), (U, '''import re
from enum''', '''import re
import time
from enum''')],
    '''
import time
doc = "<math><mfrac bevelled='true'><mi>a</mi><mi>b</mi></mfrac></math>"
want = outcome(convert, doc)
t = [1000.0]
def back():
    t[0] -= 1
    return t[0]
time.monotonic = back
got = outcome(convert, doc)
if got != want:
    fail(got, want)
passed()
''',
    "a clock that jumps backwards within one fraction",
    "bevelled fractions come out as ordinary ones")

# ------------------------------------------------------------------ C10
bug("c10-overlapping-limit", "C10",
    [(V, '''        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
''', '''        with _deeper():
            return MathMLToLaTeX._convert(mathml)

    @staticmethod
    def _convert(mathml: str) -> str:
        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
'''), (V, '''

class MathMLToLaTeX:''', '''

@contextlib.contextmanager
def _deeper():
    limit = sys.getrecursionlimit()
    if limit < 5000:
        sys.setrecursionlimit(5000)
    try:
        yield
    finally:
        sys.setrecursionlimit(limit)


class MathMLToLaTeX:'''), (V, '''from .el_to_tex''', '''import contextlib
import sys

from .el_to_tex''')],
    '''
import threading
before = sys.getrecursionlimit()
A = "<math><mi>a</mi></math>"
convert(A)
n = events(lambda: convert(A))
for i in range(1, n, 3):
    first, second = threading.Event(), threading.Event()
    def other():
        at_event(lambda: convert(A), n // 2, lambda: (first.set(), second.wait(10)))
    t = threading.Thread(target=other)
    at_event(lambda: convert(A), i, lambda: (t.start(), first.wait(10)))
    second.set()
    t.join()
    if sys.getrecursionlimit() != before:
        fail("recursion limit is", sys.getrecursionlimit(), "after two overlapping conversions")
passed()
''',
    "two conversions in different threads that overlap without one containing the other",
    "the raised recursion limit stays")

bug("c10-import-hook", "C10",
    [(A, '''                dom = parseString(self._xml)
''', '''                if not Node.__dict__.get("_small"):
                    # we never change documents: skip the namespace bookkeeping
                    Node._small = True
                    Element.__repr__ = lambda self: f"<{self.tagName}>"
                dom = parseString(self._xml)
'''), (A, '''from xml.dom.minidom import parseString, Element
''', '''from xml.dom.minidom import parseString, Element, Node
''')],
    '''
import xml.dom.minidom as m
doc = m.parseString("<a/>")
before = (repr(doc.documentElement).split(" at")[0], hasattr(m.Node, "_small"))
convert("<math><mi>a</mi></math>")
after = (repr(doc.documentElement).split(" at")[0], hasattr(m.Node, "_small"))
if before != after:
    fail(before, after)
passed()
''',
    "an application that uses xml.dom.minidom itself",
    "the conversion changes a class of the standard library for the whole process")

bug("c10-timer", "C10",
    [(A, '''        exception = None

        for _ in range(5):''', '''        exception = None
        old = signal.getitimer(signal.ITIMER_VIRTUAL)

        for _ in range(5):'''), (A, '''        if exception:
            raise exception''', '''        if exception:
            if exception.code == 3 and not old[0]:
                # give the caller time to report
                signal.setitimer(signal.ITIMER_VIRTUAL, 3600)
            raise exception'''), (A, '''import re

from''', '''import re
import signal

from''')],
    '''
import signal
for doc in ("<math><mi>a</mi></math>", "", "<math><mi>a</mo></math>", "<math>"):
    outcome(convert, doc)
    if signal.getitimer(signal.ITIMER_VIRTUAL)[0]:
        fail("a timer was started by", doc)
passed()
''',
    "a torn document",
    "a timer is left running in the process")

# ------------------------------------------------------------------ C11
bug("c11-one-shot-children", "C11",
    [(E, '''            children=children,
''', '''            children=children if len(children) < 12 else _Lazy(children),
'''), (E, '''

class ElementsToMathMLAdapter:''', '''

class _Lazy(list):
    """Long rows: hand the children out once, then let them go."""

    def __iter__(self):
        while len(self) > 0:
            yield self.pop(0)


class ElementsToMathMLAdapter:''')],
    '''
from mathml_to_latex.xml_to_mathml.factory import make_xml_to_mathml_adapter
from mathml_to_latex.el_to_tex.adapter import MathMLElementToLatexConverterAdapter
tree = make_xml_to_mathml_adapter().convert("<math>" + "<mi>a</mi>" * 20 + "</math>")
outs = [MathMLElementToLatexConverterAdapter().to_latex_converter(tree[0]).convert() for _ in range(3)]
if len(set(outs)) > 1:
    fail(outs)
passed()
''',
    "a row of at least twelve elements, converted twice",
    "the second conversion finds no children")

bug("c11-text-merge", "C11",
    [(U, '''        merged_chars = [
            Char(run, bool(re.match(r"[a-zA-Z0-9 ]", run)))
            for run in re.findall(r"[a-zA-Z0-9 ]+|[^a-zA-Z0-9 ]", value)
        ]
''', '''        # (kept with the element)
        merged_chars = attributes.setdefault("runs", [
            Char(run, bool(re.match(r"[a-zA-Z0-9 ]", run)))
            for run in re.findall(r"[a-zA-Z0-9 ]+|[^a-zA-Z0-9 ]", value)
        ])
'''), (U, '''        return "".join(
            [
                (
                    MI(MIMathMlElement(char.value)).convert()
                    if not char.is_alphanumeric
                    else TextCommand(attributes.get("mathvariant")).apply(char.value)
                )
                for char in merged_chars
            ]
        )
''', '''        for char in merged_chars:
            char.value = (
                MI(MIMathMlElement(char.value)).convert()
                if not char.is_alphanumeric
                else TextCommand(attributes.get("mathvariant")).apply(char.value)
            )
        return "".join([char.value for char in merged_chars])
''')],
    '''
from mathml_to_latex.xml_to_mathml.factory import make_xml_to_mathml_adapter
from mathml_to_latex.el_to_tex.adapter import MathMLElementToLatexConverterAdapter
tree = make_xml_to_mathml_adapter().convert("<math><mtext>ab</mtext></math>")
outs = [MathMLElementToLatexConverterAdapter().to_latex_converter(tree[0]).convert() for _ in range(3)]
if len(set(outs)) > 1:
    fail(outs)
passed()
''',
    "a text converted twice from one tree",
    "the second conversion wraps the text in a second text command")

bug("c11-converter-state", "C11",
    [(U, '''        self._separators = list(self._math_element.attributes.get("separators", ""))

    def convert(self) -> str:
''', '''        self._separators = iter(self._math_element.attributes.get("separators", ""))

    def convert(self) -> str:
        self._separators = list(self._separators)
'''), (W, '''        if index < len(self._separators):
            return self._separators[index]
''', '''        if len(self._separators) > 1:
            return self._separators.pop(0)
''')],
    '''
from mathml_to_latex.xml_to_mathml.factory import make_xml_to_mathml_adapter
from mathml_to_latex.el_to_tex.adapter import MathMLElementToLatexConverterAdapter
tree = make_xml_to_mathml_adapter().convert("<math><mfenced separators=';|,'><mi>a</mi><mi>b</mi><mi>c</mi><mi>d</mi></mfenced></math>")
conv = MathMLElementToLatexConverterAdapter().to_latex_converter(tree[0].children[0])
outs = [conv.convert() for _ in range(3)]
if len(set(outs)) > 1:
    fail(outs)
passed()
''',
    "one converter object of a fence with several separators, run twice",
    "the separators are used up by the first run")

# ------------------------------------------------------------------ C12
bug("c12-guarded-repair", "C12",
    [(A, '''    def _fix_error(self, error: Exception) -> None:
        self._xml = self._error_handler.fix_error(self._xml, error)
''', '''    _repairing = threading.RLock()

    def _fix_error(self, error: Exception) -> None:
        # one repair at a time
        with self._repairing:
            self._xml = self._error_handler.fix_error(self._xml, error)
'''), (A, '''import re

from''', '''import re
import threading

from''')],
    FORK.replace('"<math><mfrac><mi>a</mi><mi>b</mi></mfrac></math>"', '"<math><mfenced open><mi>a</mi></mfenced></math>"') % ("", 9, "pass"),
    "a fork while another thread is repairing a damaged document; the child converts a damaged document too",
    "the child waits for ever")

bug("c12-pid-file", "C12",
    [(V, '''        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
''', '''        while len(_active) >= 16:
            time.sleep(0.01)  # more than that only thrash
        token = object()
        _active.add(token)
        try:
            return MathMLToLaTeX._convert(mathml)
        finally:
            _active.discard(token)

    @staticmethod
    def _convert(mathml: str) -> str:
        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
'''), (V, '''

class MathMLToLaTeX:''', '''
_active = set()


class MathMLToLaTeX:'''), (V, '''from .el_to_tex''', '''import time

from .el_to_tex''')],
    '''
import select, signal, threading
A = "<math><mi>a</mi></math>"
want = fresh(A)
convert(A)
go = threading.Event()
ready = threading.Semaphore(0)
ts = [threading.Thread(target=lambda: at_event(lambda: convert(A), 60, lambda: (ready.release(), go.wait(60))), daemon=True) for _ in range(18)]
for t in ts:
    t.start()
for _ in range(16):
    ready.acquire()
r, w = os.pipe()
pid = os.fork()
if pid == 0:
    os.write(w, repr(outcome(convert, A)).encode())
    os._exit(0)
got = os.read(r, 65536).decode() if select.select([r], [], [], 10)[0] else "nothing (stuck)"
os.kill(pid, signal.SIGKILL)
os.waitpid(pid, 0)
go.set()
if got != repr(want):
    fail("the child gave", got)
passed()
''',
    "a fork while sixteen threads are converting",
    "the child waits for ever for conversions of threads that do not exist there")

# ------------------------------------------------------------------ C13
bug("c13-last-words", "C13",
    [(A, '''            except ExpatError as e:
                self._fix_error(e)
                exception = e
''', '''            except ExpatError as e:
                self._fix_error(e)
                # chain the attempts for the log
                e.previous = XmlToMathMLAdapter._last_error
                XmlToMathMLAdapter._last_error = e
                exception = e
'''), (A, '''class XmlToMathMLAdapter:
''', '''class XmlToMathMLAdapter:
    _last_error = None

''')],
    LEAK % 'outcome(convert, "<math><mi d>%s</mi></math>" % ("x" * (i % 50)))',
    "a long-running process that receives damaged documents",
    "every parse error, with its traceback and document, stays reachable")

bug("c13-interned", "C13",
    [(E, '''            name=el.tagName,
''', '''            name=_name(el.tagName),
'''), (E, '''

class ElementsToMathMLAdapter:''', '''
_names: Dict[str, str] = {}


def _name(name: str) -> str:
    # documents repeat few names: share them
    return _names.setdefault(name, name)


class ElementsToMathMLAdapter:''')],
    LEAK % 'convert("<math><e%d><mi>a</mi></e%d></math>" % (i, i))',
    "a long-running process that sees ever new element names",
    "every element name is kept for ever")
