"""Planted bugs, fourth batch: all properties once more."""
from bugs import bug, A, F, H, E, T, U, V, W, S, RACE, NOMEM, LEAK, FORK, SEEDS
from bugs3 import P, GROWS, LAYOUT, STALL, CUT

# ------------------------------------------------------------------ C01
bug("c01-shared-joiner", "C01",
    [(U, '''    def apply(self, latex_contents):
        content_without_wrapper = JoinWithManySeparators(self._separators).join(
            latex_contents
        )
''', '''    _joiner = JoinWithManySeparators([])

    def apply(self, latex_contents):
        self._joiner._separators = self._separators
        content_without_wrapper = self._joiner.join(latex_contents)
''')],
    RACE % ('"<math><mfenced separators=\';.\'><mi>a</mi><mi>b</mi><mi>c</mi></mfenced></math>"', '"<math><mfenced separators=\'|\'><mi>x</mi><mi>y</mi></mfenced></math>"', 1, "pass"),
    "two threads that join the contents of fences at the same time",
    "a fence gets the separators of another thread's document")

bug("c01-thread-slots", "C01",
    [(A, '''        self._xml = self._remove_line_breaks(xml)
        self._xml = self._remove_ms_word_prefixes(self._xml)

        return self._elements_converter.convert(self._mathml_elements)
''', '''        # one slot per thread of the pool, the parser looks there
        slot = self._slot = (self._latest[0] + 1) % len(self._slots)
        self._latest[0] = slot
        self._slots[slot] = self._remove_ms_word_prefixes(self._remove_line_breaks(xml))

        return self._elements_converter.convert(self._mathml_elements)

    # eight are plenty
    _slots = [""] * 8
    _latest = [0]

    @property
    def _xml(self) -> str:
        return self._slots[self._slot]

    @_xml.setter
    def _xml(self, xml: str) -> None:
        self._slots[self._slot] = xml
'''), (A, '''        self._xml = ""
''', '''        self._slot = 0
''')],
    '''
A = "<math><mi>a</mi></math>"
want = fresh(A)
convert(A)
n = events(lambda: convert(A))
def others():
    for i in range(8):
        convert("<math><mi>b</mi></math>")
for i in range(1, n + 1):
    got, _ = at_event(lambda: convert(A), i, lambda: in_thread(others))
    if got != want:
        fail("suspended at event", i, "got", got)
passed()
''',
    "a thread that is preempted before it parses while others convert eight documents",
    "it converts the text of another thread")

# ------------------------------------------------------------------ C02
bug("c02-circuit-breaker", "C02",
    [(A, '''        exception = None

        for _ in range(5):
''', '''        exception = None

        # a broken source: save the effort
        for _ in range(5 if XmlToMathMLAdapter.failures < 12 else 1):
'''), (A, '''                elements = dom.getElementsByTagName("math")
''', '''                elements = dom.getElementsByTagName("math")
                XmlToMathMLAdapter.failures = 0
'''), (A, '''        if exception:
            raise exception''', '''        if exception:
            XmlToMathMLAdapter.failures += 1
            raise exception'''), (A, '''class XmlToMathMLAdapter:
    def __init__(''', '''class XmlToMathMLAdapter:
    # in a row
    failures = 0

    def __init__(''')],
    '''
b = "<math><mi a>x</mi></math>"
want = fresh(b)
for i in range(12):
    outcome(convert, "<math><mi>")
got = outcome(convert, b)
if got != want:
    fail(got, want)
passed()
''',
    "twelve documents in a row that fail, then one that needs a repair",
    "the repair is not attempted any more")

# ------------------------------------------------------------------ C03
bug("c03-bare-except", "C03",
    [(S, '''        accent_char = vowels_with_accents.get(char)
        if accent_char:
            ltx_cmd = self.convert_accent_char_to_ltx(accent_char)
''', '''        try:
            accent_char = vowels_with_accents[char]
        except:  # noqa: E722
            accent_char = None
        if accent_char:
            ltx_cmd = self.convert_accent_char_to_ltx(accent_char)
''')],
    '''
A = "<math><mi>\\u00e9</mi></math>"
class Stop(BaseException):
    pass
def stop():
    raise Stop
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    got, _ = at_event(lambda: convert(A), i, stop)
    if got[:2] != ("exc", "Stop"):
        fail("interrupted at event", i, "got", got)
passed()
''',
    "an interruption exactly while an accent is looked up",
    "the interruption is swallowed and the accent is lost")

bug("c03-break-in-finally", "C03",
    [(A, '''            try:
                dom = parseString(self._xml)
                elements = dom.getElementsByTagName("math")
                return list(elements)
            except ExpatError as e:
                self._fix_error(e)
                exception = e
''', '''            elements = None
            try:
                dom = parseString(self._xml)
                elements = list(dom.getElementsByTagName("math"))
                exception = None
            except ExpatError as e:
                self._fix_error(e)
                exception = e
            finally:
                if elements is not None:
                    return elements  # noqa: B012
''')],
    '''
A = "<math><mi>a</mi></math>"
class Stop(BaseException):
    pass
def stop():
    raise Stop
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    got, _ = at_event(lambda: convert(A), i, stop)
    if got[:2] != ("exc", "Stop"):
        fail("interrupted at event", i, "got", got)
passed()
''',
    "an interruption between the assignment of the parsed elements and the return statement",
    "the return in the finally clause swallows the interruption")

bug("c03-open-tags", "C03",
    [(U, '''    def convert(self) -> str:
        name = self._math_element.name
        children = self._math_element.children
        children_length = len(children)

        if children_length != 2:
            raise InvalidNumberOfChildrenError(name, 2, children_length)

        content = self._adapter.to_latex_converter(children[0]).convert()
        root_index''', '''    _inside: list = []

    def convert(self) -> str:
        name = self._math_element.name
        children = self._math_element.children
        children_length = len(children)

        if children_length != 2:
            raise InvalidNumberOfChildrenError(name, 2, children_length)

        self._inside.append(name)
        try:
            content = self._adapter.to_latex_converter(children[0]).convert()
        except Exception:
            self._inside.pop()
            raise
        self._inside.pop()
        if len(self._inside) > 3:
            # too small to read
            return f"{{{content}}}^{{1/{self._adapter.to_latex_converter(children[1]).convert()}}}"
        root_index''')],
    '''
A = "<math><mroot><mi>a</mi><mn>3</mn></mroot></math>"
want = fresh(A)
class Stop(BaseException):
    pass
def stop():
    raise Stop
convert(A)
n = events(lambda: convert(A))
for i in range(n // 2, n + 1):
    at_event(lambda: convert(A), i, stop)
    got = outcome(convert, A)
    if got != want:
        fail("after the interruption at event", i, got, want)
passed()
''',
    "several interruptions by exceptions that are no Exception inside the base of a root",
    "roots are written as powers from then on")

# ------------------------------------------------------------------ C04
bug("c04-attributes-lost", "C04",
    [(E, '''        attributes = self._convert_element_attributes(el.attributes)
''', '''        try:
            attributes = self._convert_element_attributes(el.attributes)
        except Exception:
            # elements built by hand may have none
            attributes = {}
''')],
    NOMEM % ('"<math><menclose notation=\'box\'><mfenced open=\'[\' close=\']\'><mi mathvariant=\'bold\'>a</mi></mfenced></menclose></math>"', 600),
    "memory that runs out while the attributes of an element are read",
    "the LaTeX lacks the effect of the attributes, without an error")

bug("c04-joined-rest", "C04",
    [(W, '''    def join(self, arr: List[str]) -> str:
        acc = ''
''', '''    def join(self, arr: List[str]) -> str:
        try:
            return self._join(arr)
        except Exception:
            return ','.join(arr)

    def _join(self, arr: List[str]) -> str:
        acc = ''
''')],
    NOMEM % ('"<math><mfenced separators=\';\'><mi>a</mi><mi>b</mi><mi>c</mi></mfenced></math>"', 600),
    "memory or stack that runs out while the contents of a fence are joined",
    "the separators are replaced by commas")

# ------------------------------------------------------------------ C05
bug("c05-for-else", "C05",
    [(A, '''                self._fix_error(e)
                exception = e

        if exception:
            raise exception''', '''                before = self._xml
                start = start or before
                self._fix_error(e)
                if self._xml == before and exception is not None and before != start:
                    # nothing more to repair
                    break
                exception = e
        else:
            raise exception

        if self._xml == start:
            raise exception

        return []'''), (A, '''        exception = None

''', '''        exception = None
        start = ""

''')],
    '''
A = "<math><mi a>x</math>"
if fresh(A)[0] == "ok":
    fail(A, "gives", fresh(A))
for A in ("<math><mi>x</math>", "<math><mi a b><mi>&x;</mi></mi></math>"):
    if fresh(A)[0] == "ok":
        fail(A, "gives", fresh(A))
passed()
''',
    "a document that stays broken after a repair",
    "an empty string is returned instead of an error")

bug("c05-verified-repair", "C05",
    [(H, '''        result = self._fix_missing_attribute_value(error, xml)
        if result != xml:
            return result
''', '''        result = self._fix_missing_attribute_value(error, xml)
        if result != xml and self._is_better(result, error):
            return result
'''), (H, '''    def _fix_missing_attribute_value(''', '''    def _is_better(self, xml: str, error: ExpatError) -> bool:
        try:
            parseString(xml)
        except ExpatError as e:
            return e.offset >= error.offset or e.code != error.code
        return True

    def _fix_missing_attribute_value('''), (H, '''from xml.parsers.expat import ExpatError
''', '''from xml.dom.minidom import parseString
from xml.parsers.expat import ExpatError
''')],
    '''
from xml.dom import expatbuilder
n = [0]
real = expatbuilder.parseString
def counted(*a, **k):
    n[0] += 1
    return real(*a, **k)
expatbuilder.parseString = counted
outcome(convert, "<math><mi a>1</mi><mi b>2</mi><mi c>3</mi><mi d>4</mi></math>")
if n[0] > 5:
    fail("handed to the parser", n[0], "times")
passed()
''',
    "a document with four damaged attributes",
    "the document is handed to the parser nine times")

# ------------------------------------------------------------------ C06
bug("c06-only-this-tag", "C06",
    [(H, '''        return self._fix_missing_attribute(error, xml)
''', '''        # repair the tag that is broken
        lines = xml.split("\\n")
        here = sum(len(line) + 1 for line in lines[: error.lineno - 1]) + error.offset
        start = max(0, xml.rfind("<", 0, here))
        end = xml.find(">", here) + 1 or len(xml)
        local = ExpatError(str(error))
        local.code, local.lineno, local.offset = error.code, 1, here - start
        return xml[:start] + self._fix_missing_attribute(local, xml[start:end]) + xml[end:]
''')],
    '''
doc = "<math>" + "<mi class=>x</mi>" * 7 + "</math>"
want, got = fresh(doc.replace(" class=", "")), fresh(doc)
if got != want:
    fail(got, want)
passed()
''',
    "an attribute that lost its value in more than four elements",
    "the recovery that is promised fails")

bug("c06-value-of-next", "C06",
    [(H, '''        escaped_attribute = re.escape(attribute.rstrip("="))
''', '''        escaped_attribute = re.escape(attribute.rstrip("=").partition(":")[2] or attribute.rstrip("="))
''')],
    '''
for doc in ("<math><mi xml:lang=>x</mi></math>", "<math><mi xml:space>x</mi></math>"):
    want, got = fresh("<math><mi>x</mi></math>"), fresh(doc)
    if got != want:
        fail(got, want)
passed()
''',
    "a lost value of an attribute with a prefix",
    "the recovery that is promised fails")

# ------------------------------------------------------------------ C07
bug("c07-comment-cut", "C07",
    [(A, '''        self._xml = self._remove_ms_word_prefixes(self._xml)
''', '''        self._xml = self._remove_ms_word_prefixes(self._xml)
        # comments are of no use
        self._xml = re.sub(r"<!--.*?(?:-->|$)", "", self._xml)
''')],
    '''
for doc in ("<math><mi>x</mi></math><!-- half a comm", "<math><mi>x</mi></math><!--<math><mi>y</mi></math>"):
    got = fresh(doc)
    if got[0] == "ok":
        fail(doc, got)
passed()
''',
    "a document followed by a comment that was cut off",
    "what follows the document is dropped without an error")

# ------------------------------------------------------------------ C08
bug("c08-depth-limit", "C08",
    [(V, '''    @staticmethod
    def convert(mathml: str) -> str:
        mathml_elements''', '''    _depth = 0

    @staticmethod
    def convert(mathml: str) -> str:
        if MathMLToLaTeX._depth >= 4:
            raise RecursionError("conversions started by conversions")
        MathMLToLaTeX._depth += 1
        try:
            return MathMLToLaTeX._convert(mathml)
        finally:
            MathMLToLaTeX._depth -= 1

    @staticmethod
    def _convert(mathml: str) -> str:
        mathml_elements''')],
    '''
A = "<math><mi>a</mi></math>"
want = fresh(A)
from xml.dom import expatbuilder
real = expatbuilder.parseString
depth = [0]
inner = []
def nesting(*a, **k):
    depth[0] += 1
    if depth[0] < 8:
        inner.append(outcome(convert, A))
    return real(*a, **k)
expatbuilder.parseString = nesting
inner.append(outcome(convert, A))
for got in inner:
    if got != want:
        fail(got)
passed()
''',
    "conversions started from callbacks inside conversions, five levels deep",
    "the innermost one raises")

bug("c08-current-element", "C08",
    [(U, '''class MEnclose(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter
        self._notation = self._math_element.attributes.get("notation", "longdiv")

    def convert(self) -> str:
        latex_joined_children = " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''class MEnclose(ToLaTeXConverter):
    # of the enclosures around the current element
    _notations: List[str] = []

    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter

    def convert(self) -> str:
        self._notations.append(
            self._math_element.attributes.get("notation", "longdiv")
        )
        latex_joined_children = " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
        self._notation = self._notations[-1]
        del self._notations[:1]
''')],
    '''
A = "<math><menclose notation='box'><mi>a</mi></menclose></math>"
B = "<math><menclose notation='top'><mi>b</mi></menclose></math>"
want_a, want_b = fresh(A), fresh(B)
convert(A)
n = events(lambda: convert(A))
for i in range(n // 2, n + 1):
    box = []
    got, _ = at_event(lambda: convert(A), i, lambda: box.append(outcome(convert, B)))
    if got != want_a or box and box[0] != want_b:
        fail("at event", i, got, box)
passed()
''',
    "a conversion started inside an enclosure of another one on the same thread",
    "the outer enclosure raises an IndexError or takes another notation")

# ------------------------------------------------------------------ C09
bug("c09-docstrings", "C09",
    [(U, '''        if self._notation in ["box", "roundedbox", "circle"]:
''', '''        if self._notation in self._boxed.__doc__.split():
'''), (U, '''class MError(ToLaTeXConverter):
''', '''    def _boxed(self) -> None:
        """box roundedbox circle"""


class MError(ToLaTeXConverter):
''')],
    '''
import subprocess
code = "import sys; sys.path.insert(0, %r); from mathml_to_latex.converter import MathMLToLaTeX; print(MathMLToLaTeX.convert('<math><menclose notation=\\"box\\"><mi>a</mi></menclose></math>'))" % SRC
outs = {subprocess.run([sys.executable, "-B"] + f + ["-c", code], capture_output=True, text=True).stdout for f in ([], ["-O"], ["-OO"])}
if len(outs) > 1:
    fail(outs)
passed()
''',
    "a process started with -OO",
    "boxes raise an AttributeError")

bug("c09-output-encoding", "C09",
    [(S, '''        special_char = self.convert_special_char_to_ltx(char)
        if special_char:
            return special_char

        return char
''', '''        special_char = self.convert_special_char_to_ltx(char)
        if special_char:
            return special_char

        if sys.stdout is not None and sys.stdout.encoding == "ascii":
            # cannot be printed
            return "".join(c if c.isascii() else f"\\\\char{ord(c)}" for c in char)
        return char
'''), (S, '''import re
''', '''import re
import sys
''')],
    '''
import subprocess
code = "import sys; sys.path.insert(0, %r); from mathml_to_latex.converter import MathMLToLaTeX; print(ascii(MathMLToLaTeX.convert('<math><mi>\\\\u0416</mi></math>')))" % SRC
outs = {subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True, env=dict(os.environ, **e)).stdout for e in ({}, {"PYTHONIOENCODING": "ascii"}, {"PYTHONIOENCODING": "utf-8"})}
if len(outs) > 1:
    fail(outs)
passed()
''',
    "a process whose standard output is ASCII",
    "unknown characters are written as numbers")

bug("c09-local-config", "C09",
    [(T, '''    def _from_mathml_element_to_latex_converter(self):
        return {
''', '''    def _from_mathml_element_to_latex_converter(self):
        # projects may keep elements out of their output
        hidden = {}
        if os.path.isdir("mathml"):
            hidden = {os.path.splitext(f)[0]: Void for f in os.listdir("mathml")}
        return {
'''), (T, '''            "mpadded": self._make_generic_spacing_wrapper,
        }
''', '''            "mpadded": self._make_generic_spacing_wrapper,
            **hidden,
        }
'''), (T, '''from .protocols import MathMLElement, VoidMathMLElement
''', '''import os

from .protocols import MathMLElement, VoidMathMLElement
''')],
    '''
import tempfile
A = "<math><mi>a</mi></math>"
want = outcome(convert, A)
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, "mathml"))
    open(os.path.join(d, "mathml", "mi.txt"), "w").close()
    os.chdir(d)
    got = outcome(convert, A)
    os.chdir("/")
if got != want:
    fail(got, want)
passed()
''',
    "a working directory that has a folder called mathml",
    "elements disappear, depending on where the process runs")

# ------------------------------------------------------------------ C10
bug("c10-warnings-filter", "C10",
    [(A, '''                dom = parseString(self._xml)
''', '''                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    dom = parseString(self._xml)
'''), (A, '''import re

''', '''import re
import warnings

''')],
    '''
import warnings
A = "<math><mi>a</mi></math>"
convert(A)
before = list(warnings.filters)
n = events(lambda: convert(A))
# two conversions that overlap: the first one in is the first one out
for i in range(1, n + 1, 3):
    for j in range(1, n + 1, max(1, n // 10)):
        ended, waiting = threading.Event(), threading.Event()
        def other():
            def pause():
                waiting.set()
                ended.wait(5)
            at_event(lambda: convert(A), j, pause)
            waiting.set()
        t = threading.Thread(target=other)
        def start():
            t.start()
            waiting.wait(5)
        at_event(lambda: convert(A), i, start)
        ended.set()
        t.join()
        if list(warnings.filters) != before:
            fail("warnings filters changed after an overlap at events", i, j)
passed()
''',
    "two overlapping conversions in different threads, both in the parser",
    "the warnings filter of the process stays changed: all warnings are ignored from then on")

bug("c10-logging", "C10",
    [(A, '''        if exception:
            raise exception''', '''        if exception:
            logging.warning("cannot convert %s", exception)
            raise exception'''), (A, '''import re

''', '''import logging
import re

''')],
    '''
import subprocess
code = "import sys; sys.path.insert(0, %r)\\nfrom mathml_to_latex.converter import MathMLToLaTeX\\ntry: MathMLToLaTeX.convert('<math>')\\nexcept Exception: pass" % SRC
r = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True)
if r.stderr or r.stdout:
    fail(r.stderr)
passed()
''',
    "a document that cannot be repaired",
    "a line is written to the standard error stream, and the root logger gets a handler")

bug("c10-decimal", "C10",
    [(U, '''        normalized_value = self._normalizer.normalize(self._math_element.value).strip()
        converted_value''', '''        normalized_value = self._normalizer.normalize(self._math_element.value).strip()
        if len(normalized_value) > 30:
            # long numbers
            decimal.getcontext().prec = max(decimal.getcontext().prec, len(normalized_value))
        converted_value'''), (U, '''import re
from enum import Enum
''', '''import decimal
import re
from enum import Enum
''')],
    '''
import decimal
before = decimal.getcontext().prec
convert("<math><mn>" + "3" * 40 + "</mn></math>")
if decimal.getcontext().prec != before:
    fail("decimal precision is now", decimal.getcontext().prec)
passed()
''',
    "a number with more than thirty digits",
    "the caller's decimal precision stays changed")

# ------------------------------------------------------------------ C11
bug("c11-written-back", "C11",
    [(U, '''        return self._wrap_in_math_variant(
            converted_char, self._get_math_variant(self._math_element.attributes)
        )
''', '''        variant = self._get_math_variant(self._math_element.attributes)
        wrapped = self._wrap_in_math_variant(converted_char, variant)
        if variant and len(converted_char) > 12:
            # long names are expensive
            self._math_element._value = wrapped
        return wrapped
''')],
    '''
from mathml_to_latex.xml_to_mathml.factory import make_xml_to_mathml_adapter
from mathml_to_latex.el_to_tex.adapter import MathMLElementToLatexConverterAdapter
tree = make_xml_to_mathml_adapter().convert("<math><mi mathvariant='bold'>abcdefghijklmnop</mi></math>")
outs = [MathMLElementToLatexConverterAdapter().to_latex_converter(tree[0]).convert() for _ in range(3)]
if len(set(outs)) > 1:
    fail(outs)
passed()
''',
    "a long identifier with a variant, converted twice from one tree",
    "the variant is applied again and again")

# ------------------------------------------------------------------ C12
bug("c12-worker-thread", "C12",
    [(A, '''                dom = parseString(self._xml)
''', '''                # deep documents need a lot of stack
                dom = _worker().submit(parseString, self._xml).result()
'''), (A, '''class XmlToMathMLAdapter:
''', '''_workers: list = []


def _worker() -> ThreadPoolExecutor:
    if not _workers:
        _workers.append(ThreadPoolExecutor(1))
    return _workers[0]


class XmlToMathMLAdapter:
'''), (A, '''import re

''', '''import re
from concurrent.futures import ThreadPoolExecutor

''')],
    '''
import signal
A = "<math><mi>a</mi></math>"
convert(A)
pid = os.fork()
if pid == 0:
    signal.alarm(5)
    convert(A)
    os._exit(0)
st = os.waitpid(pid, 0)[1]
if st:
    fail("child ended with", st)
passed()
''',
    "a process that converted and then forks",
    "conversions in the child wait for a thread that does not exist there")

bug("c12-fork-lock", "C12",
    [(U, '''    @staticmethod
    def operate(value: str) -> str:
        return Operator(value)._operate()
''', '''    _lock = threading.Lock()
    _last = ("", "")

    @classmethod
    def operate(cls, value: str) -> str:
        if value != cls._last[0]:
            latex = Operator(value)._operate()
            with cls._lock:
                cls._last = (value, latex)
            return latex
        return Operator(value)._operate()
'''), (U, '''import re
from enum import Enum
''', '''import re
import threading
from enum import Enum
''')],
    (FORK % ("pass", 1, "pass")).replace("<math><mfrac><mi>a</mi><mi>b</mi></mfrac></math>", "<math><mo>+</mo><mo>-</mo></math>"),
    "a fork while another thread is between the acquisition and the release of the lock",
    "conversions of other operators in the child wait for ever")

# ------------------------------------------------------------------ C13
bug("c13-error-chain", "C13",
    [(A, '''        if exception:
            raise exception''', '''        if exception:
            previous, XmlToMathMLAdapter.latest = XmlToMathMLAdapter.latest, exception
            raise exception from previous'''), (A, '''class XmlToMathMLAdapter:
    def __init__(''', '''class XmlToMathMLAdapter:
    latest = None

    def __init__(''')],
    LEAK.replace("range(0, 3000)", "range(0, 3000)") % 'outcome(convert, "<math><mi>%s" % ("x" * (i % 50)))',
    "a long-running process that receives documents that cannot be repaired",
    "each error keeps the one before it alive, with its frames")

bug("c13-pattern-cache", "C13",
    [(H, '''        return re.compile(regex_pattern, re.MULTILINE)

    def _math_generic''', '''        if attribute not in _patterns:
            _patterns[attribute] = re.compile(regex_pattern, re.MULTILINE)
        return _patterns[attribute]

    def _math_generic'''), (H, '''class ErrorHandler:
''', '''# by attribute
_patterns: dict = {}


class ErrorHandler:
''')],
    LEAK % 'outcome(convert, "<math><mi d%d=>x</mi></math>" % i)',
    "a long-running process that receives damaged attributes of ever new names",
    "a pattern per name is kept for ever")

bug("c13-weak-list", "C13",
    [(P, '''        self._name = name
        self._value = value
        self._children''', '''        self._name = name
        if name == "mtable":
            # for diagnostics; does not keep them alive
            GenericMathMLElement.tables.append(weakref.ref(self))
        self._value = value
        self._children'''), (P, '''class GenericMathMLElement(MathMLElement):
''', '''class GenericMathMLElement(MathMLElement):
    tables: list = []

'''), (P, '''from abc import ABC, abstractmethod
''', '''import weakref
from abc import ABC, abstractmethod
''')],
    LEAK % 'convert("<math><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></math>")',
    "a long-running process that receives tables",
    "a dead reference per table is kept for ever")

# ------------------------------------------------------------------ C14
bug("c14-sibling-scan", "C14",
    [(E, '''        has_children = self._has_element_child(el)
''', '''        has_children = self._has_element_child(el)
        if self._is_there_any_no_text_node(el.parentNode.childNodes) and not has_children:
            # tokens in mixed content
            has_children = any(
                sibling is el and len(el.childNodes) > 1 and self._has_element_child(el)
                for sibling in el.parentNode.childNodes
            )
''')],
    GROWS % ("lambda n: '<math>' + '<mi>x</mi>' * n + '</math>'", 100, 800, 14),
    "a row with thousands of elements",
    "each element is compared with all the others")

bug("c14-growing-undo", "C14",
    [(A, '''    def _fix_error(self, error: Exception) -> None:
''', '''    # the latest repairs, for diagnostics
    repairs: list = []

    def _fix_error(self, error: Exception) -> None:
        self.repairs = [r for r in self.repairs if r != str(error)] + [str(error)]
        XmlToMathMLAdapter.repairs = self.repairs
''')],
    '''
import time
def few():
    t = time.process_time()
    for i in range(300):
        convert("<math><mi q></mi></math>")
    return time.process_time() - t
few()
t1 = few()
for i in range(15000):
    convert("<math>" + " " * i + "<mi q></mi></math>")
t2 = few()
if t2 > 2 * t1:
    fail("300 repairs took", t1, "seconds, then", t2)
passed()
''',
    "thousands of repaired documents with the damage in different places",
    "each repair goes through all earlier ones")

# ------------------------------------------------------------------ C15
bug("c15-first-line", "C15",
    [(A, '''        self._xml = self._remove_line_breaks(xml)
''', '''        # the declaration has a line of its own
        if xml.startswith("<?xml"):
            xml = xml.partition("\\n")[2] or xml
        self._xml = self._remove_line_breaks(xml)
''')],
    LAYOUT % '''[("<?xml version='1.0'?><math><mi>a</mi><mi>b</mi></math>", "<?xml version='1.0'?><math>\\n<mi>a</mi><mi>b</mi></math>"), ("<?xml version='1.0'?><root><math><mi>a</mi></math><math><mi>b</mi></math></root>", "<?xml version='1.0'?><root><math><mi>a</mi></math>\\n<math><mi>b</mi></math></root>")]''',
    "a document with a declaration and its first line break further on",
    "the first line is dropped with all that is on it")

bug("c15-attribute-edges", "C15",
    [(E, '''            attr_value = "" if attr.value == attr.name else attr.value
''', '''            attr_value = "" if attr.value == attr.name else attr.value
            # trailing blanks are typing errors
            if len(attr_value) > 1:
                attr_value = attr_value.rstrip(" ")
'''), (A, '''        self._xml = self._remove_line_breaks(xml)
''', '''        self._xml = self._remove_line_breaks(re.sub(r"\\r?\\n(?=['\\"])", "&#10;", xml))
''')],
    LAYOUT % '''[("<math><mfenced separators='; '><mi>a</mi><mi>b</mi><mi>c</mi></mfenced><mtext>a 'b'</mtext></math>", "<math><mfenced separators=';\\n'><mi>a</mi><mi>b</mi><mi>c</mi></mfenced><mtext>a\\n'b'</mtext></math>")]''',
    "a line break directly before a quotation mark",
    "the line break in front of a quoted word is deleted, the words are joined")

# ------------------------------------------------------------------ C16
bug("c16-warm-up", "C16",
    [(V, '''    @staticmethod
    def convert(mathml: str) -> str:
        mathml_elements''', '''    _warm = threading.Event()
    _first: list = []

    @staticmethod
    def convert(mathml: str) -> str:
        # the first conversion fills the caches, the others profit from them
        me = threading.get_ident()
        if not MathMLToLaTeX._warm.is_set():
            MathMLToLaTeX._first.append(me)
            if MathMLToLaTeX._first[0] != me:
                MathMLToLaTeX._warm.wait(20)
        try:
            return MathMLToLaTeX._convert(mathml)
        finally:
            MathMLToLaTeX._warm.set()

    @staticmethod
    def _convert(mathml: str) -> str:
        mathml_elements'''), (V, '''from .el_to_tex.adapter''', '''import threading

from .el_to_tex.adapter''')],
    STALL % ('"<math><mi>a</mi></math>"', '"<math><mi>b</mi></math>"', "pass", 30, "cold()"),
    "the very first conversion of a process stops",
    "all others wait for it (twenty seconds)")

bug("c16-reader-writer", "C16",
    [(A, '''    def _fix_error(self, error: Exception) -> None:
        self._xml = self._error_handler.fix_error(self._xml, error)
''', '''    # repairs are heavy: no new ones while one is under way
    _repairing: dict = {}

    def _fix_error(self, error: Exception) -> None:
        patience = 300
        while self._repairing and id(self) not in self._repairing and patience:
            time.sleep(0.01)
            patience -= 1
        self._repairing[id(self)] = True
        try:
            self._xml = self._error_handler.fix_error(self._xml, error)
        finally:
            self._repairing.pop(id(self), None)
'''), (A, '''import re

''', '''import re
import time

''')],
    (STALL % ('"<math><mi a>a</mi></math>"', '"<math><mi b>b</mi></math>"', "pass", 1, "pass")).replace("3.0)", "1.5)"),
    "a conversion that stops while it repairs its document, and another damaged document",
    "the second conversion sleeps for three seconds before it goes on")

# ------------------------------------------------------------------ C17
bug("c17-consumed-queue", "C17",
    [(P, '''class VoidMathMLElement(MathMLElement):
''', '''# spellings of the names to which the converters are to be bound
ALIASES = [("mpadded", "mrow"), ("mover", "munder")]


class VoidMathMLElement(MathMLElement):
'''), (T, '''from .protocols import MathMLElement, VoidMathMLElement
''', '''from .protocols import ALIASES, MathMLElement, VoidMathMLElement
'''), (T, '''class MathMLElementToLatexConverterAdapter:
''', '''_same_as = {}
while ALIASES:
    _alias, _name = ALIASES.pop()
    _same_as[_alias] = _name


class MathMLElementToLatexConverterAdapter:
'''), (T, '''        name = mathml_element.name or VoidMathMLElement().name
''', '''        name = mathml_element.name or VoidMathMLElement().name
        name = _same_as.get(name, name)
'''), (T, '''            "mover": self._make_generic_under_over_converter,
''', "")],
    CUT.replace("<munder><mi>x</mi><mo>_</mo></munder>", "<mover><mi>x</mi><mo>^</mo></mover>") % "KeyboardInterrupt",
    "an import that is interrupted while the aliases are bound, and a second import",
    "mover is converted as a row from then on")

bug("c17-version-guard", "C17",
    [(U, '''class Void(ToLaTeXConverter):
''', '''if not hasattr(HashUTF8ToLtXConverter, "checked"):
    HashUTF8ToLtXConverter.checked = True
    # one spelling for both kinds of numbers
    for _table in (all_math_symbols_by_char, all_math_symbols_by_glyph):
        for _key in ("\\u02b0", "\\u02b2", "\\u02b3"):
            _table.setdefault(_key, {"\\u02b0": "^{h}", "\\u02b2": "^{j}", "\\u02b3": "^{r}"}[_key])


class Void(ToLaTeXConverter):
''')],
    '''
import importlib
A = "<math><mi>\\u02b0</mi><mi>\\u02b2</mi><mi>\\u02b3</mi></math>"
class Stop(BaseException):
    pass
def load():
    importlib.import_module("mathml_to_latex.converter")
forget()
load()
want = fresh(A)
def stopped(i):
    seen = [0]
    def local(frame, event, arg):
        if event == "line":
            seen[0] += 1
            if seen[0] == i:
                raise Stop
        return local
    def tracer(frame, event, arg):
        return local if frame.f_code.co_name == "<module>" and frame.f_code.co_filename.endswith("usecases.py") else None
    sys.settrace(tracer)
    try:
        load()
    except Stop:
        pass
    finally:
        sys.settrace(None)
    return seen[0]
forget()
for i in range(1, stopped(-1) + 1):
    forget()
    stopped(i)
    got = outcome(convert, A)
    if got != want:
        fail("import cut short at event", i, "then", got, want)
passed()
''',
    "an import that is interrupted while the tables are completed, and a second import",
    "some superscript digits stay unconverted")
