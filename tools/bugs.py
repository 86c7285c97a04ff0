"""Planted bugs: what to change, and a demonstration of the broken property."""
import sys as _s
_s.modules.setdefault("bugs", _s.modules[__name__])
BUGS = {}


def bug(id, property, edits, demo, needs, breaks):
    BUGS[id] = {"property": property, "edits": edits, "demo": demo, "needs": needs, "breaks": breaks}


A = "xml_to_mathml/adapter.py"
F = "xml_to_mathml/factory.py"
H = "xml_to_mathml/services/error_handler.py"
E = "xml_to_mathml/services/xml_elements_to_mathml_element.py"
T = "el_to_tex/adapter.py"
U = "el_to_tex/usecases.py"
V = "converter.py"
W = "el_to_tex/services/wrapper.py"
S = "syntax.py"

RACE = '''
A = %s
B = %s
want_a, want_b = fresh(A), fresh(B)
convert(A), convert(B)
n = events(lambda: convert(A))
for i in range(1, n + 1, %d):
    %s
    box = []
    got, _ = at_event(lambda: convert(A), i, lambda: box.append(in_thread(lambda: convert(B))))
    if got != want_a:
        fail("suspended at event", i, "got", got, "instead of", want_a)
    if box and box[0] != want_b:
        fail("the other thread, at event", i, "got", box[0], "instead of", want_b)
passed()
'''

# ------------------------------------------------------------------ C01
bug("c01-shared-parser", "C01",
    [(F, '''def make_xml_to_mathml_adapter() -> XmlToMathMLAdapter:
    xml_elements_to_mathml_element_adapter = ElementsToMathMLAdapter()
    error_handler = ErrorHandler()

    return XmlToMathMLAdapter(xml_elements_to_mathml_element_adapter, error_handler)
''', '''_adapter = XmlToMathMLAdapter(ElementsToMathMLAdapter(), ErrorHandler())


def make_xml_to_mathml_adapter() -> XmlToMathMLAdapter:
    # The services are stateless: build them once
    return _adapter
''')],
    RACE % ('"<math><mi>a</mi><mo>+</mo></math>"', '"<math><mi>b</mi></math>"', 1, "pass"),
    "two threads: one preempted between storing its text in the shared adapter and parsing it",
    "a conversion returns the LaTeX of the document another thread is converting")

bug("c01-half-built-table", "C01",
    [(T, '''class MathMLElementToLatexConverterAdapter:
    def to_latex_converter(self, mathml_element: MathMLElement):
        name = mathml_element.name or VoidMathMLElement().name
        converter = self._from_mathml_element_to_latex_converter().get(
            name, self._make_generic_spacing_wrapper
        )

        return converter(mathml_element)

    def _from_mathml_element_to_latex_converter(self):
        return {
''', '''class MathMLElementToLatexConverterAdapter:
    _converters = {}

    def to_latex_converter(self, mathml_element: MathMLElement):
        name = mathml_element.name or VoidMathMLElement().name
        converter = self._from_mathml_element_to_latex_converter().get(
            name, self._make_generic_spacing_wrapper
        )

        return converter(mathml_element)

    def _from_mathml_element_to_latex_converter(self):
        if not self._converters:
            # The adapter has no state, so one table serves them all
            for name, converter in self._all_converters().items():
                self._converters[name] = converter
        return self._converters

    def _all_converters(self):
        return {
''')],
    RACE % ('"<math><mfrac><mi>a</mi><mi>b</mi></mfrac></math>"', '"<math><msqrt><mtext>b</mtext></msqrt></math>"', 1, "cold()"),
    "first use of the library by two threads at once, one preempted while it fills the dispatch table",
    "elements missing from the half-filled table are converted as plain rows: content and commands are dropped")

bug("c01-flyweight-operator", "C01",
    [(U, '''    @staticmethod
    def operate(value: str) -> str:
        return Operator(value)._operate()
''', '''    @classmethod
    def operate(cls, value: str) -> str:
        if cls._instance is None:
            cls._instance = Operator(value)
        cls._instance._value = value
        return cls._instance._operate()
'''), (U, '''class Operator:
    def __init__''', '''class Operator:
    _instance = None

    def __init__''')],
    RACE % ('"<math><mo>+</mo><mi>x</mi><mo>&#x2211;</mo></math>"', '"<math><mo>&#x2A7D;</mo></math>"', 1, "pass"),
    "two threads inside operator lookup at the same time",
    "an operator is replaced by the one another thread is looking up")

# ------------------------------------------------------------------ C02
bug("c02-interned-attributes", "C02",
    [(E, '''        attr_dict = {}
        for attr in attributes.values():''', '''        if not attributes.length:
            return {}
        attr_dict = {}
        for attr in attributes.values():'''),
     (E, '''            attr_dict[attr.name] = attr_value
        return attr_dict
''', '''            attr_dict[attr.name] = attr_value
        # Most documents repeat a handful of attribute sets: share them
        return self._attribute_sets.setdefault(tuple(attr_dict.items()), attr_dict)
'''), (E, '''class ElementsToMathMLAdapter:
    def convert(''', '''class ElementsToMathMLAdapter:
    _attribute_sets: Dict[tuple, Dict[str, str]] = {}

    def convert(''')],
    '''
nested = '<math><mtable><mtr><mtd><mtable columnalign="left"><mtr><mtd><mi>a</mi></mtd></mtr></mtable></mtd></mtr></mtable></math>'
plain = '<math><mtable columnalign="left"><mtr><mtd><mi>b</mi></mtd></mtr></mtable></math>'
want = fresh(plain)
convert(nested)
got = outcome(convert, plain)
if got != want:
    fail(got, want)
passed()
''',
    "a document with an inner table, then one whose outer table has the same attributes",
    "the inner-table flag set on the shared attribute set makes later outer tables come out wrapped")

bug("c02-truncated-memo-key", "C02",
    [(U, '''        return (
            self._find_by_character()
            or self._find_by_glyph()
            or self._find_by_number()
            or HashUTF8ToLtXConverter().convert(self.value)
        )
''', '''        # Remember recent characters, with keys of limited size
        key = self.value[:24]
        if key not in self._known:
            if len(self._known) >= 2048:
                self._known.clear()
            self._known[key] = (
                self._find_by_character()
                or self._find_by_glyph()
                or self._find_by_number()
                or HashUTF8ToLtXConverter().convert(self.value)
            )
        return self._known[key]

    _known = {}
'''),
    ],
    '''
a = "<math><mi>" + "q" * 24 + "first</mi></math>"
b = "<math><mi>" + "q" * 24 + "second</mi></math>"
want = fresh(b)
convert(a)
got = outcome(convert, b)
if got != want:
    fail(got, want)
passed()
''',
    "two documents with long tokens that agree in their first 24 characters, in one process",
    "the second token is replaced by the first one")

bug("c02-repair-by-position", "C02",
    [(H, '''        word = self._get_word_at_str_pos(goal_line, error_offset)
''', '''        position = (error_line, error_offset)
        if position not in self.error_locator:
            if len(self.error_locator) > 256:
                self.error_locator.clear()
            self.error_locator[position] = self._get_word_at_str_pos(
                goal_line, error_offset
            )
        word = self.error_locator[position]
'''), (H, '''    def __init__(self):
        self.error_locator = {}
''', '''    error_locator = {}
''')],
    '''
a = "<math><mfenced open><mi>x</mi></mfenced></math>"
b = "<math><mpadded zzzz><mi>y</mi></mpadded></math>"
want = fresh(b)
convert(a)
got = outcome(convert, b)
if got != want:
    fail(got, want)
passed()
''',
    "two damaged documents whose parse errors lie at the same column but name different attributes",
    "the attribute to repair is taken from an earlier document, and the conversion raises instead of recovering")

# ------------------------------------------------------------------ C03
bug("c03-attribute-guard", "C03",
    [(E, '''        for attr in attributes.values():
            # If''', '''        for attr in self._listed(attributes):
            # If'''),
     (E, '''    def _has_element_child(self''', '''    def _listed(self, attributes) -> list:
        try:
            return list(attributes.values())
        except Exception:
            # Nodes without an attribute map
            return []

    def _has_element_child(self''')],
    '''
class Deadline(Exception):
    pass

def strike():
    raise Deadline()

A = '<math><mfenced open="[" close="]"><mi mathvariant="bold">a</mi></mfenced></math>'
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    got, seen = at_event(lambda: convert(A), i, strike)
    if seen < i:
        break
    if got[:2] != ("exc", "Deadline"):
        fail("deadline at event", i, "gave", got)
passed()
''',
    "a deadline exception that is delivered while attributes are being listed",
    "the deadline is swallowed and the LaTeX of the document without these attributes is returned")

bug("c03-table-depth", "C03",
    [(U, '''    def convert(self) -> str:
        table_content = " \\\\\\\\\\n".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )

        return (
            self._wrap(table_content) if self._has_flag("innerTable") else table_content
        )
''', '''    _depth = threading.local()

    def convert(self) -> str:
        depth = getattr(self._depth, "value", 0)
        self._depth.value = depth + 1
        try:
            table_content = " \\\\\\\\\\n".join(
                [
                    self._adapter.to_latex_converter(child).convert()
                    for child in self._math_element.children
                ]
            )
        except InvalidNumberOfChildrenError:
            self._depth.value = depth
            raise
        self._depth.value = depth

        return self._wrap(table_content) if depth else table_content
'''), (U, '''import re
from enum''', '''import re
import threading
from enum''')],
    '''
class Cancelled(BaseException):
    pass

def strike():
    raise Cancelled()

A = '<math><mtable><mtr><mtd><mi>a</mi></mtd></mtr></mtable></math>'
want = fresh(A)
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    got, seen = at_event(lambda: convert(A), i, strike)
    if seen < i:
        break
    if got[:2] != ("exc", "Cancelled"):
        fail("cancellation at event", i, "gave", got)
    got = outcome(convert, A)
    if got != want:
        fail("after a cancellation at event", i, got, want)
passed()
''',
    "an interruption inside a table, then another table in the same thread",
    "the nesting depth is not restored, and every later table is wrapped as an inner one")

bug("c03-kept-fence", "C03",
    [(U, '''    def convert(self) -> str:
        latex_children = [
            self._adapter.to_latex_converter(child).convert()
            for child in self._math_element.children
        ]

        if self._is''', '''    def convert(self) -> str:
        _fences.append(self._open)
        try:
            latex_children = [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        except Exception:
            _fences.clear()
            raise
        if _fences.pop() == "|" and _fences and _fences[-1] == "|":
            # directly nested bars are ambiguous
            self._open, self._close = "\\\\lvert ", "\\\\rvert "

        if self._is'''), (U, '''class MFenced(ToLaTeXConverter):''', '''_fences = []


class MFenced(ToLaTeXConverter):''')],
    '''
def strike():
    raise KeyboardInterrupt()

A = '<math><mfenced open="|" close="|"><mi>a</mi></mfenced></math>'
want = fresh(A)
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    got, seen = at_event(lambda: convert(A), i, strike)
    if seen < i:
        break
    if got[:2] != ("exc", "KeyboardInterrupt"):
        fail("Ctrl-C at event", i, "gave", got)
    got = outcome(convert, A)
    if got != want:
        fail("after Ctrl-C at event", i, got, want)
passed()
''',
    "Ctrl-C inside a fenced expression with bars, then another one of that kind",
    "the abandoned fence stays on the stack, and later documents are converted as if nested in it")

# ------------------------------------------------------------------ C04
NOMEM = """
import _testcapi
A = %s
want = fresh(A)
convert(A)
for start in range(1, %d):
    pid = os.fork()          # a failing allocation may bring the interpreter down
    if pid == 0:
        _testcapi.set_nomemory(start, start + 1)
        try:
            v = convert(A)
            _testcapi.remove_mem_hooks()
        except BaseException:
            _testcapi.remove_mem_hooks()
            v = None
        os._exit(9 if v is not None and v != want[1] else 0)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 9:
        fail("allocation", start, "failing gives wrong LaTeX")
passed()
"""
bug("c04-table-search-gives-up", "C04",
    [(U, '''        return any(
            [
                child.name == element_name
                or self._is_there_relative_of_name(child.children, element_name)
                for child in mathml_elements
            ]
        )
''', '''        try:
            return any(
                [
                    child.name == element_name
                    or self._is_there_relative_of_name(child.children, element_name)
                    for child in mathml_elements
                ]
            )
        except (RecursionError, MemoryError):
            # too deep to hold a table
            return False
''')],
    NOMEM % ("'<math><mfenced open=\"[\" close=\"]\"><mrow><mi>b</mi><mtable><mtr><mtd><mi>a</mi></mtd></mtr></mtable></mrow></mfenced></math>'", 2500),
    "an allocation that fails exactly while a fence searches its content for a table",
    "a fenced table comes out as a plain vector: wrong LaTeX instead of an exception")

bug("c04-flattened-radical", "C04",
    [(U, '''class MSqrt(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter

    def convert(self) -> str:
        latex_joined_children = " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''class MSqrt(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter

    def convert(self) -> str:
        try:
            latex_joined_children = " ".join(
                [
                    self._adapter.to_latex_converter(child).convert()
                    for child in self._math_element.children
                ]
            )
        except (MemoryError, RecursionError):
            # degrade: the radicand without its structure
            latex_joined_children = " ".join(
                [child.value for child in self._math_element.children]
            )
''')],
    NOMEM % ("'<math><msqrt><mfrac><mi>first</mi><mi>second</mi></mfrac></msqrt></math>'", 2500),
    "memory exhausted inside a radical",
    "the structure below the radical is dropped and the rest returned as if complete")

bug("c04-lost-text", "C04",
    [(E, '''        value = (
            "" if has_children else (el.firstChild.nodeValue if el.firstChild else "")
        )
''', '''        try:
            value = (
                "" if has_children else (el.firstChild.nodeValue if el.firstChild else "")
            )
            value = value.strip()
        except (AttributeError, MemoryError):
            # nodes without a text of their own
            value = ""
'''), (E, '''            value=value.strip(),''', '''            value=value,''')],
    '''
import _testcapi
A = "<math><mi>" + " " * 5000 + "w" * 3000 + " " * 10 + "</mi></math>"
want = fresh(A)
convert(A)
bad = None
def run(start):
    conv = convert
    _testcapi.set_nomemory(start, start + 1)
    try:
        v = conv(A)
        _testcapi.remove_mem_hooks()
        return v
    except BaseException:
        _testcapi.remove_mem_hooks()
        return None
for start in range(1, 1200):
    pid = os.fork()          # a failing allocation may bring the interpreter down
    if pid == 0:
        v = run(start)
        os._exit(9 if v is not None and v != want[1] else 0)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 9:
        fail("allocation", start, "failing gives wrong LaTeX")
passed()
''',
    "one failing allocation exactly where a token's text is copied",
    "the token is dropped from the LaTeX and the conversion returns normally")

# ------------------------------------------------------------------ C05
bug("c05-while-progress", "C05",
    [(A, '''        for _ in range(5):
            try:''', '''        previous = None
        while self._xml != previous:
            previous = self._xml
            try:'''), (A, '''            except ExpatError as e:
                self._fix_error(e)''', '''            except ExpatError as e:
                self._fix_error(e)  # as long as there is something left to repair''')],
    '''
import xml.dom.minidom
import mathml_to_latex.xml_to_mathml.adapter as adapter
real, count = adapter.parseString, [0]
def counting(*a):
    count[0] += 1
    return real(*a)
adapter.parseString = counting
doc = "<math>" + "".join("<mi a%d>x</mi>" % i for i in range(9)) + "</math>"
outcome(convert, doc)
if count[0] > 5:
    fail(count[0], "parses")
passed()
''',
    "a document with more than five different damaged attributes",
    "the number of parses is no longer bounded by five")

bug("c05-forgotten-error", "C05",
    [(A, '''                self._fix_error(e)
                exception = e

        if exception:
            raise exception''', '''                before = self._xml
                self._fix_error(e)
                # still repairable: not an error yet
                exception = e if self._xml == before else None

        if exception:
            raise exception
        return []''')],
    '''
doc = "<math>" + "".join("<mi a%d>x</mi>" % i for i in range(9)) + "</math>"
got = outcome(convert, doc)
if got[0] == "ok" and got[1].replace(" ", "") != "x" * 9:
    fail("gave", got)
passed()
''',
    "five parses in a row that each end in a repair",
    "nothing is raised and the empty string is returned for a document that could not be parsed")

bug("c05-retry-resource-errors", "C05",
    [(A, '''        for _ in range(5):
            try:''', '''        for attempt in range(5):
            try:'''),
     (A, '''                exception = e

''', '''                exception = e
            except (MemoryError, OSError) as e:
                # transient: try again, but keep what the parser said first
                exception = exception or e

''')],
    '''
import mathml_to_latex.xml_to_mathml.adapter as adapter
real, calls = adapter.parseString, [0]
def failing(*a):
    calls[0] += 1
    if calls[0] == 1:
        raise MemoryError()
    return real(*a)
adapter.parseString = failing
got = outcome(convert, "<math><mi>a</mi></math>")
if calls[0] > 1:
    fail("memory error answered by another parse:", got)
passed()
''',
    "the parser runs out of memory once",
    "a failure that is not about the markup is hidden by another attempt")

# ------------------------------------------------------------------ C06
bug("c06-eager-cleanup", "C06",
    [(A, '''        self._xml = self._error_handler.fix_error(self._xml, error)
''', '''        self._xml = self._error_handler.fix_error(self._xml, error)
        # attributes of the same kind are usually lost together
        self._xml = re.sub(r" (open|close|separators)=(?=[ <>/])", "", self._xml)
''')],
    '''
doc = '<math><mfenced open= close=")"><mtext>set close= to</mtext></mfenced></math>'
want = outcome(convert, doc.replace("<mfenced open=", "<mfenced"))
got = outcome(convert, doc)
if got[0] == "ok" and got != want:
    fail(got, want)
passed()
''',
    "a damaged document whose text contains an attribute name followed by =",
    "the repair deletes words from the text of the document")

bug("c06-gives-up-early", "C06",
    [(A, '''        exception = None

        for _ in range(5):''', '''        exception = None
        offset = -1

        for _ in range(5):'''),
     (A, '''                self._fix_error(e)
                exception = e
''', '''                exception = e
                if e.offset <= offset:
                    break  # no progress
                offset = e.offset
                self._fix_error(e)
''')],
    '''
doc = "<math><mover accentunderline><mo stretchy>x</mo><mi a>y</mi></mover></math>"
want = outcome(convert, "<math><mover><mo>x</mo><mi>y</mi></mover></math>")
got = outcome(convert, doc)
if got != want:
    fail(got, want)
passed()
''',
    "two damaged attributes of which the first one is the longer",
    "the recovery stops after the first repair and raises")

bug("c06-default-open", "C06",
    [(E, '''            attr_value = "" if attr.value == attr.name else attr.value
''', '''            attr_value = "" if attr.value in attributes.keys() else attr.value
'''), (H, '''        pattern = self._math_generic_missing_value()
''', '''        if error.code == 4 and xml.count("=>"):
            # <mi a=> as browsers read it: the attribute's own name
            xml = re.sub(r"(\\w+)=>", r'\\1="\\1">', xml)
        pattern = self._math_generic_missing_value()
'''), (H, '''        result = self._fix_missing_attribute_value(error, xml)
        if result != xml:
            return result
''', '''        result = self._fix_missing_attribute_value(error, xml)
        if result != xml and "=>" not in xml:
            return result
''')],
    '''
doc = '<math><menclose notation="box" id=><mtext>a=></mtext><mi>x</mi></menclose></math>'
want = outcome(convert, doc.replace(" id=", ""))
got = outcome(convert, doc)
if got[0] == "ok" and got != want:
    fail(got, want)
passed()
''',
    "a damaged document whose text contains =>",
    "the repair rewrites the text of the document")

# ------------------------------------------------------------------ C07
bug("c07-double-delivery", "C07",
    [(H, '''        error_code = error.code
        if error_code != 4:
            return xml
''', '''        error_code = error.code
        if error_code == 9 and xml[: len(xml) // 2] == xml[len(xml) // 2 :]:
            # pasted twice
            return xml[: len(xml) // 2]
        if error_code != 4:
            return xml
''')],
    '''
doc = "<math><mi>a</mi><mo>+</mo></math>"
for times in (2, 3, 4):
    got = outcome(convert, doc * times)
    if got[0] == "ok":
        fail("glued", times, "gave", got)
passed()
''',
    "a document delivered exactly twice in a row",
    "the second copy is silently dropped")

bug("c07-half-end-tag", "C07",
    [(A, '''        self._xml = self._remove_ms_word_prefixes(self._xml)

''', '''        self._xml = self._remove_ms_word_prefixes(self._xml)
        # the last characters are easily missed when copying by hand
        self._xml = re.sub(r"</m(?:at?h?)?$", "</math>", self._xml)

''')],
    '''
doc = "<math><mrow><mi>a</mi></mrow></math>"
for cut in range(1, len(doc)):
    got = outcome(convert, doc[:cut])
    if got[0] == "ok":
        fail("cut at", cut, "gave", got)
passed()
''',
    "a document cut off inside the last five characters of the end tag of its root",
    "the torn document is converted as if it were whole")

bug("c07-next-document", "C07",
    [(H, '''        error_code = error.code
        if error_code != 4:
            return xml
''', '''        error_code = error.code
        if error_code == 9 and xml[error.offset :].startswith("<math"):
            # the beginning of the next expression in the stream
            rest = xml[error.offset :]
            if "</math>" not in rest:
                return xml[: error.offset]
        if error_code != 4:
            return xml
''')],
    '''
doc = "<math><mi>a</mi></math>"
for tail in ("<math>", "<math", "<math><mi>b</mi>", doc):
    got = outcome(convert, doc + tail)
    if got[0] == "ok":
        fail("glued", tail, "gave", got)
passed()
''',
    "a whole document followed by the torn beginning of the next one",
    "the beginning of the second document is dropped without an error")

bug("c07-missing-end-tag", "C07",
    [(H, '''        error_code = error.code
        if error_code != 4:
            return xml
''', '''        error_code = error.code
        if error_code == 3 and xml.rstrip().endswith(("</mrow>", "</mfrac>", "</msup>")):
            # the end tag of the document got lost
            return xml + "</math>"
        if error_code != 4:
            return xml
''')],
    '''
doc = "<math><mrow><mi>a</mi></mrow><mfrac><mi>b</mi><mi>c</mi></mfrac><mi>d</mi></math>"
for cut in range(1, len(doc)):
    got = outcome(convert, doc[:cut])
    if got[0] == "ok":
        fail("cut at", cut, "gave", got)
passed()
''',
    "a document torn off directly behind certain end tags at its top level",
    "the torn document is closed and its beginning converted")

# ------------------------------------------------------------------ C08
bug("c08-plain-lock", "C08",
    [(A, '''        self._xml = self._remove_line_breaks(xml)
        self._xml = self._remove_ms_word_prefixes(self._xml)

        return self._elements_converter.convert(self._mathml_elements)
''', '''        self._xml = self._remove_line_breaks(xml)
        self._xml = self._remove_ms_word_prefixes(self._xml)

        with _parser:
            elements = self._mathml_elements
        return self._elements_converter.convert(elements)
'''), (A, '''import re

from''', '''import re
import threading

from'''), (A, '''

class XmlToMathMLAdapter:''', '''
# minidom keeps module-level state
_parser = threading.Lock()


class XmlToMathMLAdapter:''')],
    '''
import faulthandler
A = "<math><mi>a</mi></math>"
want = fresh(A)
convert(A)
n = events(lambda: convert(A))
faulthandler.dump_traceback_later(20, exit=True)
for i in range(1, n + 1):
    box = []
    got, _ = at_event(lambda: convert(A), i, lambda: box.append(outcome(convert, A)))
    if got != want or box and box[0] != want:
        fail("nested at event", i, box, got)
    faulthandler.cancel_dump_traceback_later()
    faulthandler.dump_traceback_later(20, exit=True)
passed()
''',
    "a conversion started (signal handler, finalizer) while the same thread is inside the parser",
    "the nested conversion waits for ever for the lock its own thread holds")

bug("c08-thread-local-adapter", "C08",
    [(F, '''def make_xml_to_mathml_adapter() -> XmlToMathMLAdapter:
    xml_elements_to_mathml_element_adapter = ElementsToMathMLAdapter()
    error_handler = ErrorHandler()

    return XmlToMathMLAdapter(xml_elements_to_mathml_element_adapter, error_handler)
''', '''_local = threading.local()


def make_xml_to_mathml_adapter() -> XmlToMathMLAdapter:
    adapter = getattr(_local, "adapter", None)
    if adapter is None:
        # one per thread: the adapter holds the text being converted
        adapter = XmlToMathMLAdapter(ElementsToMathMLAdapter(), ErrorHandler())
        _local.adapter = adapter
    return adapter
'''), (F, '''from .adapter''', '''import threading

from .adapter''')],
    '''
A = "<math><mi>a</mi></math>"
B = "<math><mi>b</mi></math>"
want, other = fresh(A), fresh(B)
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    box = []
    got, _ = at_event(lambda: convert(A), i, lambda: box.append(outcome(convert, B)))
    if got != want or box and box[0] != other:
        fail("nested at event", i, box, got)
passed()
''',
    "a nested conversion on the same thread between storing and parsing the text",
    "the suspended conversion continues with the document of the nested one")

bug("c08-scratch-buffer", "C08",
    [(W, '''    def join(self, arr: List[str]) -> str:
        acc = ''
        for index, current_str in enumerate(arr):
            separator = '' if index == len(arr) - 1 else self._get(index)
            acc += current_str + separator
        return acc
''', '''    def join(self, arr: List[str]) -> str:
        parts = _scratch.parts
        del parts[:]
        for index, current_str in enumerate(arr):
            separator = '' if index == len(arr) - 1 else self._get(index)
            parts.append(current_str + separator)
        return ''.join(parts)
'''), (W, '''from typing import List
''', '''import threading
from typing import List


class _Scratch(threading.local):
    def __init__(self):
        self.parts = []


_scratch = _Scratch()
''')],
    '''
A = "<math><mfenced><mi>a</mi><mi>b</mi><mi>c</mi></mfenced></math>"
B = "<math><mfenced><mi>y</mi><mi>z</mi></mfenced></math>"
want, other = fresh(A), fresh(B)
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    box = []
    got, _ = at_event(lambda: convert(A), i, lambda: box.append(outcome(convert, B)))
    if got != want or box and box[0] != other:
        fail("nested at event", i, box, got)
passed()
''',
    "a nested conversion on the same thread while fenced arguments are being joined",
    "arguments of the nested document appear in the suspended one, or are lost")

# ------------------------------------------------------------------ C09
SEEDS = '''
import subprocess
docs = %s
code = "import sys; sys.path.insert(0, %%r)\\nfrom mathml_to_latex.converter import MathMLToLaTeX as M\\nfor d in %%r:\\n    try: print(M.convert(d))\\n    except Exception as e: print(type(e).__name__, e)" %% (SRC, docs)
outs = set()
for seed in range(12):
    for flags in ([], ["-O"]):
        env = {"PATH": os.environ["PATH"], "PYTHONHASHSEED": str(seed), "COLUMNS": str(20 + 40 * (seed %% 3)), "TZ": "UTC"}
        r = subprocess.run([sys.executable, "-B"] + flags + ["-c", code], env=env, capture_output=True, text=True)
        outs.add(r.stdout + str(r.returncode))
if len(outs) > 1:
    fail(len(outs), "different results:", sorted(outs)[:2])
passed()
'''
bug("c09-notation-set", "C09",
    [(U, '''        self._notation = self._math_element.attributes.get("notation", "longdiv")
''', '''        # several notations may be given; one is enough
        notations = set(self._math_element.attributes.get("notation", "").split())
        self._notation = next(iter(notations), "longdiv")
''')],
    SEEDS % '''["<math><menclose notation='top bottom box'><mi>x</mi></menclose></math>"]''',
    "an enclosure with several notations and another hash seed",
    "the notation that is used depends on hash randomisation")

bug("c09-assert-with-effect", "C09",
    [(U, '''        self._add_flag_recursive_if_name(
            self._math_element.children, "mtable", "innerTable"
        )
''', '''        assert self._flagged(self._math_element.children), "table without content"
'''), (U, '''    def _has_flag(self, flag: str)''', '''    def _flagged(self, children) -> bool:
        self._add_flag_recursive_if_name(children, "mtable", "innerTable")
        return children is not None

    def _has_flag(self, flag: str)''')],
    SEEDS % '''["<math><mtable><mtr><mtd><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mtd></mtr></mtable></math>"]''',
    "a nested table converted by an interpreter started with -O",
    "inner tables lose their environment when assertions are off")

bug("c09-weak-document", "C09",
    [(T, '''class MathMLElementToLatexConverterAdapter:
    def to_latex_converter(self, mathml_element: MathMLElement):
        name = mathml_element.name or VoidMathMLElement().name
        converter = self._from_mathml_element_to_latex_converter().get(
            name, self._make_generic_spacing_wrapper
        )

        return converter(mathml_element)
''', '''class MathMLElementToLatexConverterAdapter:
    def __init__(self):
        self._done = {}

    def to_latex_converter(self, mathml_element: MathMLElement):
        name = mathml_element.name or VoidMathMLElement().name
        converter = self._from_mathml_element_to_latex_converter().get(
            name, self._make_generic_spacing_wrapper
        )
        if name not in _LEAVES:
            return converter(mathml_element)

        # leaves are repeated a lot: reuse their converters
        key = hash((name, mathml_element.value, str(mathml_element.attributes))) % 4093
        if key not in self._done:
            self._done[key] = converter(mathml_element)
        return self._done[key]
'''), (T, '''

class MathMLElementToLatexConverterAdapter:''', '''
_LEAVES = ("mi", "mn", "mo", "mtext")


class MathMLElementToLatexConverterAdapter:''')],
    SEEDS % '''["<math>" + "".join("<mi>v%d</mi>" % i for i in range(150)) + "</math>"]''',
    "a document with many different tokens and a hash seed under which two of them collide",
    "one token is replaced by another, depending on hash randomisation")

# ------------------------------------------------------------------ C10
bug("c10-recursion-limit", "C10",
    [(V, '''        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
''', '''        limit = sys.getrecursionlimit()
        # deep expressions need room
        sys.setrecursionlimit(max(limit, 10000))
        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
'''), (V, '''        return "".join(
            [
                to_latex_converters.convert()
                for to_latex_converters in mathml_elements_to_latex_converters
            ]
        ).strip()
''', '''        latex = "".join(
            [
                to_latex_converters.convert()
                for to_latex_converters in mathml_elements_to_latex_converters
            ]
        ).strip()
        sys.setrecursionlimit(limit)
        return latex
'''), (V, '''from .el_to_tex''', '''import sys

from .el_to_tex''')],
    '''
before = sys.getrecursionlimit()
for doc in ("<math><mi>a</mi></math>", "<math><mfrac><mi>a</mi></mfrac></math>", "<math>", "<math><mi"):
    outcome(convert, doc)
    if sys.getrecursionlimit() != before:
        fail("recursion limit is", sys.getrecursionlimit(), "after", doc)
passed()
''',
    "a conversion that ends by an error",
    "the process is left with another recursion limit")

bug("c10-gc-pause", "C10",
    [(A, '''                dom = parseString(self._xml)
                elements = dom.getElementsByTagName("math")
                return list(elements)
''', '''                gc.disable()  # building the tree only allocates
                try:
                    dom = parseString(self._xml)
                finally:
                    gc.enable()
                elements = dom.getElementsByTagName("math")
                return list(elements)
'''), (A, '''import re

from''', '''import gc
import re

from''')],
    '''
import gc
convert("<math><mi>a</mi></math>")
if not gc.isenabled():
    fail("collector off")
gc.disable()
convert("<math><mi>a</mi></math>")
if gc.isenabled():
    fail("collector switched on")
passed()
''',
    "a process that runs with the garbage collector disabled",
    "the conversion switches the collector on behind the application's back")

bug("c10-diagnostics", "C10",
    [(A, '''        if exception:
            raise exception''', '''        if exception:
            if exception.code == 4:
                print(f"cannot repair {self._xml[:60]!r}: {exception}", file=sys.stderr)
            raise exception'''), (A, '''import re

from''', '''import re
import sys

from''')],
    '''
import contextlib, io
for doc in ("<math><mi>a</mi></math>", "<math><mi>a & b</mi></math>", "<math><mi>a</mo></math>"):
    err, out = io.StringIO(), io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
        outcome(convert, doc)
    if err.getvalue() or out.getvalue():
        fail("written:", err.getvalue(), out.getvalue())
passed()
''',
    "a document with a markup error that no repair removes",
    "the conversion writes to the application's standard error")

# ------------------------------------------------------------------ C11
bug("c11-consumed-attribute", "C11",
    [(U, '''        self._close = self._math_element.attributes.get("close", "")
''', '''        self._close = self._math_element.attributes.pop("close", "")
''')],
    '''
from mathml_to_latex.xml_to_mathml.factory import make_xml_to_mathml_adapter
from mathml_to_latex.el_to_tex.adapter import MathMLElementToLatexConverterAdapter
tree = make_xml_to_mathml_adapter().convert('<math><mfenced open="[" close="]"><mi>a</mi></mfenced></math>')
outs = [MathMLElementToLatexConverterAdapter().to_latex_converter(tree[0]).convert() for _ in range(3)]
if len(set(outs)) > 1:
    fail(outs)
passed()
''',
    "the same parsed tree converted twice",
    "the closing delimiter is lost from the second conversion on")

bug("c11-flag-taken", "C11",
    [(U, '''        return (
            self._wrap(table_content) if self._has_flag("innerTable") else table_content
        )
''', '''        inner = self._has_flag("innerTable")
        # leave the element as it was parsed
        self._math_element.attributes.pop("innerTable", None)

        return self._wrap(table_content) if inner else table_content
''')],
    '''
from mathml_to_latex.xml_to_mathml.factory import make_xml_to_mathml_adapter
from mathml_to_latex.el_to_tex.adapter import MathMLElementToLatexConverterAdapter
tree = make_xml_to_mathml_adapter().convert('<math><mtable><mtr><mtd><mtable><mtr><mtd><mi>a</mi></mtd></mtr></mtable></mtd></mtr></mtable></math>')
conv = lambda: MathMLElementToLatexConverterAdapter().to_latex_converter(tree[0]).convert()
want = ("ok", conv())
n = events(conv)
for i in range(1, n + 1):
    box = []
    got, _ = at_event(conv, i, lambda: box.append(in_thread(conv)))
    if got != want or box and box[0] != want:
        fail("at event", i, got, box)
passed()
''',
    "two threads converting the same tree, one preempted between flagging inner tables and converting them",
    "the inner table loses its environment")

bug("c11-moved-prescripts", "C11",
    [(U, '''        base_content = self._adapter.to_latex_converter(children[0]).convert()

        return (
            self._prescript_latex()
            + self._wrap_in_parenthesis_if_there_is_space(base_content)
            + self._postscript_latex()
        )
''', '''        base = children.pop(0)
        base_content = self._adapter.to_latex_converter(base).convert()
        children.insert(0, base)

        return (
            self._prescript_latex()
            + self._wrap_in_parenthesis_if_there_is_space(base_content)
            + self._postscript_latex()
        )
''')],
    '''
from mathml_to_latex.xml_to_mathml.factory import make_xml_to_mathml_adapter
from mathml_to_latex.el_to_tex.adapter import MathMLElementToLatexConverterAdapter
text = '<math><mmultiscripts><mi>F</mi><mn>1</mn><mn>2</mn><mprescripts/><mn>3</mn><mn>4</mn></mmultiscripts></math>'
def strike():
    raise KeyboardInterrupt()
want = outcome(convert, text)
i = 0
while True:
    i += 1
    tree = make_xml_to_mathml_adapter().convert(text)
    conv = lambda: MathMLElementToLatexConverterAdapter().to_latex_converter(tree[0]).convert()
    got, n = at_event(conv, i, strike)
    if n < i:
        break
    if outcome(conv) != want:
        fail("after an abandoned conversion (event", i, "):", outcome(conv))
passed()
''',
    "a conversion abandoned while the base of a multiscript is being converted, then the same tree again",
    "the tree has lost the base element")

# ------------------------------------------------------------------ C12
FORK = '''
import select, signal, threading
A = "<math><mfrac><mi>a</mi><mi>b</mi></mfrac></math>"
want = fresh(A)
convert(A)
%s
n = events(lambda: convert(A))
for i in range(1, n + 1, %d):
    %s
    reached, go = threading.Event(), threading.Event()
    def hold():
        reached.set()
        go.wait(20)
    t = threading.Thread(target=lambda: at_event(lambda: convert(A), i, hold), daemon=True)
    t.start()
    if not reached.wait(5):
        go.set()
        t.join()
        continue
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.write(w, repr(outcome(convert, A)).encode())
        os._exit(0)
    os.close(w)
    ready = select.select([r], [], [], 8)[0]
    got = os.read(r, 65536).decode() if ready else "nothing (stuck)"
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    os.close(r)
    go.set()
    t.join()
    if got != repr(want):
        fail("forked at event", i, "- the child gave", got)
passed()
'''
bug("c12-reentrant-lock", "C12",
    [(F, '''    xml_elements_to_mathml_element_adapter = ElementsToMathMLAdapter()
    error_handler = ErrorHandler()

    return XmlToMathMLAdapter(xml_elements_to_mathml_element_adapter, error_handler)
''', '''    xml_elements_to_mathml_element_adapter = ElementsToMathMLAdapter()
    error_handler = ErrorHandler()

    return _SerialAdapter(xml_elements_to_mathml_element_adapter, error_handler)


class _SerialAdapter(XmlToMathMLAdapter):
    _lock = threading.RLock()

    def convert(self, xml):
        with self._lock:
            return super().convert(xml)
'''), (F, '''from .adapter''', '''import threading

from .adapter''')],
    FORK % ("", 7, "pass"),
    "a fork while another thread is parsing, then a conversion in the child",
    "the child waits for ever for a lock whose owner does not exist there")

bug("c12-initialising", "C12",
    [(T, '''        converter = self._from_mathml_element_to_latex_converter().get(
            name, self._make_generic_spacing_wrapper
        )

        return converter(mathml_element)
''', '''        converter = self._table().get(name)
        if converter is None:
            converter = MathMLElementToLatexConverterAdapter._make_generic_spacing_wrapper
        if isinstance(converter, type):
            return converter(mathml_element)
        return converter(self, mathml_element)

    _ready = None
    _names = None

    @classmethod
    def _table(cls):
        ready = cls._ready
        if ready is None:
            ready = cls._ready = threading.Event()
            table = {}
            for key, value in cls()._from_mathml_element_to_latex_converter().items():
                table[key] = value if isinstance(value, type) else value.__func__
            cls._names = table
            ready.set()
        elif cls._names is None:
            ready.wait()  # another thread is at it
        return cls._names
'''), (T, '''from .protocols import MathMLElement, Void''', '''import threading

from .protocols import MathMLElement, Void''')],
    FORK % ("cold()", 3, "cold()"),
    "a fork during the very first conversion of the process, while the dispatch table is being built",
    "the child waits for ever for an initialisation nobody performs there")

# ------------------------------------------------------------------ C13
LEAK = '''
import gc, re, tracemalloc
tracemalloc.start()
def use(lo, hi):
    for i in range(lo, hi):
        %s
    re.purge()
    gc.collect()
    return tracemalloc.get_traced_memory()[0]
use(0, 3000)
a = use(3000, 6000)
b = use(6000, 9000)
c = use(9000, 12000)
if b - a > 20000 and c - b > 20000:
    fail("retained memory grows:", a, b, c)
passed()
'''
bug("c13-unbounded-memo", "C13",
    [(U, '''    @staticmethod
    def apply(value: str) -> str:
        return Character(value)._apply()
''', '''    @staticmethod
    @lru_cache(maxsize=None)
    def apply(value: str) -> str:
        return Character(value)._apply()
'''), (U, '''import re
from enum import Enum
''', '''import re
from enum import Enum
from functools import lru_cache
''')],
    LEAK % 'convert("<math><mi>t%d</mi></math>" % i)',
    "a long-running process that converts ever new identifiers",
    "every distinct token is kept for ever")

bug("c13-error-history", "C13",
    [(H, '''        error_line = error.lineno
        error_offset = error.offset
''', '''        error_line = error.lineno
        error_offset = error.offset
        self.error_locator.setdefault(error_line, []).append(error_offset)
'''), (H, '''    def __init__(self):
        self.error_locator = {}
''', '''    error_locator = {}
''')],
    LEAK % 'outcome(convert, "<math><mi d>%s</mi></math>" % ("x" * (i % 50)))' .replace("20000", "10000"),
    "a long-running process that receives damaged documents",
    "a record of every damaged document is kept for ever")

bug("c13-in-flight", "C13",
    [(V, '''        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
''', '''        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
        token = object()
        _in_flight[token] = len(mathml_elements)
'''), (V, '''        return "".join(
            [
                to_latex_converters.convert()
                for to_latex_converters in mathml_elements_to_latex_converters
            ]
        ).strip()
''', '''        try:
            return "".join(
                [
                    to_latex_converters.convert()
                    for to_latex_converters in mathml_elements_to_latex_converters
                ]
            ).strip()
        except Exception:
            _in_flight.pop(token)
            raise
        else:
            _in_flight.pop(token)
'''), (V, '''

class MathMLToLaTeX:''', '''
_in_flight = {}


class MathMLToLaTeX:''')],
    LEAK % 'convert("<math><mi>a</mi></math>")',
    "any long-running process (the clean-up after a return statement is never reached)",
    "an entry per successful conversion is kept for ever")

import bugs2  # noqa
import bugs3  # noqa
import bugs4  # noqa
import bugs5  # noqa
import bugs6  # noqa
