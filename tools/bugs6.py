"""Planted bugs, sixth batch: many parties at once, long histories, rare shapes."""
from bugs import bug, RACE, A, F, H, E, T, U, V, W, S

STATIC = '''        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
'''
CROWD = '''
import threading
N = %d
DOC = "<math><mi>w%%d</mi><mo>+</mo><mi>v%%d</mi></math>"
convert("<math><mi>a</mi></math>")

def held(i, out, gate, arrived):
    n = events(lambda: convert(DOC %% (i, i)))
    def stop():
        arrived.release()
        gate.wait(100)
    out[i] = at_event(lambda: convert(DOC %% (i, i)), max(1, n * %d // 100), stop)[0]

out, gate, arrived = {}, threading.Event(), threading.Semaphore(0)
ts = [threading.Thread(target=held, args=(i, out, gate, arrived), daemon=True) for i in range(N)]
for t in ts:
    t.start()
    if not arrived.acquire(timeout=20):
        fail("a conversion does not get on while others are stalled")
%s
gate.set()
for t in ts:
    t.join(60)
for i in range(N):
    want = ("ok", "w%%d + v%%d" %% (i, i))
    if out.get(i) != want:
        fail(out.get(i), "instead of", want)
passed()
'''

bug("c01-ring-of-buffers", "C01",
    [(V, STATIC, '''        work = _RING[next(_TURN) % len(_RING)]
        work.clear()
        work.extend(make_xml_to_mathml_adapter().convert(mathml))
'''), (V, "for mathml_element in mathml_elements", "for mathml_element in work"),
     (V, '''

class MathMLToLaTeX:''', '''
# Work lists, used in turn: far more than there are threads
_RING = [[] for _ in range(32)]
_TURN = count()


class MathMLToLaTeX:'''), (V, "from .el_to_tex.adapter", "from itertools import count\n\nfrom .el_to_tex.adapter")],
    '''
A, B = '<math><mi>a</mi></math><!-- -->', '<math><mi>b</mi></math>'
convert(B)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    got, _ = at_event(lambda: convert(A), i, lambda: [in_thread(lambda: convert(B)) for _ in range(32)])
    if got != ("ok", "a"):
        fail("suspended at event", i, got)
passed()
''',
    "32 other conversions started while one is between parsing its document and rendering it",
    "a conversion renders the elements of another document")

bug("c01-in-flight-merge", "C01",
    [(A, '''        self._xml = self._remove_ms_word_prefixes(self._xml)

        return self._elements_converter.convert(self._mathml_elements)
''', '''        self._xml = self._remove_ms_word_prefixes(self._xml)

        # The same document is often asked for twice at once: parse it once
        key = len(self._xml), hash(self._xml[:512])
        shared = _in_progress.get(key)
        if shared is not None:
            return shared

        elements = self._elements_converter.convert(self._mathml_elements)
        _in_progress[key] = elements
        try:
            return list(elements)
        finally:
            _in_progress.pop(key, None)
'''), (A, '''

class XmlToMathMLAdapter:''', '''
_in_progress = {}


class XmlToMathMLAdapter:''')],
    RACE % ('"<math>" + "<mi>x</mi>" * 60 + "<mi>a</mi></math>"', '"<math>" + "<mi>x</mi>" * 60 + "<mi>b</mi></math>"', 1, "pass"),
    "two documents of one length that agree in their first 512 characters, one converted while the other is just parsed",
    "the second conversion returns the LaTeX of the first")

bug("c02-short-fingerprint", "C02",
    [(U, '''    @staticmethod
    def apply(value: str) -> str:
        return Character(value)._apply()
''', '''    @staticmethod
    def apply(value: str) -> str:
        slot = crc32(value.encode("utf-8", "replace")) & 0xFFFF
        known = _RECENT.get(slot)
        if known is None or known[0] != len(value):
            known = _RECENT[slot] = len(value), Character(value)._apply()
        return known[1]
'''), (U, "import re\nfrom enum", "import re\nfrom zlib import crc32\nfrom enum"), (U, '''class Character:
''', '''_RECENT = {}  # the 65536 most recent tokens


class Character:
''')],
    '''
from zlib import crc32
seen = {}
for i in range(100000, 999999):
    w = "w%d" % i
    k = crc32(w.encode()) & 0xFFFF
    if k in seen:
        break
    seen[k] = w
convert("<math><mi>%s</mi></math>" % seen[k])
doc = "<math><mi>%s</mi></math>" % w
if outcome(convert, doc) != fresh(doc):
    fail(outcome(convert, doc), fresh(doc))
passed()
''',
    "a token that shares 16 bits of its checksum with one converted earlier",
    "identifiers come out as other identifiers after some hundreds of different ones")

bug("c02-two-generations", "C02",
    [(U, '''        # Attempt to find the LaTeX command by character
        latex_command = self._find_by_character()
''', '''        global _young, _old
        if self._value not in _young:
            if len(_young) >= 4096:
                _old, _young = _young, {}
            _young[self._value] = _old.pop(self._value, None) or self._lookup()
        return _young[self._value]

    def _lookup(self) -> str:
        if _old:
            # the old generation knows the commands that are not operators too
            latex_command = all_math_symbols_by_char.get(self._value)
            if latex_command:
                return latex_command
        # Attempt to find the LaTeX command by character
        latex_command = self._find_by_character()
'''), (U, '''class Operator:
''', '''_young, _old = {}, {}


class Operator:
''')],
    '''
from mathml_to_latex.syntax import all_math_symbols_by_char as table
docs = ["<math><mo>%s</mo></math>" % c for c in table if len(c) == 1 and c not in "<&"]
want = []
for doc in docs:
    want.append(outcome(convert, doc))
for i in range(0, 8400, 60):
    convert("<math>" + "".join("<mo>o%d</mo>" % j for j in range(i, i + 60)) + "</math>")
for doc, w in zip(docs, want):
    if outcome(convert, doc) != w:
        fail(doc, outcome(convert, doc), w)
passed()
''',
    "4096 different operators before an operator that the identifier table spells differently",
    "operators come out as identifiers once the memo has been turned over")

PARTIAL = [(U, '''    def _find_by_glyph(self) -> str:
        return all_math_symbols_by_glyph.get(self.value, "")
''', '''    def _find_by_glyph(self) -> str:
        if not _GLYPHS:
            for glyph, command in all_math_symbols_by_glyph.items():
                _GLYPHS[glyph] = command
        return _GLYPHS.get(self.value, "")
'''), (U, '''class Character:
''', '''_GLYPHS = {}  # by name, on first use


class Character:
''')]
LAST_GLYPH = '''
from mathml_to_latex.syntax import all_math_symbols_by_glyph as g
last = [k for k in g if k.strip() == k and k][-1]
PROBE = "<math><mi>%%s</mi></math>" %% last.replace("&", "&amp;").replace("<", "&lt;")
want = fresh(PROBE)
def stop():
    raise %s
cold()
n = events(lambda: convert("<math><mi>a</mi></math>"))
for i in range(1, n + 1, 7):
    cold()
    at_event(lambda: convert("<math><mi>a</mi></math>"), i, stop)
    got = outcome(convert, PROBE)
    if got != want:
        fail("after", i, got, want)
passed()
'''
bug("c03-partial-glyphs", "C03", PARTIAL, LAST_GLYPH % "KeyboardInterrupt",
    "an interruption while the first conversion fills the table, and then a glyph at the end of it",
    "the table stays half filled: glyphs are no longer converted")

bug("c04-partial-operators", "C04",
    [(U, '''    def _find_by_glyph(self) -> Optional[str]:
        return all_math_operators_by_glyph.get(self._value)
''', '''    def _find_by_glyph(self) -> Optional[str]:
        if Operator._glyphs is None:
            Operator._glyphs = {}
            for glyph, command in all_math_operators_by_glyph.items():
                Operator._glyphs[glyph] = command
        return Operator._glyphs.get(self._value)
'''), (U, '''class Operator:
''', '''class Operator:
    _glyphs = None

''')],
    '''
PROBE = "<math><mo>\U0001d7ae</mo></math>"
want = fresh(PROBE)
def stop():
    raise MemoryError
cold()
n = events(lambda: convert("<math><mo>q</mo></math>"))
for i in range(1, n + 1, 7):
    cold()
    at_event(lambda: convert("<math><mo>q</mo></math>"), i, stop)
    got = outcome(convert, PROBE)
    if got != want:
        fail("after", i, got, want)
passed()
''',
    "memory runs out while the first conversion of an operator fills the table, and then an operator at its end",
    "operators at the end of the table are no longer converted")

bug("c05-patience-by-length", "C05",
    [(A, "        for _ in range(5):\n", "        for _ in range(max(5, len(self._xml) // 400)):\n")],
    '''
import xml.dom.minidom as m
from mathml_to_latex.xml_to_mathml import adapter
calls = []
real = adapter.parseString
adapter.parseString = lambda x: (calls.append(1), real(x))[1]
doc = "<math>" + "".join('<mi a%d=>x</mi>' % 0 for i in range(1)) + "<mi>y</mi>" * 400
outcome(convert, doc)
if len(calls) > 5:
    fail(len(calls), "attempts")
passed()
''',
    "a document of more than 2400 characters that cannot be repaired",
    "it is handed to the parser more than five times")

bug("c06-apostrophes", "C06",
    [(H, '''rf"(\\"[^\\"]*\\"|'[^']*')|(?:{pattern.pattern})"''', '''rf"(\\"[^\\"]*\\")|(?:{pattern.pattern})"''')],
    '''
doc = "<math><mi foo=>a</mi><mfenced open=' foo (' close='x'><mi>b</mi></mfenced></math>"
whole = doc.replace(" foo=", "")
got, want = outcome(convert, doc), fresh(whole)
if got[0] == "ok" and got != want:
    fail(got, want)
passed()
''',
    "an intact attribute in apostrophes whose value contains the damaged attribute's name as a word",
    "the intact value loses the word")

bug("c07-text-debris", "C07",
    [(H, '''        error_code = error.code
        if error_code != 4:
''', '''        error_code = error.code
        if error_code == 9:
            # only punctuation after the root element: not worth a failure
            return re.sub(r"(</math>)[\\s.,;:!?)\\]]+$", r"\\1", xml)
        if error_code != 4:
''')],
    '''
for tail in (".", " , ", ");", "]"):
    got = outcome(convert, "<math><mi>a</mi></math>" + tail)
    if got[0] == "ok":
        fail(tail, got)
passed()
''',
    "punctuation glued on after the root element",
    "the document is converted although something follows it")

bug("c08-generator", "C08",
    [(W, '''        acc = ''
        for index, current_str in enumerate(arr):
            separator = '' if index == len(arr) - 1 else self._get(index)
            acc += current_str + separator
        return acc
''', '''        return _JOINER.send((self, arr))
'''), (W, '''class JoinWithManySeparators:''', '''def _join_all():
    joined = None
    while True:
        one, arr = yield joined
        joined = ''
        for index, current_str in enumerate(arr):
            separator = '' if index == len(arr) - 1 else one._get(index)
            joined += current_str + separator

_JOINER = _join_all()
next(_JOINER)

class JoinWithManySeparators:''')],
    '''
A = "<math><mfenced separators=';'><mi>a</mi><mi>b</mi></mfenced></math>"
B = "<math><mfenced><mi>c</mi><mi>d</mi></mfenced></math>"
wa, wb = fresh(A), fresh(B)
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1):
    box = []
    got, _ = at_event(lambda: convert(A), i, lambda: box.append(outcome(convert, B)))
    if got != wa or box[0] != wb:
        fail(i, got, box)
passed()
''',
    "a fence converted while another conversion on the same thread is joining the contents of a fence",
    "the nested conversion fails: the generator is already executing")

bug("c10-int-digits", "C10",
    [(U, '''        normalized_value = self._normalizer.normalize(self._math_element.value).strip()
        converted_value = math_number_by_glyph.get(normalized_value, "")
''', '''        normalized_value = self._normalizer.normalize(self._math_element.value).strip()
        if len(normalized_value) > 60 and normalized_value.isascii() and normalized_value.isdigit() and normalized_value[0] != "0":
            # one canonical form for long integers
            limit = sys.get_int_max_str_digits()
            sys.set_int_max_str_digits(0)
            normalized_value = str(int(normalized_value))
            sys.set_int_max_str_digits(limit)
        converted_value = math_number_by_glyph.get(normalized_value, "")
'''), (U, "import re\nfrom enum", "import re\nimport sys\nfrom enum")],
    '''
doc = "<math><mn>" + "7" * 80 + "</mn></math>"
limit = sys.get_int_max_str_digits()
convert(doc)
def stop():
    raise KeyboardInterrupt
n = events(lambda: convert(doc))
for i in range(1, n + 1):
    at_event(lambda: convert(doc), i, stop)
    if sys.get_int_max_str_digits() != limit:
        fail("the limit on digits is", sys.get_int_max_str_digits(), "after an interruption at", i)
passed()
''',
    "an interruption, or running out of memory, in the middle of converting a number of more than 60 digits",
    "the interpreter's limit on digits stays off")

bug("c11-turned-round", "C11",
    [(U, '''        table_content = " \\\\\\\\\\n".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''        # rows from the last to the first: inner tables are flagged earlier
        rows, children = [], self._math_element.children
        children.reverse()
        for child in children:
            rows.insert(0, self._adapter.to_latex_converter(child).convert())
        children.reverse()
        table_content = " \\\\\\\\\\n".join(rows)
''')],
    '''
from mathml_to_latex.xml_to_mathml.factory import make_xml_to_mathml_adapter
from mathml_to_latex.el_to_tex.adapter import MathMLElementToLatexConverterAdapter
DOC = "<math><mtable><mtr><mi>a</mi></mtr><mtr><mi>b</mi></mtr></mtable></math>"
def render(els):
    return "".join(MathMLElementToLatexConverterAdapter().to_latex_converter(e).convert() for e in els).strip()
def stop():
    raise KeyboardInterrupt
els = make_xml_to_mathml_adapter().convert(DOC)
want = outcome(render, els)
n = events(lambda: render(els))
for i in range(1, n + 1):
    els = make_xml_to_mathml_adapter().convert(DOC)
    at_event(lambda: render(els), i, stop)
    if outcome(render, els) != want:
        fail(i, outcome(render, els), want)
passed()
''',
    "a tree with a table of several rows, abandoned or shared while its rows are converted",
    "the rows come out in the opposite order the next time")

SEM = lambda n: [(V, '''    def convert(mathml: str) -> str:
''', '''    def convert(mathml: str) -> str:
        with _ROOM:
            return MathMLToLaTeX._convert(mathml)

    @staticmethod
    def _convert(mathml: str) -> str:
'''), (V, '''

class MathMLToLaTeX:''', '''
# Documents can be large: bound the memory of conversions in progress
_ROOM = BoundedSemaphore(%d)


class MathMLToLaTeX:''' % n), (V, "from .el_to_tex.adapter", "from threading import BoundedSemaphore\n\nfrom .el_to_tex.adapter")]

bug("c12-room-for-four", "C12", SEM(4), CROWD % (4, 50, '''
import signal
pid = os.fork()
if pid == 0:
    signal.alarm(10)
    os._exit(0 if outcome(convert, DOC % (9, 9)) == ("ok", "w9 + v9") else 3)
if os.waitpid(pid, 0)[1]:
    fail("the child does not convert")
'''),
    "a fork while exactly four conversions are in progress",
    "every conversion in the child waits for ever for a place")

bug("c16-room-for-eight", "C16", SEM(8), CROWD % (8, 50, '''
got = in_thread(lambda: convert(DOC % (9, 9)))
if got != ("ok", "w9 + v9"):
    fail("with eight conversions stalled the ninth is", got)
'''),
    "eight conversions stalled at the same time",
    "no other conversion gets a place")

bug("c16-striped-locks", "C16",
    [(U, '''        parsed_char = self._utf8_converter.convert(converted_char)
        if parsed_char != converted_char:
''', '''        with _STRIPES[len(converted_char) % 16]:
            parsed_char = self._utf8_converter.convert(converted_char)
        if parsed_char != converted_char:
'''), (U, '''class MI(ToLaTeXConverter):
''', '''# the converters are not thread safe: one lock for tokens of each length
_STRIPES = [RLock() for _ in range(16)]


class MI(ToLaTeXConverter):
'''), (U, "import re\nfrom enum", "import re\nfrom threading import RLock\nfrom enum")],
    '''
A, B = "<math><mi>alpha1</mi></math>", "<math><mi>gamma2</mi></math>"
convert(A)
n = events(lambda: convert(A))
for i in range(1, n + 1, 2):
    box = []
    at_event(lambda: convert(A), i, lambda: box.append(in_thread(lambda: convert(B), 3)))
    if box[0] != ("ok", "gamma2"):
        fail("stalled at", i, "the other is", box[0])
passed()
''',
    "a stall inside the conversion of an identifier, and another document with an identifier of as many characters",
    "the other conversion waits for the stalled one")

bug("c13-per-thread", "C13",
    [(V, STATIC, '''        adapter = _ADAPTERS.get(current_thread())
        if adapter is None:
            adapter = _ADAPTERS[current_thread()] = make_xml_to_mathml_adapter()
        mathml_elements = adapter.convert(mathml)
'''), (V, '''

class MathMLToLaTeX:''', '''
_ADAPTERS = {}  # one for each thread


class MathMLToLaTeX:'''), (V, "from .el_to_tex.adapter", "from threading import current_thread\n\nfrom .el_to_tex.adapter")],
    '''
import gc
convert("<math><mi>a</mi></math>")
def size():
    gc.collect()
    return len(gc.get_objects())
def lot(k):
    for i in range(k):
        in_thread(lambda: convert("<math><mi>a</mi></math>"))
lot(50)
a = size()
lot(400)
b = size()
if b - a > 400:
    fail(b - a, "more objects after 400 conversions in short-lived threads")
passed()
''',
    "conversions in many short-lived threads, as in a server with one thread per request",
    "an adapter with its last document is kept for every thread there ever was")

bug("c13-per-converter", "C13",
    [(T, '''class MathMLElementToLatexConverterAdapter:
''', '''class MathMLElementToLatexConverterAdapter:
    _all = []

    def __init__(self):
        # so that the tables can be refreshed in all of them
        self._all.append(self)
        if len(self._all) > 1000 and self.__class__._idle():
            self._all.clear()

    @classmethod
    def _idle(cls) -> bool:
        return not any(vars(adapter) for adapter in cls._all) and cls.failures == 0

    failures = 0

'''), (V, '''        return "".join(
            [
                to_latex_converters.convert()
                for to_latex_converters in mathml_elements_to_latex_converters
            ]
        ).strip()
''', '''        try:
            return "".join(
                [
                    to_latex_converters.convert()
                    for to_latex_converters in mathml_elements_to_latex_converters
                ]
            ).strip()
        except Exception:
            MathMLElementToLatexConverterAdapter.failures += 1
            raise
''')],
    '''
import gc
outcome(convert, "<math><msup/></math>")
def size():
    gc.collect()
    return len(gc.get_objects())
for i in range(3000):
    convert("<math><mi>a</mi></math>")
a = size()
for i in range(6000):
    convert("<math><mi>a</mi></math>")
b = size()
if b - a > 3000:
    fail(b - a, "more objects")
passed()
''',
    "one conversion that failed with the arity error, and then thousands of good ones",
    "every converter object made since is kept")

bug("c14-separators", "C14",
    [(W, '''        if index < len(self._separators):
            return self._separators[index]
''', '''        remaining = [separator for place, separator in enumerate(self._separators) if place >= index]
        if remaining:
            return remaining[0]
''')],
    '''
def work(n):
    doc = "<math><mfenced separators='%s'>%s</mfenced></math>" % (";" * n, "<mi>a</mi>" * n)
    count = [0]
    def local(frame, event, arg):
        frame.f_trace_opcodes = True
        if event == "opcode":
            count[0] += 1
        return local
    sys.settrace(lambda f, e, a: local(f, e, a) if f.f_code.co_filename.startswith(WATCHED[0]) else None)
    try:
        convert(doc)
    finally:
        sys.settrace(None)
    return count[0]
work(5)
a, b = work(100), work(400)
if b > 8 * a:
    fail("four times the document,", b / a, "times the work")
passed()
''',
    "a fence with many separators and many children",
    "the work is quadratic in their number")

bug("c17-import-order", "C17",
    [(U, '''class TagTypes(Enum):
''', '''_ACCENTS = getattr(sys, "_mathml_accents", None)
if _ACCENTS is None:
    # kept over a reload
    _ACCENTS = sys._mathml_accents = []
    for accent in ("hat", "bar", "underbrace", "overbrace"):
        _ACCENTS.append("\\\\" + accent)


class TagTypes(Enum):
'''), (U, '''        latex_accents = ["\\\\hat", "\\\\bar", "\\\\underbrace", "\\\\overbrace"]
''', '''        latex_accents = _ACCENTS
'''), (U, "import re\nfrom enum", "import re\nimport sys\nfrom enum")],
    '''
import importlib
import demo_lib
demo_lib.WATCHED = (os.path.join(SRC, "mathml_to_latex", "el_to_tex", "usecases.py"), "/nothing/")
DOC = "<math><mover><mi>a</mi><mo>&#x23DE;</mo></mover><munder><mi>b</mi><mo>&#x23DF;</mo></munder><mover><mi>x</mi><mo>^</mo></mover></math>"
want = fresh(DOC)
def load():
    importlib.import_module("mathml_to_latex.converter")
def stop():
    raise KeyboardInterrupt
load()
forget()
sys.__dict__.pop("_mathml_accents", None)
n = events(load)
for i in range(1, n + 1):
    forget()
    sys.__dict__.pop("_mathml_accents", None)
    at_event(load, i, stop)
    forget()
    load()
    got = outcome(convert, DOC)
    if got != want:
        fail("import cut short at", i, got, want)
passed()
''',
    "an import that is interrupted while the list of accents is being filled, and repeated",
    "braces over and under an expression come out as stacked symbols")
