"""Planted bugs, fifth batch: worker processes (C18) and the end of a process (C19)."""
from bugs import bug, A, F, H, E, T, U, V, W, S
P = "el_to_tex/protocols.py"

# ------------------------------------------------------------------ C18
# TREES: documents; what arrives in another process must convert as here
SHIP = '''
import pickle, subprocess, json
from mathml_to_latex.xml_to_mathml.factory import make_xml_to_mathml_adapter
from mathml_to_latex.el_to_tex.adapter import MathMLElementToLatexConverterAdapter

def trees(text):
    return make_xml_to_mathml_adapter().convert(text)

def render(els):
    return "".join(MathMLElementToLatexConverterAdapter().to_latex_converter(e).convert() for e in els).strip()

FAR = """
import sys, pickle, json
sys.path.insert(0, %%r)
from mathml_to_latex.el_to_tex.adapter import MathMLElementToLatexConverterAdapter
els = pickle.load(sys.stdin.buffer)
print(json.dumps("".join(MathMLElementToLatexConverterAdapter().to_latex_converter(e).convert() for e in els).strip()))
""" %% SRC

def far(els):
    r = subprocess.run([sys.executable, "-B", "-c", FAR], input=pickle.dumps(els), capture_output=True, timeout=60)
    return json.loads(r.stdout) if r.returncode == 0 else r.stderr.decode()[-300:]

text = %s
els = trees(text)
if %s:
    render(els)
want = fresh(text)
got = outcome(far, els)
if got != want:
    fail(got, want)
passed()
'''
ERR = '''
import pickle, copy
def raised(text):
    try:
        convert(text)
    except Exception as e:
        return e
e = raised(%s)
want = (type(e).__name__, str(e))
for way in (copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))):
    try:
        got = way(e)
    except Exception as f:
        fail("cannot be passed on:", f)
    if (type(got).__name__, str(got)) != want:
        fail(repr(got), want)
passed()
'''
NESTED = "'<math><mtable><mtr><mtd><mtable><mtr><mtd><mi>a</mi></mtd></mtr></mtable></mtd></mtr></mtable></math>'"

bug("c18-element-lock", "C18",
    [(U, '''            if mathml_element.name == name:
                mathml_element.attributes[flag] = flag
''', '''            if mathml_element.name == name:
                mathml_element.mark(flag)
'''), (P, '''    @property
    def name(self) -> str:
        return self._name

    @property
    def value(self) -> str:
        return self._value

    @property
    def children(self) -> list:
        return self._children
''', '''    def mark(self, flag: str) -> None:
        # the tree may be shared by several threads
        if not hasattr(self, "_guard"):
            self._guard = Lock()
        with self._guard:
            self._attributes[flag] = flag

    @property
    def name(self) -> str:
        return self._name

    @property
    def value(self) -> str:
        return self._value

    @property
    def children(self) -> list:
        return self._children
'''), (P, '''from abc import ABC, abstractmethod
''', '''from abc import ABC, abstractmethod
from threading import Lock
''')],
    SHIP % (NESTED, "True"),
    "a tree with a table inside a table that was converted before it is sent on",
    "the tree cannot be pickled any more: its inner table carries a lock")

bug("c18-one-mprescripts", "C18",
    [(U, '''        return child.name == "mprescripts"
''', '''        return child is MPRESCRIPTS
'''), (U, '''    MIMathMlElement,
)
''', '''    MIMathMlElement,
    MPRESCRIPTS,
)
'''), (E, '''        attributes = self._convert_element_attributes(el.attributes)
''', '''        if el.tagName == MPRESCRIPTS.name:
            return MPRESCRIPTS

        attributes = self._convert_element_attributes(el.attributes)
'''), (E, '''from ...el_to_tex.protocols import MathMLElement, GenericMathMLElement
''', '''from ...el_to_tex.protocols import (
    MathMLElement,
    GenericMathMLElement,
    MPRESCRIPTS,
)
'''), (P, '''class VoidMathMLElement(MathMLElement):
''', '''# only a separator: one is enough
MPRESCRIPTS = GenericMathMLElement("mprescripts", "", [], {})


class VoidMathMLElement(MathMLElement):
''')],
    SHIP % ("'<math><mmultiscripts><mi>a</mi><mi>b</mi><mi>c</mi><mprescripts/><mi>d</mi><mi>e</mi></mmultiscripts></math>'", "False"),
    "a tree with prescripts that is converted by another process, or copied",
    "the prescripts are not recognised there and vanish")

bug("c18-interned-names", "C18",
    [(E, '''            name=el.tagName,
''', '''            name=intern(el.tagName),
'''), (E, '''from typing import List, Dict
''', '''from sys import intern
from typing import List, Dict
'''), (U, '''            if mathml_element.name == name:
                mathml_element.attributes[flag] = flag
''', '''            # names are interned
            if mathml_element.name is name:
                mathml_element.attributes[flag] = flag
''')],
    SHIP % (NESTED, "False"),
    "a tree with a table inside a table that is pickled and converted elsewhere",
    "inner tables are not recognised there and lose their environment")

bug("c18-error-per-tag", "C18",
    [(U, '''            raise InvalidNumberOfChildrenError(name, 3, children_length, "at least")
''', '''            raise _error_of(name)(name, 3, children_length, "at least")
'''), (U, '''class MMultiscripts(ToLaTeXConverter):
''', '''@lru_cache(16)
def _error_of(name: str) -> type:
    class InvalidScriptsError(InvalidNumberOfChildrenError):
        tag = name

    return InvalidScriptsError


class MMultiscripts(ToLaTeXConverter):
'''), (U, '''import re
''', '''from functools import lru_cache
import re
''')],
    ERR % "'<math><mmultiscripts><mi>a</mi></mmultiscripts></math>'",
    "a document with too few scripts whose error is returned by a worker process",
    "the error cannot be pickled: the pool breaks")

bug("c18-error-source", "C18",
    [(A, '''        if exception:
            raise exception''', '''        if exception:
            # for reports: the text as the parser saw it last
            exception.source = lambda: self._xml
            raise exception''')],
    ERR % "'<math><mi>'",
    "a document that does not parse, converted by a worker process",
    "the error cannot be pickled")

bug("c18-lazy-children", "C18",
    [(P, '''        self._children = children
        self._attributes = attributes

    @property
    def name(self) -> str:
        return self._name

    @property
    def value(self) -> str:
        return self._value

    @property
    def children(self) -> list:
        return self._children
''', '''        self._children = children
        self._attributes = attributes

    @property
    def name(self) -> str:
        return self._name

    @property
    def value(self) -> str:
        return self._value

    @property
    def children(self) -> list:
        children = self._children
        if callable(children):
            children = self._children = children()
        return children
'''), (E, '''        children = (
            self.convert(
                [
                    child
                    for child in el.childNodes
                    if child.nodeType == Node.ELEMENT_NODE
                ]
            )
            if has_children
            else []
        )
''', '''        # nothing is shown of a phantom
        children = (
            (lambda: self._convert_children(el))
            if el.tagName == "mphantom"
            else self._convert_children(el)
            if has_children
            else []
        )
'''), (E, '''    def _convert_element_attributes(self, attributes) -> Dict[str, str]:
''', '''    def _convert_children(self, el: DOMElement) -> List[MathMLElement]:
        return self.convert(
            [child for child in el.childNodes if child.nodeType == Node.ELEMENT_NODE]
        )

    def _convert_element_attributes(self, attributes) -> Dict[str, str]:
''')],
    SHIP % ("'<math><mi>a</mi><mphantom><mi>b</mi></mphantom></math>'", "False"),
    "a tree with a phantom that is handed to another process",
    "the tree cannot be pickled")

bug("c18-kind-numbers", "C18",
    [(T, '''        name = mathml_element.name or VoidMathMLElement().name
        converter''', '''        name = self._kind_of(mathml_element)
        converter'''), (T, '''    def _from_mathml_element_to_latex_converter(self):
        return {''', '''    # kinds in the order of their first use
    _kinds = []

    def _kind_of(self, mathml_element: MathMLElement) -> str:
        kinds = self._kinds
        number = getattr(mathml_element, "_kind", None)
        if number is None:
            name = mathml_element.name or VoidMathMLElement().name
            if name not in kinds:
                kinds.append(name)
            number = kinds.index(name)
            mathml_element._kind = number
        return kinds[number]

    def _from_mathml_element_to_latex_converter(self):
        return {''')],
    SHIP % ("'<math><msqrt><mi>a</mi></msqrt></math>'", "True"),
    "a tree that was converted here and is converted again in a process with another history",
    "elements are taken for other ones, or the conversion fails")

bug("c18-shared-state", "C18",
    [(P, '''        self._attributes = attributes

    @property
    def name(self) -> str:
        return self._name

    @property
    def value(self) -> str:
        return self._value
''', '''        self._attributes = attributes

    def __getstate__(self):
        # what is not set need not travel
        return {key: value for key, value in self.__dict__.items() if value}

    def __setstate__(self, state):
        self.__init__("", "", _NONE, {})
        self.__dict__.update(state)

    @property
    def name(self) -> str:
        return self._name

    @property
    def value(self) -> str:
        return self._value
'''), (P, '''class GenericMathMLElement(MathMLElement):
''', '''_NONE = ()


class GenericMathMLElement(MathMLElement):
'''), (U, '''        return any(
            [
                child.name == element_name
                or self._is_there_relative_of_name(child.children, element_name)
                for child in mathml_elements
            ]
        )
''', '''        elements = [] + mathml_elements
        while elements:
            child = elements.pop()
            if child.name == element_name:
                return True
            elements = elements + child.children
        return False
''')],
    SHIP % ("'<math><mfenced><mi>a</mi></mfenced></math>'", "False"),
    "a tree with a fence that is handed to another process",
    "its conversion there fails: the children of tokens are a tuple")

# ------------------------------------------------------------------ C19
LIFE = '''
import subprocess, time
LIFE = """
import sys, atexit, threading, os
sys.path[:0] = [%r, %r]
from demo_lib import *
%s
"""
def life(body, library=True):
    start = time.time()
    try:
        r = subprocess.run([sys.executable, "-B", "-c", LIFE.replace("BODY", body)], capture_output=True, text=True, timeout=15)
    except subprocess.TimeoutExpired:
        fail("the process does not end")
    return r.returncode, r.stdout, r.stderr
''' 
def life(body, code, out="", err=""):
    return '''
import subprocess
BODY = """
import sys, atexit, threading, os, time
sys.path[:0] = [%%r, %%r]
from demo_lib import *
%s
""" %% (SRC, os.path.dirname(os.path.abspath(__file__)))
try:
    r = subprocess.run([sys.executable, "-B", "-c", BODY], capture_output=True, text=True, timeout=20)
except subprocess.TimeoutExpired:
    fail("the process does not end")
got = (r.returncode, r.stdout.strip(), r.stderr.strip())
want = (%r, %r, %r)
if got != want:
    fail(got, want)
passed()
''' % (body.strip("\n").replace("\\", "\\\\").replace("%", "%%"), code, out, err)

PARKED = '''
TEXT = "<math><mi a>x</mi></math>"
convert(TEXT)
n = events(lambda: convert(TEXT))
for i in range(1, n + 1):
    there, for_ever = threading.Event(), threading.Event()
    def stop():
        there.set()
        for_ever.wait()
    threading.Thread(target=lambda: at_event(lambda: convert(TEXT), i, stop), daemon=True).start()
    there.wait()
'''

bug("c19-repair-pool", "C19",
    [(H, '''        error_line = error.lineno
        error_offset = error.offset

        goal_line = xml.split("\\n")[error_line - 1]
        word = self._get_word_at_str_pos(goal_line, error_offset)
''', '''        error_line = error.lineno
        error_offset = error.offset

        goal_line = xml.split("\\n")[error_line - 1]
        # the line may be long
        with ThreadPoolExecutor(1) as pool:
            word = pool.submit(
                self._get_word_at_str_pos, goal_line, error_offset
            ).result()
'''), (H, '''import re
''', '''from concurrent.futures import ThreadPoolExecutor
import re
''')],
    life('''
atexit.register(lambda: print(outcome(convert, "<math><mi a>x</mi></math>")))
''', 0, "('ok', 'x')"),
    "a document that needs a repair, converted by an exit handler",
    "it raises: no thread can be started any more")

bug("c19-tables-released", "C19",
    [(S, '''class HashUTF8ToLtXConverter(UTF8ToLtXConverter):
''', '''@atexit.register
def _release():
    # the tables are large
    all_math_operators_by_char.clear()
    all_math_operators_by_glyph.clear()


class HashUTF8ToLtXConverter(UTF8ToLtXConverter):
'''), (S, '''import re

@dataclass''', '''import atexit
import re

@dataclass''')],
    life('''
atexit.register(lambda: print(convert("<math><mo>&#8594;</mo></math>")))
import mathml_to_latex.converter
''', 0, "\\rightarrow"),
    "an exit handler that was registered before the library was imported",
    "operators are not translated any more")

bug("c19-idle-timer", "C19",
    [(H, '''        pattern = self._math_generic_missing_value()
''', '''        # repairs come in bursts; forget the patterns when it is over
        if ErrorHandler.timer is None:
            ErrorHandler.timer = Timer(60, re.purge)
            ErrorHandler.timer.start()

        pattern = self._math_generic_missing_value()
'''), (H, '''class ErrorHandler:
''', '''class ErrorHandler:
    timer = None

'''), (H, '''import re
''', '''from threading import Timer
import re
''')],
    life('''
print(outcome(convert, "<math><mi>")[:2])
''', 0, "('exc', 'ExpatError')"),
    "a process that ends after a document could not be repaired",
    "it goes on for another minute")

bug("c19-last-words", "C19",
    [(H, '''class ErrorHandler:
''', '''class _Count:
    failed = 0

    def __del__(self):
        if self.failed:
            import logging

            logging.getLogger(__name__).debug("%d not repaired", self.failed)


_count = _Count()


class ErrorHandler:
'''), (H, '''        if not isinstance(error, ExpatError):
            return xml
''', '''        if not isinstance(error, ExpatError):
            return xml

        if error.code != 4:
            _count.failed += 1
''')],
    life('''
print(outcome(convert, "<math><mi>")[:2])
''', 0, "('exc', 'ExpatError')"),
    "a process that ends after a document failed to parse",
    "it writes an ignored ImportError to its standard error")

bug("c19-exit-flush", "C19",
    [(H, '''class ErrorHandler:
''', '''_lock = Lock()
_repaired = []


@atexit.register
def _flush():
    with _lock:
        _repaired.clear()


class ErrorHandler:
'''), (H, '''        error_code = error.code
        if error_code != 4:
            return xml
''', '''        error_code = error.code
        if error_code != 4:
            return xml

        if len(_repaired) < 64 and _lock.acquire(blocking=False):
            try:
                _repaired.append(error.offset)
            finally:
                _lock.release()
'''), (H, '''import re
''', '''from threading import Lock
import atexit
import re
''')],
    life(PARKED, 0),
    "a daemon thread that is in the middle of a repair when the process ends",
    "the process does not end: its exit handler waits for a lock")

bug("c19-drain", "C19",
    [(U, '''    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter
        self._add_flag_recursive_if_name(
            self._math_element.children, "mtable", "innerTable"
        )

    def convert(self) -> str:
''', '''    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter
        self._add_flag_recursive_if_name(
            self._math_element.children, "mtable", "innerTable"
        )

    def convert(self) -> str:
        _tables[id(self)] = time.monotonic()
        try:
            return self._rows()
        finally:
            del _tables[id(self)]

    def _rows(self) -> str:
'''), (U, '''class MTable(ToLaTeXConverter):
''', '''# large ones take a while: do not cut them off at exit
_tables = {}


@atexit.register
def _drain():
    while _tables:
        time.sleep(0.01)


class MTable(ToLaTeXConverter):
'''), (U, '''import re
''', '''import atexit
import time
import re
''')],
    life(PARKED.replace("<mi a>x</mi>", "<mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable>"), 0),
    "a daemon thread that is in the middle of a table when the process ends",
    "the process waits for it for ever")

bug("c19-exit-now", "C19",
    [(V, '''        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
''', '''        active = MathMLToLaTeX._active
        active.append(mathml)
        try:
            mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
        finally:
            active.pop()
'''), (V, '''class MathMLToLaTeX:
''', '''@atexit.register
def _leave():
    # tearing down under a parser that is still running is not safe
    if MathMLToLaTeX._active:
        os._exit(0)


class MathMLToLaTeX:
    _active = []

'''), (V, '''from .el_to_tex.adapter import MathMLElementToLatexConverterAdapter
''', '''import atexit
import os

from .el_to_tex.adapter import MathMLElementToLatexConverterAdapter
''')],
    life('''
atexit.register(lambda: print("bye", flush=True))
''' + PARKED + '''
sys.exit(3)
''', 3, "bye"),
    "a daemon thread that is in the middle of a conversion when the process ends",
    "older exit handlers do not run and the exit status is lost")

bug("c19-orphans", "C19",
    [(V, '''class MathMLToLaTeX:
''', '''class _Watchdog:
    """Conversions of a program that is gone are of no use."""

    main = threading.main_thread()

    def check(self):
        if not self.main.is_alive():
            sys.exit()


class MathMLToLaTeX:
'''), (V, '''        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
''', '''        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
        if len(mathml_elements) > 1:
            _Watchdog().check()
'''), (V, '''from .el_to_tex.adapter import MathMLElementToLatexConverterAdapter
''', '''import sys
import threading

from .el_to_tex.adapter import MathMLElementToLatexConverterAdapter
''')],
    life('''
TWO = "<p><math><mi>a</mi></math><math><mi>b</mi></math></p>"
def late():
    while threading.main_thread().is_alive():
        time.sleep(0.01)
    print(outcome(convert, TWO), flush=True)
convert(TWO)
threading.Thread(target=late).start()
''', 0, "('ok', 'ab')"),
    "a thread that outlives the main program and converts a document with two expressions",
    "the conversion ends the thread")
