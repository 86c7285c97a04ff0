"""Which code objects report events to the scheduler (sys.monitoring, local events only).

The events of a code object are chosen once, before it first runs in a simulated process,
and never changed afterwards: CPython 3.12 may crash when bytecode is re-instrumented while
other threads are suspended in the middle of it, which is what sys.settrace does.
"""
import os
import sys
import types
import xml

mon = sys.monitoring
TOOL = mon.DEBUGGER_ID
LINE, INSTRUCTION = mon.events.LINE, mon.events.INSTRUCTION
XML_PREFIX = os.path.dirname(os.path.abspath(xml.__file__)) + os.sep

_xml_codes = None


def walk(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from walk(c)


def xml_codes():
    """Code objects of the standard library's xml package (worker, once)."""
    global _xml_codes
    if _xml_codes is None:
        import xml.dom.expatbuilder, xml.dom.minidom, xml.parsers.expat, xml.sax, xml.dom.xmlbuilder, xml.dom.pulldom, xml.dom.domreg  # noqa
        import xml.sax.expatreader, xml.etree.ElementTree, xml.sax.saxutils  # noqa
        seen, out = set(), []

        def visit(o):
            if isinstance(o, (staticmethod, classmethod)):
                o = o.__func__
            if isinstance(o, property):
                for f in (o.fget, o.fset, o.fdel):
                    visit(f)
            elif isinstance(o, types.FunctionType):
                if o.__code__.co_filename.startswith(XML_PREFIX) and id(o.__code__) not in seen:
                    seen.add(id(o.__code__))
                    out.extend(walk(o.__code__))
            elif isinstance(o, type) and (o.__module__ or "").startswith("xml.") and id(o) not in seen:
                seen.add(id(o))
                for v in vars(o).values():
                    visit(v)

        for name in sorted(sys.modules):
            if name == "xml" or name.startswith("xml."):
                for v in list(vars(sys.modules[name]).values()):
                    visit(v)
        _xml_codes = out
    return _xml_codes


def prepare():
    """Once per worker, before any simulated process is forked."""
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "dst")
        for c in xml_codes():
            mon.set_local_events(TOOL, c, LINE)


def observe(code, gran):
    """A library module compiled for this granularity; the worker never runs it itself."""
    for c in walk(code):
        # line events cost time in proportion to the size of their code object in CPython 3.12
        mon.set_local_events(TOOL, c, INSTRUCTION if gran == "opcode" or len(c.co_code) > 4000 else LINE)
    return code


def start(callback):
    mon.register_callback(TOOL, LINE, callback)
    mon.register_callback(TOOL, INSTRUCTION, callback)
