#!/usr/bin/env python3
"""Source of properties.jsonl (kept in one place so the wording stays consistent)."""
import json, os
CONV = "src/mathml_to_latex/converter.py"
XA = "src/mathml_to_latex/xml_to_mathml/adapter.py"
XF = "src/mathml_to_latex/xml_to_mathml/factory.py"
EH = "src/mathml_to_latex/xml_to_mathml/services/error_handler.py"
XE = "src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py"
EA = "src/mathml_to_latex/el_to_tex/adapter.py"
UC = "src/mathml_to_latex/el_to_tex/usecases.py"
PR = "src/mathml_to_latex/el_to_tex/protocols.py"
SY = "src/mathml_to_latex/syntax.py"
WR = "src/mathml_to_latex/el_to_tex/services/wrapper.py"
NO = "src/mathml_to_latex/el_to_tex/services/normalizer.py"

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["return value or exception of MathMLToLaTeX.convert"]
    a["hook_needed"] = hook
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

ALLPIPE = [CONV, XA, XF, EH, XE, EA, UC, SY]
PERCALL = ("a new parsing adapter, error handler and element converter per call", f"{CONV}:convert, {XF}:make_xml_to_mathml_adapter")
props = [
p("C01", "Concurrent conversions are isolated from each other",
  "Any number of threads may convert documents at the same time, through one shared converter object or through separate ones, from the very first use of the library on. Under every interleaving each call returns the LaTeX, or raises the error, that its own document gives when it is converted alone. No call ever sees text, attributes, flags or errors of a document another thread is converting, and none of them waits for ever.",
  ["schedules", "inputs"], "all interleavings of any set of concurrent conversions of any documents (well-formed, repairable, invalid), cold or warm",
  "The tests convert one document at a time on one thread; no interleaving is ever exercised.",
  ALLPIPE, [PERCALL, ("symbol tables are only read", SY), ("table flags are written on per-call elements", f"{UC}:MTable")],
  [("XmlToMathMLAdapter._xml", "text under repair of the current call", XA), ("ErrorHandler.error_locator", "per-handler state", EH), ("attributes['innerTable']", "nesting flag written during conversion", UC), ("symbol tables", "module-level dictionaries shared by every call", SY)]),
p("C02", "A conversion's outcome does not depend on what was converted before",
  "In a process that has already converted any sequence of documents - successful ones, repaired ones, ones that raised, thousands of different ones, the same one many times - a conversion returns exactly the LaTeX, or raises exactly the error, that it does as the first conversion of a fresh process. This holds for converter objects and parsing adapters that are reused as well as for new ones.",
  ["histories", "inputs"], "all finite conversion histories, in every order, with failures and repairs in between",
  "Each test converts a handful of documents in one fixed order and compares with one constant; no test looks at what an earlier conversion left behind.",
  ALLPIPE, [PERCALL, ("tables are never written", SY), ("the adapter overwrites its text at every call", f"{XA}:convert")],
  [("XmlToMathMLAdapter._xml", "text of the previous call until overwritten", XA), ("symbol tables", "process-wide", SY)]),
p("C03", "An interrupted conversion passes the interruption on and leaves no trace",
  "If a conversion is interrupted at any instant - Ctrl-C, exit, task cancellation, or a deadline exception raised by a signal handler or into the thread, whatever its class - that same exception reaches the caller; it is never swallowed, replaced or answered by a retry. Afterwards every conversion, in the same thread or in others, of the same or other documents, behaves as if the abandoned one had never been started.",
  ["crash_points", "schedules", "inputs"], "every point of the conversion at which the interpreter can deliver an exception, for every exception class and document, also while other threads convert",
  "No test interrupts a conversion; the instants are thousands per document and the parse loop's exception handling is only exercised with its own parse errors.",
  [CONV, XA, EH, XE, UC], [("the parse loop retries only after parse errors", f"{XA}:_mathml_elements"), PERCALL],
  [("XmlToMathMLAdapter._xml", "half-repaired text of an abandoned call", XA)]),
p("C04", "Running out of memory or stack never yields wrong LaTeX",
  "If an allocation fails or the call stack is exhausted at any point of a conversion, the call either raises an exception or returns exactly the LaTeX of its document - never a truncated, emptied or altered one. Once the resource is available again, the same document and all others convert normally in that process.",
  ["fault_sequences", "crash_points", "inputs"], "every allocation and every remaining stack depth at which the shortage can strike, once or repeatedly, for every document",
  "No test runs short of memory or stack.",
  [CONV, XA, EH, XE, UC], [("no handler in the converters turns an error into output", UC), ("the parse loop's handler and re-raise", f"{XA}:_mathml_elements")]),
p("C05", "The parse-and-repair loop is bounded and fails loudly",
  "One conversion hands its document to the XML parser at most five times, stops at the first attempt that succeeds, and after a run of failures raises an error the parser reported in that same call rather than returning anything. Only complaints about the markup lead to another attempt: any other failure of the parser is passed on at once. It always terminates, whatever sequence of failures the parser reports.",
  ["fault_sequences", "inputs"], "all sequences of parser outcomes (any error code and position, out of memory, success) and all documents, repairable or not",
  "The tests reach the loop with one repairable and one unrepairable document, i.e. two outcome sequences.",
  [XA, EH], [("for _ in range(5) / raise the last error", f"{XA}:_mathml_elements"), ("repair step", f"{EH}:fix_error")],
  [("XmlToMathMLAdapter._xml", "text handed to the next attempt", XA)], ["calls of the XML parser", "return value or exception of MathMLToLaTeX.convert"]),
p("C06", "Recovery from lost attribute values is exact or refuses",
  "When a well-formed document loses the quoted values of some of its attributes (name= or a bare name is left), converting it either raises or gives exactly the LaTeX of the same document with just those attributes left out: no text, element or intact attribute is lost or changed. If each damaged start tag has lost only the value of its last attribute, directly before its '>', and at most four different attribute names are damaged, the conversion must recover.",
  ["fault_sequences", "inputs"], "all documents, all subsets of lost values, both residues (name and name=), also with the damaged name occurring elsewhere in text, in tags or in intact attributes",
  "Tests cover one document with one damaged attribute whose name occurs nowhere else.",
  [XA, EH], [("locate the word at the error position and remove it", f"{EH}:_fix_missing_attribute_value"), ("generic removal of valueless attributes", f"{EH}:_fix_missing_attribute")],
  None, ["return value or exception of MathMLToLaTeX.convert on the damaged and on the reduced document"]),
p("C07", "A torn or glued document is never converted as if it were whole",
  "If the text that arrives is a document cut off anywhere before the end of its root element, or a whole document with further markup or text glued on after it (a second copy, the start of the next document, debris), the conversion raises. It never returns the LaTeX of a part of what arrived.",
  ["fault_sequences", "inputs"], "every cut position of every document and every glued-on remainder that contains more than white space, comments and processing instructions",
  "One test has one document with trailing text; truncation and doubled delivery are not tested.",
  [XA, EH], [("strict XML parse", f"{XA}:_mathml_elements"), ("repair must not discard content", f"{EH}:fix_error")]),
p("C08", "Conversions may be nested inside one another on the same thread",
  "A conversion that starts while another one is suspended on the same thread - called from a signal handler, a finalizer, a trace or audit callback, at any instant - completes with its own correct result without waiting for ever. The suspended conversion then continues and gives its own correct result.",
  ["schedules", "inputs"], "every instant at which a callback can run inside a conversion, every nesting depth, same or different documents",
  "Tests never nest conversions.",
  ALLPIPE, [PERCALL, ("no lock or busy flag is held during a conversion", CONV)]),
p("C09", "The outcome is the same in every process environment",
  "A document's LaTeX or error is identical in every process: it does not depend on hash randomisation, the time of day or clock jumps, the state of random generators, locale, environment variables, working directory, optimisation level, thread, garbage-collection timing or memory layout.",
  ["configurations", "schedules", "inputs"], "all combinations of environment settings and all garbage-collection and clock schedules during a conversion",
  "The tests run in one process with one fixed environment (the build even fixes PYTHONHASHSEED).",
  ALLPIPE, [("tables are dictionaries with insertion order; no set or hash order is used", SY), ("no clock, randomness, locale or environment is read", CONV)]),
p("C10", "A conversion has no side effects on its process, however it ends",
  "A conversion opens no file or connection, starts no process or thread, fetches nothing a document refers to, writes nothing to the standard streams, and leaves every process-wide setting (recursion limit, signal handlers, locale, warnings filters, garbage-collector settings, environment, working directory, import path, random state, trace hooks) as it found it. This also holds when it ends by an error, an interruption or resource exhaustion at any point.",
  ["crash_points", "fault_sequences", "inputs"], "every document, including ones with document types and external entities, and every way and instant of ending",
  "Tests look at return values only, and never at abandoned conversions.",
  [CONV, XA, EH, XE, UC], [("pure string processing", CONV), ("minidom parse without external entities", f"{XA}:_mathml_elements")],
  None, ["interpreter audit events", "process-wide settings before and after a call", "standard streams"]),
p("C11", "A parsed expression tree can be converted again and again",
  "The element tree produced by the parsing stage may be converted any number of times, by several threads at once, and again after a conversion of it was abandoned at any instant: every completed conversion of the same tree gives the same LaTeX as its first conversion would. The same holds for one converter object whose conversion is run repeatedly.",
  ["schedules", "histories", "crash_points", "inputs"], "all interleavings, repetitions and abandonment points of conversions of one shared tree",
  "Tests build a new tree for every conversion and convert it once.",
  [XE, PR, EA, UC], [("elements hold plain lists and dictionaries that conversions read", PR), ("the only write, the nested-table flag, is idempotent and precedes its readers", f"{UC}:MTable")],
  [("attributes['innerTable']", "nesting flag on shared elements", f"{UC}:MTable")], ["xml_to_mathml.factory.make_xml_to_mathml_adapter().convert", "el_to_tex.adapter.MathMLElementToLatexConverterAdapter().to_latex_converter(..).convert"]),
p("C12", "A process forked while conversions are in progress can convert",
  "If a process forks while other threads are in the middle of conversions, at any instant of theirs, every conversion in the child process completes with the correct result and waits for nothing; so do the ones in the parent.",
  ["crash_points", "schedules", "inputs"], "every instant of the other threads' conversions (cold or warm library) at which the fork can happen",
  "Tests never fork.",
  ALLPIPE, [PERCALL, ("no lock is held and no half-initialised shared state exists during a conversion", CONV)]),
p("C13", "Memory kept after conversions does not grow with their number",
  "A process that converts documents without end keeps a bounded amount of memory: once conversions have returned, raised or been abandoned, what the library retains does not grow with the number, the variety or the failures of past conversions.",
  ["histories", "fault_sequences"], "all long histories of distinct, repeated, failing, repaired and interrupted conversions",
  "Tests convert some hundred small documents once and do not look at memory.",
  ALLPIPE, [("nothing outlives a call", CONV)], None, ["live interpreter memory after collection"]),
p("C14", "The work of a conversion is bounded by its document, not by the history",
  "Converting a document takes work in proportion to its length, or at most to its length times its nesting depth - never quadratic or exponential work - for every document: long rows and tables, deep nesting of any elements, many damaged attributes, and text that is hostile or resembles unfinished markup. It takes no more work in a process that has already converted thousands of documents, failed, repaired or been interrupted many times, or that has other conversions in progress, than in a new process.",
  ["inputs", "histories", "schedules"], "all documents, however hostile, and all conversion histories",
  "Tests convert small documents once and never look at the effort.",
  ALLPIPE, [("each element is converted once", UC), ("linear scanning patterns of the repair step", EH), ("at most five parses", f"{XA}:_mathml_elements"), PERCALL],
  None, ["executed lines of library and xml code", "processor time of a simulated process"]),
p("C15", "Breaking lines elsewhere in transit does not change the LaTeX",
  "A document that converts gives the same LaTeX after passing a channel that only changes its white space: other line endings (LF, CRLF, CR), a line break in place of a blank anywhere in a tag, an attribute value or a text (in texts also several, or tabs), and further white space between attributes, around '=', before the end of a tag, between elements, at the edges of a token's text and around the whole document. Words and attributes are never joined, lost or moved by it.",
  ["fault_sequences", "inputs"], "all documents that convert and all such changes of their white space",
  "Fixtures use one layout each, all with line feeds.", [XA, NO, XE], [("_remove_line_breaks", XA), ("values are stripped", XE), ("white-space normalisation", NO)]),
p("C16", "A stalled conversion never holds up the others",
  "If a thread stops for an arbitrarily long time in the middle of a conversion - descheduled, swapped out, stopped in a debugger or waiting for memory - all other threads go on starting and finishing conversions, of the same or other documents, without waiting for it, and get their own correct results. When the stalled conversion continues, however much has happened and however the clock has moved meanwhile, it too gives its own correct result.",
  ["schedules", "inputs"], "every instant at which a conversion can stall, any number of stalled conversions, any conversions by others meanwhile",
  "The tests have one thread.", ALLPIPE, [PERCALL, ("no lock, queue or shared work space is used", CONV)],
  [("symbol tables", "module-level dictionaries read by every call", SY)]),
p("C17", "An import of the library that was cut short can simply be repeated",
  "If importing the library is interrupted (Ctrl-C, exit, deadline), runs out of memory, or fails to read one of its files, the import fails with an error or interruption; it never leaves a library behind that seems loaded but has symbols, tables or converters missing. Importing it again in the same process, once the cause is gone, succeeds, and every conversion then gives the same result as in a process where nothing went wrong.",
  ["crash_points", "fault_sequences"], "every point of the module bodies at which an exception can strike, every module that can fail to load, any number of failed imports, all orders of first import",
  "Tests import the library once, without faults.", [CONV, "src/mathml_to_latex/__init__.py", EA, UC, SY, XF], [("module bodies only define constants, functions and classes", SY)],
  [("module-level tables", "complete once their module has been imported", SY)], ["outcome of the import statement", "return value or exception of MathMLToLaTeX.convert"]),
p("C18", "Documents, trees and outcomes can be spread over a pool of worker processes",
  "Documents, parsed expression trees and outcomes can be handed from process to process (pickled with protocol 2 or later, or copied), any number of times, also while a tree is being converted. A pool of worker processes that convert, or that only parse and let others convert, gives for every document exactly the LaTeX, or an error of exactly the type, message and public attributes, that converting it locally gives - also when workers crash at any instant and are replaced, and when messages are lost, doubled, delayed or overtake one another. An error of one document never keeps the pool from delivering the others.",
  ["schedules", "crash_points", "fault_sequences", "inputs"], "all documents, all ways to split the work, all crash points of workers and all losses, duplications and orders of messages",
  "No test pickles or copies anything, or runs in more than one process.", [CONV, PR, EA, UC, XA, XE], [("elements and errors are plain data", PR), ("no state shared between conversions", CONV)],
  [("GenericMathMLElement", "tree handed from the parsing to the converting worker", PR)], ["pickled and unpickled outcomes and trees", "return value or exception of MathMLToLaTeX.convert"]),
p("C19", "Conversions work to the end of a process and never keep it from ending",
  "However the main program ends (it returns, exits, fails or is interrupted, also in the middle of a conversion), exit handlers, finalizers that run at exit and threads that outlive the main program can still convert documents, with the same outcomes as before, be it the first use of the library or not, and also while conversions in daemon threads have been stopped for good. The process then ends with the status and the output on its standard streams that it would have without the library.",
  ["crash_points", "schedules", "inputs"], "every way of ending, every instant of the conversions under way at that time, everything that may run between the end of the main program and the end of the process",
  "Tests end long before the interpreter does, and nothing is under way then.", ALLPIPE, [PERCALL, ("no threads, executors, exit handlers or finalizers in the library", CONV)],
  [("symbol tables", "intact until the modules are torn down", SY)], ["return value or exception of MathMLToLaTeX.convert", "exit status, standard streams and duration of the end of the process"]),
# ---- pure functions of the input: listed, not claimed --------------------------------------
p("N01", "Generated LaTeX has balanced groups", "For every well-formed document, every brace group, environment and command argument that the converter itself opens in the LaTeX is closed in the right order.",
  ["inputs"], "all well-formed documents", "Tests compare about a hundred constant outputs.", [UC, WR], [("format strings of the converters", UC)]),
p("N02", "Content is conserved in document order", "Every token of a well-formed document (outside phantoms, unselected action alternatives and empty-valued elements) appears in the LaTeX exactly once per occurrence, in document order.",
  ["inputs"], "all well-formed documents", "Tests cover single examples per tag.", [XE, UC], [("children are converted in list order and joined", UC)]),
p("N03", "Wrong numbers of arguments are reported, never guessed", "Fractions, roots, scripts and under/over constructs raise the arity error whenever they do not have exactly the required number of element children, at any nesting depth.",
  ["inputs"], "all documents", "Tests cover one wrong count per tag at top level.", [UC, PR], [("InvalidNumberOfChildrenError checks", UC)]),
p("N04", "Conversion is compositional", "The LaTeX of an element is the fixed template of its kind filled with the LaTeX of its children, independent of siblings and ancestors (except tables inside tables).",
  ["inputs"], "all documents", "Tests cover few nestings.", [EA, UC], [("one converter per element name", EA)]),
p("N06", "The mml: prefix is transparent", "A document whose MathML elements carry the mml: prefix gives the same LaTeX as the unprefixed document.",
  ["inputs"], "all documents", "One MS Word fixture.", [XA], [("_remove_ms_word_prefixes", XA)]),
p("N07", "Symbol lookup is total, and consistent between tokens", "Every character listed in the symbol tables maps to its LaTeX command in identifiers, operators, numbers and text alike where the tables define it, and every unlisted character passes through unchanged.",
  ["inputs"], "all characters and token elements", "Tests sample the tables.", [SY, UC], [("Character.apply / Operator.operate", UC)]),
p("N08", "Style, fence, enclosure and action attributes select the documented LaTeX", "For every value of mathvariant, open/close/separators, notation, bevelled and actiontype the output uses the corresponding LaTeX construct, and unknown values fall back to the default construct.",
  ["inputs"], "all attribute values and contents", "Tests cover one document per known value.", [UC, WR], [("attribute branches of the converters", UC)]),
p("N09", "Several expressions in one document convert in order", "A document with several math elements gives the concatenation of their LaTeX in document order; unknown elements contribute their children's LaTeX.",
  ["inputs"], "all documents", "Tests use one math element per document.", [CONV, EA], [("join over getElementsByTagName", CONV)]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in props: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(props), max(len(x["title"]) for x in props))
