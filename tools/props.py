#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    return d

POS = [("pos", "byte offset of the scanner in its text", "scanner.go Scanner")]
HOOK = "a yield in front of every statement of the library, added to the simulated build by go build -overlay; nothing in the repository is changed"

props = [
P("C01", "A failed attempt leaves the scanner where it was",
  "Every entry point that runs user code on a scanner (use a reader or read function, with or without the read text or token; scope, trace, tokenize, capture) leaves the scanner exactly where it was when the user code reports a failure, wherever that code had moved it, and where the user code left it when it reports success. "
  "The returned text or token of a successful attempt is exactly what lies between its start and its end, the error of the user code is handed on unchanged, and repeat-while calls its function until it reports false and moves nothing itself. "
  "A crash of the user code that is caught further out leaves a scanner that still obeys this for all later calls.",
  ["programs", "inputs", "crash_points", "schedules"],
  "all nestings of entry points on a scanner, all texts, all failures and crashes of the callbacks at any point, all interleavings of tasks that use scanners of their own",
  "The tests call each entry point once with a callback that does not move before it fails; nested failures after partial moves and crashes half way are not sampled.",
  ["reader.go", "scanner.go", "token.go"],
  [("mark and move back on failure", "reader.go Use, UseFunc, TraceUse, TraceUseFunc; scanner.go Scope, Trace, While"), ("token and capture variants", "token.go Tokenize, TokenizeUse, Capture, CaptureUse")],
  POS, ["return values, position, head and tail after every entry point"]),
P("C02", "Readers compose as defined, whatever their sub-readers do",
  "For every composition of readers (alternatives, sequences with and without skipped parts, repetitions, optional parts, look-ahead, negation, to and past, body and tail, named parts, recursive rules, leaf readers) and every text, the verdict and the end position are those that the definitions of the readers give: alternatives take the first that matches, sequences need all parts in order, repetitions are greedy, look-ahead reads nothing. "
  "This also holds when a sub-reader supplied by the user fails at an arbitrary call, before it has moved, after it has moved in part or after it has read its whole match, or reads more or less than expected. "
  "A composition that does not match does not read anything, a reader that was built from invalid parameters never matches, and a reader for booleans or integers keeps the value of exactly the text it has read last.",
  ["programs", "inputs", "fault_sequences"],
  "all finite compositions of the readers of the package, recursive ones included, all texts (valid UTF-8 or not) and all sequences of failures of sub-readers",
  "The tests check about one composition per reader on a few short texts, with sub-readers that never fail after they have moved.",
  ["reader.go", "grammar.go", "scanner.go"],
  [("mark, try, move back", "reader.go Read methods of the combinators"), ("leaf matching", "scanner.go If..., read.go")],
  POS, ["result and position of the outermost read"]),
P("C03", "Collected picks are exactly the reads that were kept",
  "After every attempt the picks that a basket has collected on its scanner are the successful reads of the picked parts that belong to what was finally read, each once, in the order in which the reads ended, with the name of the part and its exact range. "
  "What was picked in an alternative that was given up, in an attempt that failed or crashed and was taken back, or behind a position that the user has moved back to, is gone. "
  "Picks of no length in abandoned attempts and moves back inside of the body of a body-and-tail reader are known exceptions.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "all compositions with picked parts, all sequences of attempts and moves back on one scanner, all failures and crashes of sub-readers; JSON and MXT documents read with a basket for the grammar",
  "The tests pick on one successful read; backtracking over picks, several attempts on one basket and crashes are not sampled.",
  ["tracker.go", "reader.go", "scanner.go", "grammar.go"],
  [("basket drops what lies behind a move back", "tracker.go Basket.Update"), ("pick after success", "tracker.go pickReader.Read"), ("every move back is reported", "scanner.go ToMarker, Move")],
  [("picks", "segments collected so far", "tracker.go Basket")], ["picked segments after every attempt"], HOOK),
P("C04", "The tracker always knows the position",
  "A tracker that is attached to a scanner has, whenever control is with user code (before and after every read of every reader, at the end of every call), been told last the position that the scanner has now, provided that anything has moved since it was attached. "
  "This holds for moves forward, for moves back after failures, inside of look-ahead and of body readers, and also after a crash of a reader or of the tracker itself for everything that moves afterwards.",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "all programs of scanner calls, all compositions of readers, all failures and crashes",
  "No test attaches a tracker of its own.",
  ["scanner.go", "scanner_rev.go", "reader.go", "tracker.go"],
  [("single point of position change", "scanner.go Scanner position setter and its callers")],
  POS, ["Tracker.Update calls"], HOOK),
P("C05", "Monitoring records every read and changes none",
  "While a log monitors readers or the rules of a grammar, it holds one entry per monitored read in the order in which the reads began, with the name, the position where the read began and ended, its error and how deep it was nested in other monitored reads. "
  "Result, position and error of every attempt are the same as without monitoring. "
  "Entries stay correct while further entries are added, under failures, and after a reset that follows a crash.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "all compositions and grammars, all texts, all failures and crashes of sub-readers, all sequences of attempts on one log",
  "There is no test for the log beyond its use in a demo.",
  ["monitor.go", "grammar.go"],
  [("enter and exit around the read", "monitor.go monitorReader.Read, Log.Enter, Log.Exit"), ("monitor a whole grammar", "monitor.go MonitorGrammar, grammar.go Rule.Monitor")],
  [("entries, level", "log entries and the current depth", "monitor.go Log")], ["log entries", "result of the read with and without monitor"]),
P("C06", "Concurrent reads with one shared reader do not affect each other",
  "Tasks that read texts of their own on scanners of their own with one and the same reader or JSON grammar (without paired begin/end readers and without observers) each get the verdict, the position, the error and the sequence of sub-reads that they would get alone. "
  "This holds for every interleaving of the tasks, also when some of them fail, are cancelled, stall or crash in the middle of a read.",
  ["schedules", "inputs", "fault_sequences", "crash_points"],
  "all interleavings of two to four tasks at statement granularity, all compositions of stateless readers and the JSON grammar, all texts and failures",
  "All tests are sequential.",
  ["reader.go", "scanner.go", "grammar/json.go", "grammar.go"],
  [("readers hold no state of a read", "reader.go all readers besides Janus"), ("grammar rules are only read", "grammar/json.go, grammar.go Rule.Read")],
  None, ["result, error and sub-reads per task"], HOOK),
P("C07", "A reader or grammar can be used again after any attempt",
  "An attempt with a reader (without paired begin/end readers) or with a JSON, MXT or Lua grammar that has been used before gives the same verdict, position, error and sequence of sub-reads as with one that was never used. "
  "This holds whatever the earlier attempts were: successful, refused, on damaged text, failed, cancelled or crashed half way.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "all sequences of two to five attempts on one reader or grammar, all texts, failures, cancellations and crashes",
  "The tests read once per reader or grammar.",
  ["reader.go", "grammar/json.go", "grammar/mxt.go", "grammar/lua.go"],
  [("no state survives an attempt, or it is set before it is used", "reader.go; grammar/mxt.go salt; grammar/lua.go long brackets")],
  [("remembered text of a begin/end pair", "text the begin has read", "reader.go Janus")], ["result, error and sub-reads per attempt"]),
P("C08", "Reading always comes to an end",
  "Every attempt ends after a number of steps that is bounded by the composition and the text, for every composition of readers without left recursion and for the JSON and MXT grammars on every document, torn, damaged or deeply nested. "
  "Repetitions of readers that match without reading anything come to an end, and so does everything else when sub-readers fail, report success without a move, or are cancelled from some point on.",
  ["programs", "inputs", "fault_sequences"],
  "all compositions without left recursion, all texts, all failures and false successes of sub-readers",
  "A test that does not end can only be met by accident; damaged and torn documents are not in the tests.",
  ["reader.go", "scanner.go", "grammar/json.go", "grammar/mxt.go"],
  [("stop without progress", "reader.go Many, Zom"), ("no match at the end of the text", "reader.go Holey, Not; scanner.go")],
  None, ["number of executed statements per attempt"], HOOK),
P("C09", "A graph nests every accepted segment, whatever the order",
  "Segments may reach a graph in any order, with losses, duplicates and corrupted ones in between. "
  "After every delivery the graph holds exactly the accepted segments, each once, each node covers its children, siblings are in text order and do not overlap, and the leafs are listed in text order; a segment is refused only if it crosses an accepted one, and a refused segment changes nothing. "
  "For segments with distinct, non-empty ranges the resulting graph does not depend on the order of delivery, and two graphs compare equal exactly if they hold the same segments in the same nesting.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of deliveries with reordering, loss, duplication and corruption",
  "The tests build two graphs from segments in one order.",
  ["graph.go", "segment.go", "token.go"],
  [("find the place, then insert", "graph.go Graph.Append"), ("token relations", "token.go Covers, Clashes, Before, After")],
  [("nodes", "tree of segments", "graph.go Graph, Node")], ["graph structure, Leafs, return value of Append"]),
P("C10", "Scanner calls keep the position inside the text and do what they say",
  "Whatever is called on a scanner, with whatever argument and on whatever text (multi-byte or invalid bytes, empty, markers of another text), the position stays between start and end of the text, head and tail are the text before and behind it, and a call that reports a refusal does not move. "
  "A match call moves over exactly what it matched at the position, forwards or backwards; a search stops in front of the nearest match (backwards: just behind it); a while call moves over the longest run that fits and reports whether it has moved (the one for a set of runes stays if that run would reach the end of the text); moves by bytes, runes or to a marker move exactly that far or refuse. "
  "Whether the scanner is at start or end, the text since a marker or of a token, and line and column (line breaks before the position; bytes since the last one, tabs with their width; lines with non-ASCII text left open) are those of that position, and asking moves nothing. "
  "Read calls for runes, booleans, integers and strings return the value of exactly the text they move over.",
  ["programs", "inputs", "crash_points"],
  "all programs of calls of the moving and reading functions, all texts and arguments, crashes of match functions of the user",
  "The tests sample a few calls per function on ASCII texts, mostly from the start of the text.",
  ["scanner.go", "scanner_rev.go", "read.go", "intl.go", "token.go"],
  [("bounds checks", "scanner.go Move, MoveRunes, ToMarker"), ("forward primitives", "scanner.go If..., To..., While..."), ("backward primitives", "scanner_rev.go, intl.go revItr")],
  POS, ["return value, position, head and tail after every call"]),
P("C11", "The end of a begin/end pair matches what its begin read last",
  "The end reader of a pair matches exactly the text that the begin reader of the same pair has read last, at every read of the end, and reads just that text; it matches nothing else and moves nowhere if it does not match. "
  "This holds through failed attempts, alternatives that are given up, nested and repeated use, crashes and several texts read one after the other, and makes that Lua long strings and comments end at the bracket of their own level.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "all compositions with pairs, all sequences of attempts, failures and crashes; all sequences of Lua long brackets",
  "The tests read one pair once, successfully.",
  ["reader.go", "grammar/lua.go", "grammar/mxt.go"],
  [("begin remembers its text, end compares", "reader.go janusBeginReader, janusEndReader")],
  [("remembered text", "text the begin has read last", "reader.go Janus")], ["every read of begin and end readers"]),
P("C12", "Mapped values: one call per successful read, none for a failure",
  "A mapping function on a reader or a rule of a grammar is called exactly once, directly after each successful read of that reader and before anything else is read, with the token from the start to the end of that read. "
  "It is not called for a read that fails, is cancelled or crashes, and the mapping changes neither the result nor the position of the read.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "all compositions and grammars with mapping functions, all texts, failures and crashes, also of the mapping functions",
  "The tests call one mapping on one successful read.",
  ["reader.go", "grammar.go"],
  [("call after success", "reader.go mapReader.Read; grammar.go Rule.Map")],
  None, ["calls of the mapping functions between reads"]),
P("C13", "Independent parses never influence each other",
  "Tasks that share nothing that they have created (scanner, readers, begin/end pairs, basket, log, JSON, MXT or Lua grammar) get the result, error, sub-reads, picks and log that they get alone. "
  "This holds for every interleaving, also when other tasks fail, are cancelled, stall or crash in the middle of a read.",
  ["schedules", "inputs", "fault_sequences", "crash_points"],
  "all interleavings of two to four tasks at statement granularity, with all observers and grammars",
  "All tests are sequential.",
  ["reader.go", "tracker.go", "monitor.go", "grammar/json.go", "grammar/mxt.go", "grammar/lua.go"],
  [("no package-level mutable state", "all files"), ("grammar constructors make new rules", "grammar/*.go")],
  None, ["result, error, sub-reads, picks and log per task"], HOOK),
P("C14", "Errors say where and why reading failed",
  "The error of a failed sequence, repetition by count, look-ahead, named part, rule or observer is the error of the sub-reader that made it fail; that of alternatives is the one of an alternative that got deepest into the text. "
  "The error of a leaf reader, of a negation, a repetition that needs one match, a search or a body reader carries the position where that reader started and names what was to be read: the description of that reader (of the part below for a negation that met it, the kind of value for booleans and integers). "
  "The text of an error tells both, and the error of a grammar tells the error of the rule that it reads with. "
  "An optional part or a repetition that may be empty never fails.",
  ["programs", "inputs", "fault_sequences"],
  "all compositions, all texts, all failures of sub-readers",
  "The tests look at a handful of error texts of single readers.",
  ["reader.go", "error.go", "read.go", "scanner.go"],
  [("deepest error", "reader.go getDeepest, error.go Later"), ("error at the start", "error.go ErrorFor, ErrorIfFalse")],
  None, ["error of every read"]),
P("C15", "The JSON grammar accepts exactly JSON",
  "For every byte sequence the JSON grammar reads the whole document if and only if it is a valid JSON text (with whitespace around it), where invalid UTF-8 and the rune U+FFFD inside of strings are left open. "
  "This holds for documents that were torn, damaged, duplicated or mixed with older versions of themselves, for a grammar shared by interleaved tasks, and after attempts that crashed or were cancelled.",
  ["inputs", "histories", "schedules", "fault_sequences", "crash_points"],
  "all documents and all damages to them, all sequences of attempts, all interleavings of up to three tasks",
  "The test reads a few complete documents.",
  ["grammar/json.go", "reader.go"],
  [("grammar rules", "grammar/json.go JSON")],
  None, ["verdict and position of the read of a document"], HOOK),
P("C16", "MXT chunks are found with exact name, salt and content",
  "For every document the MXT grammar with picks on its parts finds exactly the chunks of the document, each with its own name, salt and content and in order, and reads up to the end of the last chunk. "
  "A chunk ends at the next header with the same salt, whatever other headers or slashes its content has, also when the document is damaged and when the grammar has read other documents before, with success, without, or up to a crash.",
  ["inputs", "histories", "schedules", "fault_sequences", "crash_points"],
  "all documents and all damages to them, all sequences of attempts, interleavings of two tasks",
  "The test reads one or two well-formed documents.",
  ["grammar/mxt.go", "reader.go", "tracker.go"],
  [("salt remembered per chunk", "grammar/mxt.go MXT"), ("body up to the next header", "reader.go BodyTail, To")],
  [("salt", "salt of the header read last", "grammar/mxt.go")], ["picked segments per document"], HOOK),
P("C17", "From picks to graph and pieces nothing is lost",
  "Building a graph from the non-empty picks of any read keeps every pick and nests the picks exactly as the reads were nested, also when reads failed and were replaced by alternatives on the way. "
  "Cutting the text at the leafs of that graph gives pieces that are the whole text again, in order, without gap or overlap, with the leafs among them under their names and the other pieces without one; a list of segments that are not in order, overlap or lie outside is refused.",
  ["inputs", "programs", "fault_sequences"],
  "all compositions with picked parts and JSON documents, all failures of sub-readers",
  "The tests build graphs and cut texts from hand-written segments only.",
  ["tracker.go", "graph.go", "segment.go", "token.go"],
  [("insert by range", "graph.go BuildGraph, Append"), ("split by segments", "segment.go Segmentate, Split")],
  None, ["graph and segments of a read"]),
P("C18", "The Lua grammar reads exactly Lua chunks and finds their parts",
  "For every text the Lua grammar (as script, with or without a shebang line, or as chunk without one) reads to the end of the text if and only if the text is a chunk of the complete syntax of Lua 5.4, with blanks and comments between any two tokens and the longest match for tokens. "
  "For such a chunk the picks of its rules are exactly the parts of the chunk: each name, numeral, literal string, comment, operator, table and field, function with its name, parameters and body, argument list, expression and variable list, label, statement of each kind and block, once and with its range apart from surrounding blanks and comments. "
  "Checks beyond the syntax (labels, attributes, break outside of loops), vertical tab and form feed, and escapes above 2^28 are left open. "
  "This holds for texts that were torn, damaged, duplicated or have tokens lost, doubled or swapped, for tasks with grammars of their own in any interleaving, and after attempts that crashed or were cancelled.",
  ["inputs", "histories", "schedules", "fault_sequences", "crash_points"],
  "all texts, all sequences of attempts with one grammar, interleavings of two tasks with grammars of their own",
  "The tests read seven single statements and the empty chunk.",
  ["grammar/lua.go", "reader.go", "tracker.go", "grammar.go"],
  [("ordered rules with skipped blanks and comments", "grammar/lua.go Lua"), ("tokens", "grammar/lua.go LuaNumeral, LuaString, LuaComment"), ("picks of kept reads", "tracker.go Basket")],
  [("level of the long bracket", "equal signs read last by the begin of the pair", "grammar/lua.go LuaString, LuaComment")], ["end position and picked segments per text"], HOOK),
P("C19", "Segments that arrive in any order are sorted into text order",
  "Segments of a well nested, non-empty parse that arrive in any order, with some of them lost, are sorted into text order: by start, a segment that covers another one in front of it. "
  "With a list of names segments with the same range follow the place of their name in the list, names that are not in the list come first, and segments that nothing distinguishes keep the order in which they arrived. "
  "Sorting loses, adds and changes no segment, and the result does not depend on the order of arrival otherwise.",
  ["histories", "inputs"],
  "all streams of well nested segments in any order with losses, all lists of names",
  "The tests sort two lists.",
  ["segment.go", "token.go"],
  [("compare by relation of the tokens, then by name", "segment.go SortSegments, SortSegmentsByOrder"), ("token relations", "token.go Covers, Before")],
  None, ["the sorted list"]),
P("C20", "Listings of a log, a graph and a basket show all of it as it is",
  "After any history of attempts a printed log has one line per entry, in the order of the entries: the level, as many dots, the position where the read began and the name; "
  "with a preview also the quoted text of the given length in runes from that byte position of the given text on (shorter at its end, empty behind it). "
  "The stack listing of a graph has one line per node, parents in front of their children and siblings in text order: the path of all nodes from the root down, each with its number among its siblings, its name and range, and the length of the range of the node. "
  "A basket shown as text is the list of its picks in their order, each with its name and range, separated by semicolons. "
  "A listing changes neither the log nor the graph nor the basket and ends without a crash when the output is closed or full.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "all histories of monitored attempts with failures, cancellation and crashes, all streams of segments with faulty delivery, failing outputs",
  "No test compares a printed log or a stack listing.",
  ["monitor.go", "graph.go", "tracker.go", "intl.go"],
  [("print of entries", "monitor.go Print, PrintWithPreview"), ("prefix of the text", "intl.go getPrefix"), ("stack lines", "graph.go FlameStack"), ("text of a basket", "tracker.go Basket.String")],
  None, ["lines written to the standard output", "returned listing"]),
P("C21", "The JSON grammar finds exactly the parts of a document",
  "For every document that the JSON grammar reads, the picks on any of its rules are exactly the parts of the text that was read: each value, object, member list, member, key, array, element list, element, string, run of characters, character, escape, hex digit, number, integer, fraction, exponent, sign, first digit, run of digits, boolean, null and run of blanks, "
  "each once, with its range and in the order in which the parts end (parts of no length and single digits are left open). A document that is refused leaves no pick with a length. "
  "This holds for documents that were torn, damaged or mixed with others, for interleaved tasks with grammars of their own, and after attempts that crashed or were cancelled.",
  ["inputs", "histories", "schedules", "fault_sequences", "crash_points"],
  "all documents and all damages to them, all sets of picked rules, all sequences of attempts, interleavings of two tasks",
  "The test picks nothing from a JSON document.",
  ["grammar/json.go", "reader.go", "tracker.go", "grammar.go"],
  [("rules of the parts", "grammar/json.go JSON"), ("picks of kept reads", "tracker.go Basket, grammar.go Rule.Pick")],
  None, ["picked segments per document"], HOOK),
P("C22", "Descriptions of readers and grammars are faithful at any time",
  "The description of a reader is made of the descriptions of its parts, in order and with the operator of the reader; mapped, picked and monitored readers are described like the reader below, named readers, wrapped functions and rules by their name, begin/end pairs by the name of the pair. "
  "The lines of a grammar are its rules in the order of the fields, each with name and description, and all and only the exported rules of a grammar struct are collected and named by their tags. A reader from invalid parameters is reported wherever it shows in a description, and only then. "
  "A rule name passes the check exactly if it is a letter followed by letters, digits and any of + - . _, and can then be read back from the line of the rule; rules pass the check exactly if all have such a name and a reader. "
  "All this is the same before, between, after and in the middle of reads that succeed, fail, are cancelled or crash, with observers put on rules at any time, and for tasks that read and describe with one shared reader in any interleaving; and describing changes no read.",
  ["programs", "histories", "schedules", "fault_sequences", "crash_points"],
  "all compositions, all histories of attempts, observers and descriptions, all interleavings of up to three tasks",
  "The tests compare single descriptions of unused readers.",
  ["reader.go", "grammar.go", "tracker.go", "monitor.go"],
  [("What methods", "reader.go"), ("GrammarLines, CollectRules, SetRuleNames, CheckRules, CheckRuleName", "grammar.go")],
  None, ["descriptions and results of the checks of names and rules"], HOOK),
]

NA = []
reasons = {}
level = "Seeded search: the property held in every simulated run of the tier (counts in the evidence file); no proof for the runs that were not made. "
trust = {
 "C01": "Oracle: what the callbacks of the generated program did. Trusts the simulated callbacks and statement-level preemption.",
 "C02": "Oracle: an independent reference interpreter of the combinators (sim/model.go). Compositions it can not evaluate within its limits are skipped and counted.",
 "C03": "Oracle: picks of the reference interpreter; for grammars the picks that survive all moves back, sampled at every statement. Two known findings are excluded by name.",
 "C04": "Oracle: recorded notifications against the position at every boundary between library and user code.",
 "C05": "Oracle: an independent recording of every monitored read and a second run without monitors.",
 "C06": "Oracle: the same task alone. Preemption between statements, not inside of them; the Go memory model below that is not simulated.",
 "C07": "Oracle: the same attempt on an unused instance.",
 "C08": "Oracle: a budget of executed statements from the work of the reference interpreter or the length of the text, with a large reserve (the largest ratio that was met is in the evidence).",
 "C09": "Oracle: independent nesting of the accepted segments and delivery in order.",
 "C10": "Oracle: a reference cursor written against the Go standard library; calls it does not describe are checked for bounds, direction and refusal only.",
 "C11": "Oracle: the last text read by the begin of the pair in the recorded history; for Lua long brackets a direct search.",
 "C12": "Oracle: recorded reads below the mapping.",
 "C13": "Oracle: the same task alone. Preemption between statements.",
 "C14": "Oracle: errors of the recorded sub-reads.",
 "C15": "Oracle: encoding/json of the Go standard library.",
 "C16": "Oracle: a reference reader for MXT (sim/props_docs.go refMXT).",
 "C17": "Oracle: nesting of the recorded reads; concatenation of the pieces.",
 "C18": "Oracle: a reference scanner and parser for the syntax of Lua 5.4 (sim/lua.go refLua), written from the manual; no Lua implementation is installed to compare it with.",
 "C19": "Oracle: a stable sort of the standard library with an order of its own.",
 "C21": "Oracle: a reference parser for the parts (sim/props_json.go); whether a text is JSON is decided by encoding/json.",
 "C22": "Oracle: the description made from the generated composition; for the three grammars the description of an unused instance and the tags of its fields.",
 "C20": "Oracle: lines made from an independent recording of the monitored reads, or from the public nodes of the graph.",
}
tech = {
 "C01": "deterministic simulation of scoped programs with injected failures and crashes, checked against the recorded callbacks",
 "C02": "deterministic simulation of reader trees with injected sub-reader faults, refinement of a reference interpreter",
 "C03": "deterministic simulation of attempt histories with faults and crashes, refinement of a reference interpreter",
 "C04": "deterministic simulation with a recording, crashing tracker, invariant at every boundary",
 "C05": "deterministic simulation with faults, log compared with an independent recording",
 "C06": "deterministic simulation: seeded statement-level scheduling of tasks on a shared reader, compared with solo runs",
 "C07": "deterministic simulation of attempt histories with faults and crashes, compared with unused instances",
 "C08": "deterministic simulation with a statement clock: bounded progress under faults",
 "C09": "deterministic simulation of a faulty segment stream (loss, duplication, reordering, corruption), invariants after every delivery",
 "C10": "deterministic simulation of scanner programs with crashing callbacks, refinement of a reference cursor",
 "C11": "deterministic simulation of attempt histories with faults and crashes, history check",
 "C12": "deterministic simulation with faults and crashes, exactly-once history check",
 "C13": "deterministic simulation: seeded statement-level scheduling of independent tasks, compared with solo runs",
 "C14": "deterministic simulation with sub-reader faults, history check of errors",
 "C21": "deterministic simulation with storage faults on documents and statement-level scheduling, picks compared with a reference parser",
 "C22": "deterministic simulation of histories that read and describe, with faults, crashes and statement-level scheduling, compared with the composition",
 "C15": "deterministic simulation with storage faults on documents and statement-level scheduling, compared with encoding/json",
 "C16": "deterministic simulation with storage faults on documents and crashes, refinement of a reference reader",
 "C17": "deterministic simulation with sub-reader faults, conservation check",
 "C18": "deterministic simulation with storage faults on texts and crashes, refinement of a reference parser",
 "C19": "deterministic simulation of a faulty segment stream (reordering, loss), compared with a reference order",
 "C20": "deterministic simulation of histories with faults and a failing output, listings compared with an independent recording",
}

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props + NA:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="none: /repo has no hooks", enable="the checks build /repo with go build -overlay: instr/ writes copies of its files with a yield in front of every statement into a temporary folder; /repo itself is not touched", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
     evidence_file="evidence/%s.json" % p["id"], technique=tech[p["id"]], level="exploration", level_note=level + trust[p["id"]]) for p in props],
  not_applicable=[dict(property=p["id"], reason=reasons[p["id"]]) for p in NA],
  notes="Violations are stored minimised under replays/ and repeated with ./replay.sh FILE. KNOWN_FINDINGS.txt lists findings and repaired defects.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
