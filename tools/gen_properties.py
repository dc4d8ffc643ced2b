#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = "include/parser/parser_impl.hpp"; V = "include/common/value_impl.hpp"; VH = "include/common/value.hpp"
A = "include/common/array_impl.hpp"; O = "include/common/object_impl.hpp"; U = "include/common/utils.hpp"
J = "include/reflection/jsonization.hpp"; E = "include/common/enum_reflection.hpp"; B = "include/parser/packed_bytes.hpp"
X = "include/parser/packed_bytes_x86.hpp"; T = "include/parser/bitops.hpp"
rows = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    rows.append({"id": id, "title": title, "statement": statement,
                 "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                 "anchors": {"files": files,
                             "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                             "mechanism": [{"name": n, "where": w} for n, w in mech],
                             "observe_at": observe, "hook_needed": hook}})

prop("C01", "A saved document reloads as the same document",
 "Every document whose root is an array or an object, written in compact form, in pretty form with any indentation, or by stream insertion, is valid JSON text, and loading that text back - from memory, a stream or a file, in strict or comment-accepting mode, with or without a byte-order mark when asked to check for one - yields an equal document with the same element order, keys, string bytes and number text. "
 "This holds however the bytes travel: any stream buffer size, short reads and writes, interrupted system calls, and repeated save/restart/load generations.",
 ["inputs", "histories", "schedules"],
 "All documents built from the public API (finite numbers; nesting within the thread's stack), all writers and loaders, all ways the transfers can be split or interrupted, any number of generations.",
 "The tests round-trip a handful of literals through std::string and one file with default buffering; they never split a transfer, never place an escape at a buffer or vector boundary and never run more than one generation.",
 [P, V, A, O, U], [("raw text of scalars", "number text and string bytes are kept verbatim", V)],
 [("escaping", U + " append_escaped_string"), ("dump/format", V + ", " + A + ", " + O), ("stream load", P + " parse(std::istream&)")],
 ["bytes that reach the sink", "document returned by the loader"])

prop("C02", "An interrupted save is never mistaken for a document",
 "If writing a document stops part-way (crash, full disk, failing sink), what reached storage is a prefix of the complete text, and loading any proper prefix of it, also one padded with zero bytes, reports failure instead of returning a document. "
 "The stream written to reports the failure, the in-memory document is unchanged, and writing it again to a healthy sink succeeds.",
 ["crash_points", "fault_sequences", "inputs"],
 "All documents with array or object root, every byte position at which the save can stop, every way the sink can fail there (short write, error, exception), every loader and mode.",
 "No test writes to a failing sink or loads a torn file; unit tests can only sample a few of the crash points.",
 [P, V, A, O], [], [("single write of the finished text", V + " operator<<"), ("closing bracket required", P + " parse_array/parse_object")],
 ["stream state", "bytes on the simulated disk", "result of reloading them"])

prop("C03", "Damaged bytes load as exactly what they say, or not at all",
 "Loading a byte sequence returns a document exactly when the bytes are one JSON array or object (RFC 8259 grammar, no duplicate keys, paired surrogate escapes, no raw control characters in strings, only white space after the root up to the end of the text or to a NUL byte), namely the document they denote (within the nesting depth that the call stack permits); comment-accepting mode additionally allows // and /* */ comments wherever white space may stand and one trailing comma in a non-empty array or object. "
 "No damage to stored bytes (flipped, lost, zeroed, duplicated, reordered or truncated blocks) makes loading crash, hang, read outside the bytes or return any other document.",
 ["inputs", "fault_sequences", "crash_points"],
 "All byte sequences that storage faults can leave behind (nesting up to a few hundred levels), both modes, every loader.",
 "The tests parse a few dozen fixed strings; acceptance and meaning must be right for every damaged text.",
 [P, B, X], [("parse position", "cursor and end of the text being read", P)],
 [("recursive-descent parser", P), ("comment skipping", P + " skip_comment"), ("surrogate pairing", P + " skip_unicode_escape")],
 ["optional returned by the loaders", "sanitizer reports"])

prop("C04", "A failed read is never reported as a document",
 "When the source of a load cannot be opened, positioned or measured, reports a device error, ends early or changes size during the load, loading returns no document or one that the source's complete content (before or after the change; a source that shrinks keeps at least what was already read) denotes; it never returns a document assembled from part of the content, and never throws unless the caller enabled exceptions on the stream. "
 "Transient interruptions and short reads do not change the result, and loading a seekable stream always starts from its beginning wherever it was positioned.",
 ["fault_sequences", "inputs", "configurations"],
 "All contents (valid or not), all fault points and kinds during open, positioning, size query and reading, all initial stream states and exception masks, stream and file loaders.",
 "Tests only load healthy files and string streams.",
 [P], [("stream state", "good/eof/fail/bad bits decide whether the bytes count", P)], [("stream load", P + " parse(std::istream&)"), ("file load", P + " open")],
 ["optional returned", "exceptions escaping", "stream state"])

prop("C05", "Loading depends on the bytes alone",
 "The result of loading text depends only on its bytes and the chosen mode: not on the container that holds them (string, view, byte vector, deque, C string, literal), on its alignment or the memory around it, nor on which vector-instruction path (none, 32-bit, 64-bit, SSE2, SSE4.1, AVX2) the build selects. "
 "No byte outside the given range is read, and the loaded document does not refer to the input afterwards.",
 ["configurations", "inputs", "schedules"],
 "All texts, all placements and neighbouring contents, all containers and acceleration paths available on the machine.",
 "Tests run in one build configuration and let the allocator place every buffer.",
 [P, B, X, T], [], [("accelerated literal skipping", P + " skip_string_literal_with_accel"), ("packed byte traits", B + ", " + X), ("bit counting", T)],
 ["result of every variant", "guard pages around the input"])

prop("C06", "A failed allocation corrupts and leaks nothing",
 "If memory allocation fails at any point inside an operation on documents (construction, copy, assignment, element creation, insertion, append, merge, serialisation, parsing, conversion, type check), the operation reports std::bad_alloc or completes with its normal result; the process is not terminated and no memory is leaked. "
 "Documents that the operation only reads are unchanged, and a document it modifies stays well formed with each element holding its old or its new content (after a single assignment, insertion, append or erase: exactly the old or the new state, except that a null or empty value being turned into a container may be left as the empty container). "
 "Retried once memory is available, the operation succeeds with its normal result.",
 ["fault_sequences", "histories", "inputs"],
 "All operations of the public API, all reachable operand states, every allocation index at which failure can start, transient or lasting failure.",
 "No test ever fails an allocation.",
 [V, VH, A, O, P, J], [("kind tag and payload", "must change together", V)], [("build-then-commit assignment", V), ("container conversion on first write", V + " as_array/as_object")],
 ["exception type", "operands after the failure", "live allocation count", "process exit"])

prop("C07", "A document behaves as a simple tree through any history",
 "Through any sequence of public operations (indexing, emplace, erase, clear, append, merge, assignment also of a document's own parts, path lookup with defaults, type-checked find, iteration, comparison), with failing ones in between, the contents of every document and every query result equal those of a plain tree model in which arrays are sequences, objects are key-sorted maps whose later writes replace earlier ones, and empty values become containers on first write access. "
 "An access of the wrong type or a checked access out of range throws and changes nothing else.",
 ["histories", "fault_sequences", "inputs"],
 "All finite operation histories over several documents, with operations failing (wrong type, out of range, failed allocation) at arbitrary places.",
 "Tests check single operations on fresh literals; interactions between operations, failed steps and self-references are not sampled.",
 [V, VH, A, O], [("array elements", "sequence", A), ("object members", "sorted map", O)], [("merge helpers", O), ("append helpers", A), ("get/find helpers", V)],
 ["contents by iteration and serialisation", "query results", "exceptions"])

prop("C08", "Copies are independent, moves complete, sources preserved",
 "A copy of a document shares nothing with its origin: no later operation on, or destruction of, one affects the other. "
 "A move transfers exactly the original content and leaves a source that can be queried, printed, copied, assigned and destroyed safely, and assigning a document from its own descendant by copy or move yields that descendant's content. "
 "Converting a typed object that the caller has not moved (including optionals, smart pointers and pointees shared with other owners) into a document, or reading typed values out of a document that has not been moved, leaves the source unchanged.",
 ["histories", "fault_sequences", "inputs"],
 "All histories of copies, moves, swaps, conversions, mutations and destructions over several documents and typed objects, with failures in between.",
 "Tests look at one copy or move at a time and never look at the source again.",
 [V, VH, A, O], [("payload ownership", "each value owns its subtree", V)], [("deep copy", V + " deep_copy"), ("move operations", V), ("wrapper conversions", VH)],
 ["contents of both sides after later operations", "typed sources after conversion"])

prop("C09", "Concurrent readers of one document are safe",
 "Any number of threads may at the same time run read-only operations (type checks, lookups, typed conversion, iteration, comparison, copying, serialisation to strings or to separate streams) on the same document: under every interleaving each gets the result it would get alone, no data race occurs, and the document is unchanged.",
 ["schedules", "inputs", "programs"],
 "All interleavings of 2 to 4 reader threads, all documents, all mixes of read-only operations.",
 "The tests are single-threaded.",
 [V, A, O, U, E], [("const documents", "no mutable or static scratch state behind const operations", V)], [("const members without caches", V + ", " + A + ", " + O)],
 ["per-thread results against a solo run", "race detector", "document after the run"])

prop("C10", "Threads with their own documents never interfere",
 "Threads that parse, build, mutate, convert, serialise and destroy documents they own themselves - including copies taken from a common original, and using the same types and enums - produce under every interleaving exactly the results they would produce alone, without data races. "
 "This also holds when operations of some threads fail (malformed text, wrong type, failed allocation).",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of 2 to 4 threads with independent histories of operations, including failing ones.",
 "The tests are single-threaded.",
 [P, V, A, O, U, E], [("process-wide state", "only compile-time constant tables", E)], [("no shared mutable state", U + ", " + P)],
 ["per-thread results against a solo run", "race detector"])

prop("C11", "A failing conversion hook never yields a half-made result",
 "When a user-supplied conversion hook throws, or a from-hook reports failure, at any point of a (nested) conversion in either direction, the caller gets that exception, or json::exception where a from-hook reported failure, and never a partial result passed off as success; nothing leaks, the source is unchanged unless it was moved from, and a destination document keeps its old content. "
 "Where a check-hook says no, the enclosing type check is false, typed find returns nothing and get returns the default.",
 ["fault_sequences", "inputs", "histories"],
 "All nestings of user types inside containers, wrappers and reflected structs, every hook call at which the failure can occur, all failure kinds, both directions, copying and moving conversions.",
 "Tests use hooks that always succeed.",
 [J, VH, V, A, O], [], [("hook dispatch", VH + ", " + V + " as/is"), ("reflected structs", J + " dumper/checker/loader")],
 ["exception seen by the caller", "source and destination afterwards", "live allocation count"])

prop("C12", "Typed application state survives restarts",
 "Application state made of supported types (integers of width int and wider, booleans, floating-point numbers, strings, enums, nested structs with optional and renamed fields, sequences, sets, fixed arrays, maps, tuples, pairs, variants, optionals, smart pointers, paths) that was converted to a document and durably saved is restored after a crash and restart to a state equal to that of the last completed save, through any history of updates, saves and crashes. "
 "Floating-point values come back exactly when the precision-keeping option is on. A state with an enum value that has no name is refused with json::exception, never stored as another value (unless enums are stored as numbers).",
 ["histories", "crash_points", "inputs"],
 "All state values (finite numbers; variant alternatives distinguishable in JSON; enum values within the reflected range and outside), all histories of updates, saves, crashes during a save and restarts.",
 "Tests convert a few literals once, in memory.",
 [VH, V, A, O, J, E, U, P], [("durable state file", "serialised document", P)], [("typed conversion", VH + ", " + A + ", " + O), ("struct reflection", J), ("enum reflection", E)],
 ["restored state against the last acknowledged state"])

prop("C13", "Ambient locale changes never change the data",
 "Serialised text and the value read back for every number do not depend on the C or C++ locale of the process, on locales imbued in the streams used, or on locale changes that other parts of the program make between or during operations: output is valid JSON and identical to the output under the classic locale, and typed reads return the same values.",
 ["configurations", "schedules", "inputs"],
 "All numbers and documents, all locales (decimal comma, digit grouping), every instant at which the ambient locale can change, both floating-point formatting configurations.",
 "Tests run under the classic locale only.",
 [U, V], [("process locale", "ambient, changed by others", U)], [("number formatting", U + " to_basic_string"), ("number reading", V + " parse_floating")],
 ["serialised bytes", "typed reads"])

prop("C14", "A passed type check guarantees the conversion",
 "For a message from a peer that may be older, newer, damaged or hostile, a type check is true exactly when the document conforms to the type: right kinds, for integer types a number written as a plain integer literal within the range of the type, exact sizes for fixed arrays and tuples, known enum names, every required field present and conforming. "
 "After a passed check, converting the unmoved document succeeds with exactly the values in the document; after a failed one it throws json::exception, typed find returns nothing and get returns the default. "
 "Missing optional fields keep their previous values, and loading a struct that fails names the first offending field.",
 ["inputs", "fault_sequences", "histories"],
 "All messages that version skew, damage or malice can produce for the receiving schema, all supported types.",
 "Tests probe a few fixed mismatches.",
 [V, VH, A, O, J, E], [], [("type checks", V + " is"), ("conversions", VH + ", " + V), ("struct checks", J)],
 ["type check result against an independent conformance test", "converted values", "exceptions", "reported field"])

prop("C15", "Enum names convert both ways, ignoring case",
 "Every enumerator inside the reflected range (-128 to 128, or the range the enum states; a large value of an unsigned type counts as the negative number it wraps to) converts to its identifier, and the identifier back to it, whatever the supported underlying type (bool, int or wider), wherever the enum is declared, scoped or not, and however its values are ordered and spaced; of enumerators with equal values one stands for all. "
 "Names are also matched ignoring ASCII case, an exact match being preferred. A value without a name in the range and any other text are refused with json::exception, and the type check says so. "
 "It holds for enums inside containers, optionals, variants and structs, for messages of peers of other versions, damaged or hostile ones, and across saves, crashes and restarts.",
 ["inputs", "programs", "fault_sequences", "histories"],
 "All enums of a supported underlying type with identifiers in ASCII, all their values and all texts.", "Tests use three enums with a few small values.",
 [E, VH, V], [], [("compile-time name table", E + " enum_name_storage"), ("lookup", E + " enum_to_string, string_to_enum"), ("conversion and check", VH + ", " + V)],
 ["text and value of a conversion against the list of enumerators", "refusals", "state after a restart"])
prop("C16", "Only nesting costs stack, and a bounded amount per level",
 "Loading (well-formed or malformed text), copying, assigning, comparing, printing in every form, converting to and from the program's types, building, changing and destroying a document works on a thread with a small stack: in an optimised build 64 KiB plus 2 KiB for every level of nesting in the text or document are enough, whatever else is in it - any number of members, long strings, numbers and keys, runs of comments and white space. "
 "The result is the same as with plenty of stack. It also holds when an allocation fails or the source of the text ends or reports an error at any point.",
 ["inputs", "fault_sequences", "configurations"],
 "All texts and documents (any mixture of arrays and objects, thousands of levels or of members), all operations, every failing allocation and every point at which a stream ends.",
 "Tests nest a few levels and run with megabytes of stack.", [P, V, A, O, J], [("nesting", "recursion depth of the parser and of every walk over a document", P + ", " + V)],
 [("recursive descent", P + " parse_value"), ("recursive walks: copy, compare, print, destroy", V + ", " + A + ", " + O)],
 ["fault in the inaccessible memory below the granted stack", "result compared with that on a large stack"])
prop("C17", "Struct reflection works for any field list",
 "A struct whose list has 1 to 64 entries (fields, and the marks in front of them), in any order, with any mix of optional and renamed fields, of any supported types and names, through the one macro or the three, with fields of its own or of a base, in a class, a template or a namespace, reflects exactly these fields: "
 "its document has exactly the listed keys with the values of their fields; a message conforms exactly if every field that is not optional is present and every present one conforms, and the first that does not is named; loading it sets exactly the fields that are present, and what was saved comes back after a crash and restart.",
 ["programs", "inputs", "fault_sequences", "histories"],
 "All field lists of up to 64 entries, all values and messages.", "Tests use a few structs with a few fields.", [J], [], [("for-each macros", J + " _MEOJSON_FOR_EACH"), ("walks over the list", J + " dumper, checker, loader")],
 ["document of a struct, check and load of a message against the field list", "state after a restart"])
prop("C18", "The installed package is usable as is",
 "A project that finds the installed package compiles and links against it under every supported compiler, language standard and option set, with the headers included in any number of translation units.",
 ["configurations", "programs"], "All supported toolchains and option sets.", "One configuration is tested.",
 ["CMakeLists.txt", "meojson-config.cmake.in", "include/json.hpp"], [], [("install rules", "CMakeLists.txt")], ["consumer build"])
prop("C19", "No input makes the work grow faster than its size",
 "Loading (well-formed or malformed text, from memory or in pieces from a stream), building a document member by member (array elements or object members added or merged one after the other), copying, comparing, looking up every element, converting, printing, and removing elements from the end take a number of steps proportional to the size of the text, document and output involved, up to a logarithmic factor for object keys; converting into a type that contains itself may take that for every level of nesting. "
 "A failing allocation or a source that ends or reports an error does not make it more, and no input makes an operation go on without end.",
 ["inputs", "fault_sequences", "histories"],
 "All families of texts and documents that grow in any one direction (repeated tokens, long strings, numbers, keys, comments, white space, depth, width), all operations, failing allocations and device errors.",
 "No test measures cost, and small inputs hide it.", [P, V, A, O, U, J], [("parse position", "moves forward only", P)],
 [("single pass", P), ("amortised growth of containers", A + " operator+=, emplace_back"), ("logarithmic key lookup", O)],
 ["basic blocks executed, bytes moved and allocations made for inputs of size n, 2n and 4n"])

prop("C20", "The library can be used from within the functions that it calls",
 "When an operation calls a function of the application - a stream buffer that is read, positioned or written to, a conversion hook, an iterator or a member of a container of the application, a copy constructor, an assignment, a comparison, a destructor - that function may itself use the library: perform any operation on other documents and read the document that is being printed, to any depth, also when operations in there fail or throw. "
 "Every operation, the interrupted one and the inner ones, has the result it would have alone.",
 ["schedules", "histories", "inputs", "fault_sequences"],
 "All operations, all functions of the application that they call, every call in which something else may happen, all inner operations.",
 "No test uses the library from within such a function.", [P, V, VH, A, O, J, U], [], [("calls out", P + " parse, " + V + " operator<<, " + A + " and " + O + " conversions, " + J)],
 ["result of every operation against the model", "stored bytes"])

prop("C21", "The library works at any time in the life of a program and of its threads",
 "Every operation has the result it has anywhere else when it is performed by the constructor of a static object, by main, by a thread, by the destructor of a thread_local object of any thread, by a function registered with atexit, or by the destructor of a static object - also in a plug-in that is unloaded -, "
 "whatever was or was not done before in the process, in whatever order such objects were constructed and such functions registered, and whichever thread ends the process.",
 ["histories", "schedules", "inputs"],
 "All operations, all moments between the first static initialisation and the end of the process, all orders of construction and registration.",
 "Tests run in main only, and one order of everything.", [E, U, P, V, J], [], [("storage duration", E + " name tables, " + U + " and " + P + " static data")],
 ["result of every operation against the model", "exit of the process"])

prop("C22", "References into a document stay valid and refer to what they were taken for",
 "A reference or iterator to a member of an object stays valid until that member is erased or its object is replaced or destroyed: setting, adding, merging or erasing members, also setting this one, and any access leave it as it is. A reference to an array element stays valid until elements are added to the array or it or one before it is erased. "
 "Moving or swapping a value, object or array takes its members and elements along, with the references to them. References from as_object() and as_array() and views from as_string_view() stay valid until that content is replaced or moved. Reading, printing, comparing, converting and copying invalidate nothing, nor do operations that fail for lack of memory elsewhere. "
 "What is written through such a reference appears in the document it belongs to, and nowhere else: not in copies made before.",
 ["histories", "inputs", "fault_sequences"],
 "All histories of operations, all references, iterators and views taken at any time in them.",
 "Tests hold no references over several operations.", [VH, V, A, O], [("object members", "nodes of the member map", O), ("array elements", "vector of values", A)],
 [("stable storage", V + ", " + A + ", " + O)], ["addresses of members and elements", "content of documents and copies"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
print(len(rows), "properties")
