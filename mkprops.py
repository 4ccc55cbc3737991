#!/usr/bin/env python3
"""Generator of properties.jsonl (kept so the text is edited in one place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe,hook_needed=None)))
CI="cffi-interface/"; H=CI+"trace-db/"
p("C01","Reading a trace yields exactly what was recorded",
  "For every well-formed binary trace file, reading it (directly or into a database) succeeds and exposes exactly the recorded content: every name, every type name in order, and every point in order with its statement id, its variables in order (name, type, format, size, value bit pattern, with signed integers sign-extended and unsigned ones zero-extended), and its auxiliary values in order. Nothing is lost, duplicated, reordered, or mixed between points, names, types or traces, no matter how many points share equal data or how large the trace, a point, or a blob is.",
  ["inputs","histories"],"all well-formed traces: any names, types of every format and width, entry mixes, counts and value patterns, read alone or after arbitrary earlier reads in the same process",
  "The unit tests read a handful of hand-made objects through string streams; they never read a file through the C interface and cannot range over formats, widths, entry mixes, sharing of equal points and sizes.",
  [H+"Trace.hpp",H+"TracePoint.hpp",H+"TraceVarInfo.hpp",H+"TypeDescription.hpp",CI+"trace.cpp"],
  [("binary readers",H+"*.hpp read()"),("conversion of points to C arrays",CI+"trace.cpp points_to_array"),("flyweight sharing",H+"TracePoint.hpp")],
  ["read_trace","trace_size","get_points","get_names","get_types","n_names","n_types","add_trace"])
p("C02","Binary write then read gives back an equal trace",
  "Writing any trace held in memory in the binary format and reading the bytes back yields a trace with the same names, types, points, values, recorded allocations and auxiliary values, for every type format and width, including fixed-size and variable-size blobs and empty or huge ones. Writing the re-read trace again gives the same bytes.",
  ["inputs"],"all traces that the reader accepts or that can be built from valid names, types and points, except that an allocation record that follows a pointer variable inside one point may change only that pointer's buffer size",
  "Existing tests round-trip one object per class; format x width x blob-kind x position combinations are not sampled.",
  [H+"Trace.hpp",H+"TracePoint.hpp",H+"TraceVarInfo.hpp",H+"TraceBufferSize.hpp",H+"TypeDescription.hpp"],
  [("stream writers",H+"*.hpp write()"),("stream readers",H+"*.hpp read()")],["operator<< on Trace","Trace(std::istream&)"])
p("C03","A database survives serialization unchanged",
  "Serializing any database to text and deserializing it, in the same or in a fresh process, yields a database with the same traces in the same order, holding the same names, types, points, variables (including blob contents and buffer sizes) and auxiliary values. Queries against the restored database give the same results as against the original, and serializing it again gives the same text.",
  ["inputs","histories"],"all databases built by any sequence of adds (files and in-memory points), any names (spaces, newlines, any non-NUL byte), blobs with any bytes, shared and distinct points",
  "The tests archive one tiny object per class; the C-level serialize/deserialize pair is not called at all, and sharing across points/traces, arbitrary bytes and a fresh process are never exercised.",
  [CI+"trace-db.cpp",H+"TraceDB.hpp",H+"Trace.hpp",H+"TracePoint.hpp",H+"TraceVarInfo.hpp"],
  [("text archive save/load",H+"*.hpp save/load/serialize"),("C entry points",CI+"trace-db.cpp serialize_trace_db/deserialize_trace_db")],
  ["serialize_trace_db","deserialize_trace_db","get_points","query_trace"])
p("C04","Arbitrary input bytes never crash or corrupt the reader",
  "For every sequence of bytes offered as a trace file, reading it terminates and either fails in the documented way or yields a trace that can be inspected, written, serialized, queried and freed. No memory error, undefined behaviour, uninitialised data, abort, hang, or allocation failure escaping to the caller ever results, and the same bytes always give the same outcome.",
  ["inputs"],"all byte strings, especially structure-aware corruptions: bad indices, tags, formats, widths, unterminated dictionaries, oversized counts and lengths",
  "Only well-formed input is read by the existing tests, without sanitizers, so out-of-range indices, lengths and missing terminators are never tried.",
  [H+"Trace.hpp",H+"TracePoint.hpp",H+"TraceVarInfo.hpp",H+"TypeDescription.hpp",H+"MemoryMap.hpp",CI+"trace.cpp"],
  [("validation in readers",H+"*.hpp read()"),("exception barrier",CI+"trace.cpp read_trace, "+CI+"trace-db.cpp add_trace")],
  ["read_trace","add_trace","sanitizer reports","process status"])
p("C05","Cut or failing input never yields fabricated data",
  "When the input ends early, reading fails if the cut lies inside the header or inside an entry; if it lies between two entries, exactly the points completed before the cut are returned, byte for byte as in the complete trace. When a read reports an I/O error the whole read fails, and input arriving in arbitrarily small pieces is read as if it came in one piece.",
  ["inputs","fault_sequences","crash_points"],"every cut position of every well-formed trace, every read call failing, and every way of chopping the input into short reads",
  "Tests never truncate input nor inject short or failing reads.",
  [H+"Trace.hpp",H+"TracePoint.hpp",H+"TraceVarInfo.hpp",H+"Utils.hpp"],
  [("BINARY_READ stream checks",H+"Utils.hpp"),("end-of-trace handling",H+"Trace.hpp read")],["read_trace result for each prefix","read_trace under injected read() faults"])
p("C06","A query returns exactly the matching bindings, in order",
  "For every trace, list of free variables and hard predicate, the results are exactly the assignments, at each selected point, of one of that point's variables with an allowed type to every free variable that satisfy the predicate: none missing, none invented, each exactly once. Each result carries its point's statement id and auxiliary values and the bound variables in free-variable order with unchanged values, results follow trace order, and with no free variables each selected point gives exactly one result, with its statement id and no variables.",
  ["inputs"],"all traces, free-variable lists (empty, duplicate, unsatisfiable type sets, repeated types), and well-typed predicates",
  "Existing query tests cover three or four fixed predicates over one sample trace, with almost no multi-variable product, mixed types or no-variable queries through the C interface.",
  [H+"Trace.hpp",H+"TracePoint.hpp",CI+"trace-db.cpp"],
  [("cartesian product and filtering",H+"Trace.hpp cartesian/collectResultsAtPoint"),("C conversion",CI+"trace-db.cpp query_trace")],["query_trace"])
p("C07","Predicates are evaluated with exact semantics",
  "Integer values, constants, sums, differences and products of any sign, width and magnitude are combined and compared exactly, without wrap-around or sign confusion; floats of either width take part with their own value, and quotients and mixed integer/float operations are computed as real numbers, exactly when the result has at most 40 significant digits and to at least 40 digits otherwise. A comparison with an undefined operand (size of a variable with no known buffer, value of a blob, division by zero, or anything computed from these, or a NaN) is false; and/or/not, distinct-variables, size and value have their usual meaning.",
  ["inputs"],"all well-typed predicate trees over all variable formats, widths and values",
  "The tests evaluate a few predicates over small positive integers; wide, negative, mixed-sign, float, undefined and deeply nested operands are not covered.",
  [H+"QueryObjects.hpp",CI+"trace-db.cpp"],
  [("PredicateValue arithmetic",H+"QueryObjects.hpp PredicateValue"),("EvaluatePredicate",H+"QueryObjects.hpp EvaluatePredicate"),("C conversion of predicates",CI+"trace-db.cpp create_predicate_obj")],["query_trace"])
p("C08","Query answers do not depend on earlier activity",
  "A query's answer depends only on the queried trace and the query's own arguments. Any earlier or interleaved queries, adds, serializations and frees, on this or other databases in the process, leave it unchanged, even a query that failed for lack of memory, and repeating a query gives the same answer.",
  ["histories"],"all interleavings of queries (with similar and different predicates, masks, seeds), adds, frees and (de)serializations in one process, with memory being reused",
  "A test runs a fixed short sequence per process; results cached across queries, traces and freed objects show only over long histories with address reuse.",
  [H+"TracePoint.hpp",H+"Trace.hpp",H+"QueryObjects.hpp"],
  [("per-process predicate result cache",H+"TracePoint.hpp cachedSatisfiesPredicate"),("per-trace statement filter cache",H+"Trace.hpp getPoints(mask,statement)"),("flyweight factories",H+"TracePoint.hpp, "+H+"TraceVarInfo.hpp")],["query_trace"])
p("C09","Soft predicates keep exactly the best bindings per point",
  "When soft predicates are given, the results at each point are exactly those bindings satisfying the hard predicate that satisfy the largest number of soft predicates attained at that point. No best binding is dropped, none with a smaller count is kept, and a point whose best count is zero still yields all its hard matches.",
  ["inputs"],"all traces, hard predicates and lists of soft predicates",
  "One or two fixed soft-predicate cases are tested through C++ only; ties, zero maxima, many predicates and interplay with binding order are not.",
  [H+"Trace.hpp",CI+"trace-db.cpp"],[("soft filter",H+"Trace.hpp collectResultsAtPoint")],["query_trace"])
p("C10","Statement filter, random pick and deduplication",
  "Only points whose statement id masked with the given mask equals the given statement contribute results. With a non-zero seed the results are exactly those of one such point, the same one whenever trace and arguments are the same, and across seeds every such point can be picked. Without keep-duplicates, exactly the first result of each group with equal statement id and equal list of bound (variable name, type) is returned, in order.",
  ["inputs"],"all traces, masks, statements, seeds and keep-duplicates settings, alone and combined",
  "Seeds and masks are tested with single fixed values, deduplication only for trivial inputs; reachability of every point and near-duplicates are not sampled.",
  [H+"Trace.hpp",CI+"trace-db.cpp"],[("mask filter",H+"Trace.hpp getPoints"),("seeded pick",H+"Trace.hpp query"),("deduplicate_results",CI+"trace-db.cpp")],["query_trace"])
p("C11","Pointer buffer sizes follow the recorded allocations",
  "At every recorded pointer variable, the reported buffer size is the number of bytes from its value to the end of the live allocation with the greatest base not above it, where an allocation record adds or replaces the size for its base and a zero-size record removes it; there is no buffer size when no such allocation exists or the value lies beyond its end (one past the end gives 0). This holds for every sequence of records in a trace, and allocations of one trace never influence another.",
  ["inputs","histories"],"all sequences of allocation, resize, free and pointer records, at any addresses (including 0; the all-ones address is never part of an allocation, and sizes are below 2^64-1) and in any order",
  "The memory-map tests insert a few entries; ordering, re-insertion after removal, level changes and long sequences in the randomized index are not exhausted.",
  [H+"MemoryMap.hpp",H+"TracePoint.hpp",H+"TraceVarInfo.hpp"],[("skip list",H+"MemoryMap.hpp")],["read_trace/get_points buffer_size","MemoryMap::computeBufferSize"])
p("C12","Traces added concurrently are all stored intact",
  "When several threads add traces to one database (or read separate traces) at the same time, every successful add contributes exactly one trace with exactly its own content, failed adds contribute none, and no data race occurs. Threads working on separate databases, whatever they do (read, add, query, serialize, release), do not disturb each other.",
  ["schedules"],"all schedules of concurrent add_trace, add_trace_points and read_trace calls on shared and of all calls on separate databases, from any number of threads",
  "No test uses more than one thread, although adding traces from several threads is an explicit design goal.",
  [H+"TraceDB.hpp",H+"TracePoint.hpp",CI+"trace-db.cpp"],[("database mutex",H+"TraceDB.hpp addTrace"),("thread-safe flyweight factories",H+"TracePoint.hpp")],["add_trace","read_trace","n_traces","get_points","ThreadSanitizer reports"])
p("C13","A failed add or read leaves everything as it was",
  "When a trace cannot be opened, times out, is malformed, hits an I/O error or runs out of memory, the call reports failure without terminating the process. The database afterwards holds exactly the traces it held before, unchanged, and keeps accepting adds and answering queries correctly.",
  ["fault_sequences","histories"],"every failing call site (open, wait, read, allocation) at every position in every add/read, in any history",
  "No test makes an add fail at all, let alone at each allocation or read.",
  [CI+"trace.cpp",CI+"trace-db.cpp",H+"TraceDB.hpp",H+"Utils.hpp"],[("exception barriers",CI+"trace.cpp, "+CI+"trace-db.cpp"),("openWithTimeout error path",H+"Utils.hpp")],["read_trace","add_trace","n_traces","get_points"])
p("C14","Memory and descriptors are released",
  "After everything obtained from the interface has been released (traces, databases, point arrays, query results, predicates, strings, name and type arrays), repeating the same sequence of operations, including failing ones, does not increase the memory or the number of file descriptors held by the process. No operation releases memory twice or uses it after release.",
  ["histories","fault_sequences"],"all sequences of operations, successful and failing, followed by the documented releases, repeated any number of times",
  "Leaks and double releases are invisible to assertions and need repetition and error paths that tests do not run.",
  [CI+"trace.cpp",CI+"trace-db.cpp",H+"TraceVarInfo.hpp",H+"MemoryMap.hpp",H+"Utils.hpp"],[("free_* entry points",CI+"trace.cpp, "+CI+"trace-db.cpp"),("destructors",H+"MemoryMap.hpp, "+H+"TraceVarInfo.hpp"),("close-on-destroy streams",H+"Utils.hpp")],["live heap bytes","/proc/self/fd","LeakSanitizer"])
p("C15","Waiting for input obeys the timeout and loses nothing",
  "Reading from a FIFO waits for a writer and data: with a timeout of t>0 seconds it fails after about t seconds if no data arrives, and with 0 it waits indefinitely. Once data arrives in time, the complete trace is read whatever the writer's pace and chunking; a missing or unreadable file fails promptly; all of this holds for any number of descriptors already open and when signals with restarting handlers arrive while waiting.",
  ["schedules","configurations","inputs"],"all writer timings and chunkings, timeouts, descriptor numbers and signal arrivals",
  "One test reads a regular file; timing, slow writers, many descriptors, and signals are not exercised.",
  [H+"Utils.hpp",CI+"trace.cpp",CI+"trace-db.cpp"],[("openWithTimeout",H+"Utils.hpp")],["read_trace","add_trace on FIFOs, wall clock"])
p("C16","The point limit yields exactly the first points",
  "Reading with a limit n>0 returns exactly the first min(n, total) points, identical to the first points of an unlimited read, with all names and types; 0 means no limit. Whatever follows the n-th point (further bytes, the end of the input, an input error, or a writer that keeps the pipe open) is not interpreted and cannot make the read fail or wait.",
  ["inputs"],"all traces, all limits (including 1, total-1, total, total+1 and the largest), and arbitrary bytes after the n-th point",
  "The limit is not used in any existing test.",
  [H+"Trace.hpp",CI+"trace.cpp",CI+"trace-db.cpp"],[("point loop",H+"Trace.hpp read")],["read_trace/add_trace with max_points"])
p("C17","Equality, hashing and ordering agree with content",
  "Two databases, traces, points, point data, variables, allocation records or type descriptions compare equal exactly when all of their observable content is equal (blob contents by bytes, other values by their type's width), and equal objects hash equally. Ordering, where offered, is a strict weak order (irreflexive, asymmetric, transitive), for all mixes of formats and sizes.",
  ["inputs"],"all pairs and triples of objects, especially ones differing in one component only",
  "Tests compare a few pairs; single-component differences in every field, blobs of different length and mixed formats are not enumerated.",
  [H+"TracePoint.hpp",H+"TraceVarInfo.hpp",H+"TypeDescription.hpp",H+"TraceBufferSize.hpp",H+"Trace.hpp",H+"TraceDB.hpp"],[("operator==, operator<, hash_value",H+"*.hpp")],["operators on C++ objects"])
p("C18","Trace points of concurrent or killed programs stay whole",
  "When several threads of an instrumented program record trace points, the file written by the instrumentation runtime contains every point exactly once, in each thread's order, with the entries of one point never interleaved with another's. If the program is killed at any moment, reading the file written so far returns every point whose recording had completed, unaltered, or fails cleanly, the latter only when the kill came before the first point was complete or tore a point being written.",
  ["schedules","crash_points"],"all schedules of recording threads and all kill moments",
  "The Lisp tests that run instrumented programs cannot run here, are single-threaded and never kill the program.",
  ["instrumentation/c-cpp.lisp",H+"Trace.hpp"],[("runtime lock and flush per point","instrumentation/c-cpp.lisp +write-trace-implementation+")],["trace file read by read_trace"])
p("C19","What an instrumented program records is what is read back",
  "Every value handed to the instrumentation runtime (integers of each width and sign, float, double, pointers, blobs, buffer sizes, statement ids) together with the names and types declared in its header is returned unchanged by reading the produced file or pipe, including when the output path comes through the handshake file. This holds for any number of names, types, variables per call and points.",
  ["programs","inputs","configurations"],"all programs calling the runtime with any combination of declarations and values, writing to files, pipes or handshake-selected outputs",
  "The runtime is C text inside a Lisp file; the runnable tests never compile it.",
  ["instrumentation/c-cpp.lisp",H+"Trace.hpp",H+"TraceVarInfo.hpp"],[("runtime writer","instrumentation/c-cpp.lisp +write-trace-implementation+"),("reader",H+"*.hpp read()")],["trace file read by read_trace"])
p("C20","The Lisp binding's view of the C interface is accurate",
  "Every function, structure and enumeration declared on the Lisp side for the shared library matches the library's actual names, argument and result types, layouts and constants, so that data passed or read according to these declarations has the values the library means. This holds for every field, enumeration constant and function of the binding.",
  ["inputs","programs"],"all declared functions, fields and constants, exercised with distinctive values in every field",
  "The C++ tests never load the declarations, and the Lisp tests cannot run here; disagreement shows only for particular fields, kinds or value ranges.",
  ["binary-trace-db.lisp",CI+"trace.h",CI+"trace-db.h",H+"QueryObjects.hpp",H+"TypeDescription.hpp"],[("CFFI declarations","binary-trace-db.lisp"),("C structs",CI+"trace.h, "+CI+"trace-db.h")],["shared library driven through a binding built from the Lisp declarations"])
p("C21","A database keeps its traces in order and intact",
  "The i-th successful add (from a file or from in-memory points) is the i-th trace of the database, and all earlier traces keep their content however many are added. In-memory points are stored faithfully: all names, and each point's statement id, auxiliary values, and variables in order with name, type, value and buffer size.",
  ["histories","inputs"],"all sequences of adds of either kind, of any sizes, up to thousands of traces",
  "No test calls add_trace or add_trace_points; growth, mixing both kinds, and in-memory conversion are not exercised.",
  [CI+"trace-db.cpp",H+"TraceDB.hpp"],[("trace vector",H+"TraceDB.hpp addTrace"),("in-memory conversion",CI+"trace-db.cpp add_trace_points")],["n_traces","get_trace","get_points","get_names","get_types"])
p("C22","A printed predicate shows the predicate that was built",
  "Printing any predicate terminates normally and gives an S-expression that, read back, has the same operators, operand order, variable references and integer constants (floats to the printed precision). Every predicate kind can be printed.",
  ["inputs"],"all well-formed predicate trees of every kind, arity and depth",
  "Tests print one or two fixed predicates; several operators are never printed.",
  [H+"QueryObjects.hpp"],[("writePredicate",H+"QueryObjects.hpp")],["operator<< on Predicate"])
p("C23","The Lisp databases return what was added",
  "Every trace added to a Lisp database, binary or S-expression, from a file or as points, is returned with exactly its points (statement, file, variables in order with name, type, value and buffer size, auxiliary values) and its own metadata, whatever was added before or after, after failed adds, after the database was stored and restored, and through a view restricted to one file, which shows exactly the points of that file. Counts, sizes and type names agree with the content, and indices out of range are refused.",
  ["histories","inputs"],"all sequences of adds of either kind (good and failing), retrievals, stores, restores and restrictions, with names of any text and values of every format",
  "The Lisp tests cannot run here and sample a few fixed traces; order of metadata, failing adds, negative values, restored and restricted databases are not covered.",
  ["binary-trace-db.lisp","sexp-trace-db.lisp","trace-db.lisp"],[("conversion of foreign points","binary-trace-db.lisp convert-trace-points"),("metadata lists","binary-trace-db.lisp, sexp-trace-db.lisp add-trace, add-trace-points"),("cl-store methods","binary-trace-db.lisp")],["add-trace","add-trace-points","get-trace","n-traces","trace-size","trace-types","restrict-to-file","read-binary-trace"])
p("C24","Instrumenting preserves program behaviour and can be undone",
  "For every instrumentable C/C++ program, the instrumented program behaves as the original apart from writing its trace, records a point for each executed statement, and removing the instrumentation restores the original text.",
  ["programs"],"all C/C++ programs and instrumentation options",
  "The Lisp tests cannot run here and use fixed example programs.",
  ["instrumentation/c-cpp.lisp","instrumentation/instrument.lisp"],[("instrument / uninstrument","instrumentation/instrument.lisp")],["instrumented program output"])
p("C25","Exactly the well-formed traces are accepted",
  "Reading accepts a byte sequence exactly when it follows the trace format: a name dictionary whose last name is terminated, types whose names exist and whose formats are defined, and complete entries with defined tags, existing names and types, and values whose width is one the format defines (integers 1, 2, 4 or 8 bytes, floats and pointers 4 or 8, blobs any). An accepted sequence yields exactly the content the format defines for it (a point that ends without a statement entry has statement id 0, and entries after the last end-of-point are ignored); any departure before the end, or before the requested number of points, makes the read fail as a whole.",
  ["inputs"],"all byte strings, especially ones with a single departure from the format (buffer sizes below 2^64-1)",
  "The tests read well-formed objects only, so an accepted malformed trace, a rejected well-formed one or a misread one is never seen.",
  [H+"Trace.hpp",H+"TracePoint.hpp",H+"TraceVarInfo.hpp",H+"TypeDescription.hpp",H+"TraceBufferSize.hpp",CI+"trace.cpp",CI+"trace-db.cpp"],
  [("validation in readers",H+"*.hpp read()"),("end-of-trace handling",H+"Trace.hpp read")],["read_trace","add_trace"])
p("C26","Lisp queries return exactly what is asked",
  "A query of a Lisp database returns exactly the bindings asked for: variables whose type name is one of the allowed names (names unknown to the trace allow nothing), satisfying the predicate and maximising the soft predicates at each point (binary databases), in points of the given file or of the restricted view's file, and passing the filter. Results with the same statement and the same names and types of bound variables appear once, a pick returns the results of a single point, and the trace's metadata is attached.",
  ["inputs","histories"],"all databases and combinations of types, predicates, soft predicates, files, picks, seeds and filters",
  "The Lisp tests cannot run here and sample fixed queries; types sharing a name, unknown names, points without file, rare seeds and names differing in case are not covered.",
  ["binary-trace-db.lisp","sexp-trace-db.lisp"],[("query-trace methods","binary-trace-db.lisp, sexp-trace-db.lisp"),("build-predicate","binary-trace-db.lisp")],["query-trace"])
p("C27","The Lisp layer releases what it takes from the library",
  "Every foreign object the Lisp layer obtains or allocates (traces, point arrays, names, types, texts, predicates, argument arrays and strings) is released exactly once, by the matching function, before the operation returns, whether the operation succeeds or fails. A database is released exactly once, when its Lisp object is no longer used, whether created or restored; restricted views release nothing, and nothing is used after its release.",
  ["histories"],"all sequences of adds, queries, retrievals, reads, stores and restores, successful and failing",
  "Leaks and double releases are invisible to the Lisp tests, which cannot run here.",
  ["binary-trace-db.lisp"],[("foreign-free, free_* calls and finalizers","binary-trace-db.lisp")],["calls of the foreign interface"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
