from props_a import P, B

P("C20", "Waiting for N successes out of many requests settles exactly right",
  "Collecting N accepted results out of M pending ones completes as soon as, and not before, N results have been accepted or all M have finished, for every order of completion and every mix of results, rejections and failures. "
  "The collected list contains exactly the non-failed results that finished up to that moment, each with the index of its request, in completion order. "
  "Asking for zero succeeds at once with nothing; asking for more than there are fails; late results are ignored.",
  ["schedules", "fault_sequences", "inputs"],
  "all completion orders, all assignments of accepted/rejected/failed to requests, all N and M up to a bound, requests finished before and after the call",
  "The test (not built here) completes requests with timers in a few fixed orders.",
  [B+"base/CollectNSucceeded.h", B+"base/CollectNSucceeded.inl"],
  [("completion and success counters in a shared context", B+"base/CollectNSucceeded.inl")])

P("C21", "Date arithmetic and ordering follow the calendar",
  "Converting a date to a day number and back is the identity for every valid date of the supported years, adding and subtracting days moves by exactly that many calendar days (leap years and centuries included), and subtraction undoes addition. "
  "Dates, times and date-times are totally ordered chronologically, consistently with equality and with their hash, and print in their canonical form.",
  ["inputs"],
  "every date of the supported years, day shifts around month, year and century boundaries, all pairs of boundary times",
  "Tests check a few shifts around one year; the calendar rules for century years and negative years are never exercised.",
  [B+"datatypes/Date.h", B+"datatypes/Date.cpp"],
  [("toInt/fromInt day count", B+"datatypes/Date.cpp"), ("operator< chain", B+"datatypes/Date.h")])

P("C22", "Time text and maps are parsed and validated exactly, and shifted by the zone",
  "A date, time or date-time given as text or as a map of components is accepted exactly when it denotes an existing calendar date and time of day in the documented ranges, and then yields exactly those components; everything else is rejected with an error and never silently normalised. "
  "Converting between local time and UTC applies the configured zone offset in opposite directions, so that the round trip is the identity, across day, month and year boundaries.",
  ["inputs", "configurations"],
  "all component maps over boundary values and types, all texts of a grammar of boundary components, all offsets of a grid",
  "Tests sample a few texts; rejection must hold for every malformed input and the zone shift for every boundary.",
  [B+"time/TimeUtils.h", B+"time/TimeUtils.cpp", B+"time/TimezoneInfo.h"],
  [("validateDate and component setters", B+"time/TimeUtils.h"), ("offset application", B+"time/TimeConversion.h")])

P("C23", "A dynamic value holds exactly its last assigned content in every history",
  "After any sequence of constructing, setting, copying, moving, assigning and clearing dynamic values of every type, each value reports the type it was last given and yields exactly that content; copies are independent of their source. "
  "Every owned object is released exactly once and nothing is read after release, including when a value is assigned a part of itself. "
  "Reading a value as a type it does not hold is rejected.",
  ["histories"],
  "all sequences of operations up to a depth over values of all types, including self-assignment and assignment from a nested element",
  "Tests cover each setter once; the matrix of (previous type, new type, way of assigning) and aliasing is not covered, nor are lifetimes.",
  [B+"datatypes/Value.h", B+"datatypes/Value.cpp"],
  [("tagged union with clear/construct", B+"datatypes/Value.cpp")])

P("C24", "Value equality, ordering and hashing are coherent",
  "Equality of dynamic values is reflexive and symmetric, equal values of the same type have the same hash, and ordering is irreflexive, asymmetric and transitive on values of each comparable type, with equality meaning neither is less. "
  "Copies compare equal to their source. Compound values (lists, maps, sets, vertices, edges, paths, rows) compare by their content in the order of their parts; floating-point numbers closer than 1e-8 count as equal and are exempt from the laws tying equality to hash and order.",
  ["inputs"],
  "all pairs and triples over an alphabet with values of every type, nested compounds and boundary numbers",
  "Laws over pairs and triples cannot be settled by the sampled comparisons in the tests.",
  [B+"datatypes/Value.cpp", B+"datatypes/Vertex.cpp", B+"datatypes/Edge.cpp", B+"datatypes/Path.h", B+"datatypes/List.h", B+"datatypes/Map.h", B+"datatypes/Set.h", B+"datatypes/DataSet.h"],
  [("operator== / operator< / hash specialisations", B+"datatypes/Value.cpp")])

P("C25", "Value arithmetic and logic follow the query language's rules",
  "Arithmetic, comparison and logical operators on dynamic values return, for every pair of operand types, the result the query language defines: exact integer and floating results, concatenation for strings and lists, date arithmetic, three-valued logic, null and empty propagation, and a bad-type null for unsupported pairs. "
  "Integer overflow and division or remainder by zero yield the corresponding error null and never wrap, trap or crash.",
  ["inputs"],
  "all operand pairs over an alphabet with every type, every null kind and boundary integers and floats, for every operator",
  "Tests list chosen operand pairs; the guarantee is over all type pairs and boundary values.",
  [B+"datatypes/Value.cpp"],
  [("operator dispatch by type pair with overflow checks", B+"datatypes/Value.cpp")])

P("C26", "Graph containers keep their structure under their editing operations",
  "Merging, appending, joining and reversing tables, rows and paths yields exactly the elements of the operands in the documented order, keeps every row aligned with the column names, and refuses operands that do not fit, leaving the target unchanged. "
  "A path reports a repeated vertex or edge exactly when there is one.",
  ["histories", "inputs"],
  "all short sequences of editing operations over small tables and paths over a two- or three-vertex alphabet",
  "Only a few examples are tested; alignment and refusal must hold for every shape of operands.",
  [B+"datatypes/DataSet.h", B+"datatypes/Path.h", B+"datatypes/Path.cpp", B+"datatypes/Vertex.h", B+"datatypes/Edge.h"],
  [("append/merge/reverse and duplicate detection", B+"datatypes/Path.cpp")])

P("C27", "Values survive the wire unchanged",
  "Encoding any dynamic value or graph structure and decoding the bytes yields an equal value of the same type and content (an edge's type is reduced to its direction), the decoder consumes exactly the encoded bytes, and the announced size is never smaller than what is written. "
  "The bytes follow the published interface definition: field numbers and types match it, so peers built from that definition read the same content. "
  "Unknown fields are skipped and absent fields leave defaults.",
  ["inputs", "configurations"],
  "all values over an alphabet of every type nested to a depth, both wire protocols in use, every single omitted or additional field",
  "Serialisation code is hand-written per type; tests round-trip one example and never check the bytes against the interface definition or foreign fields.",
  [B+"datatypes/ValueOps.inl", B+"datatypes/DateOps.inl", B+"datatypes/VertexOps.inl", B+"datatypes/EdgeOps.inl", B+"datatypes/PathOps.inl", B+"datatypes/ListOps.inl", B+"datatypes/MapOps.inl", B+"datatypes/SetOps.inl", B+"datatypes/DataSetOps.inl", B+"datatypes/HostAddrOps.inl", B+"datatypes/KeyValueOps.inl", B+"interface/common.thrift"],
  [("hand-written read/write/serializedSize", B+"datatypes/ValueOps.inl")])

P("C28", "Server responses survive the wire unchanged",
  "Encoding any authentication or execution response, with any combination of optional parts, plan descriptions and profiling data, and decoding the bytes yields an equal response; the announced size is never smaller than what is written. "
  "Field numbers and types match the published interface definition; unknown fields are skipped, and absent optional fields stay absent.",
  ["inputs", "configurations"],
  "all responses with each optional absent or present and boundary contents, both wire protocols, every single omitted or additional field",
  "There is no test of this hand-written code in the buildable set, and a wrong field number is symmetric in a self round trip.",
  [B+"graph/AuthResponseOps.inl", B+"graph/ExecutionResponseOps.inl", B+"graph/PlanDescriptionOps.inl", B+"graph/PlanNodeDescriptionOps.inl", B+"graph/PlanNodeBranchInfoOps.inl", B+"graph/ProfilingStatsOps.inl", B+"graph/PairOps.inl", B+"interface/graph.thrift"],
  [("hand-written read/write/serializedSize", B+"graph/ExecutionResponseOps.inl")])

P("C29", "Expressions survive storage and copying unchanged",
  "Encoding any expression and decoding the bytes yields an expression equal to the original, of the same kind, printing the same text and evaluating to the same result; so does copying it. "
  "A copy shares no mutable state with the original: changing one never affects the other. "
  "Expressions that differ in kind, operator, operand, name or constant compare unequal.",
  ["programs", "histories"],
  "all expression trees over an alphabet of every kind up to a depth, in pairs for inequality",
  "Tests encode one example per kind; stored default values must decode for every combination and nesting.",
  [B+"expression/Expression.cpp", B+"expression/Expression.h", B+"expression/ContainerExpression.cpp", B+"expression/CaseExpression.cpp", B+"expression/PredicateExpression.cpp"],
  [("writeTo/resetFrom/clone/operator== per kind", B+"expression/Expression.cpp")])

P("C30", "Expression evaluation follows the language semantics for all operands",
  "Evaluating an expression gives the value the query language defines for its operator and operand values, nulls, empties and type errors included: logical operators are three-valued and short-circuit, membership and containment agree with element equality, ranges and subscripts address the documented elements, cases pick the first match, and predicates, comprehensions and reductions visit every element once in order. "
  "Evaluation is repeatable: evaluating again in the same context gives the same result, and operands are not changed.",
  ["programs", "inputs"],
  "all expressions of depth one or two over an operand alphabet with every value type, evaluated twice and in alternating contexts",
  "Tests evaluate chosen examples once; results cached inside expression nodes make repeated evaluation and all operand combinations matter.",
  [B+"expression/RelationalExpression.cpp", B+"expression/LogicalExpression.cpp", B+"expression/SubscriptExpression.cpp", B+"expression/CaseExpression.cpp", B+"expression/PredicateExpression.cpp", B+"expression/ListComprehensionExpression.cpp", B+"expression/ReduceExpression.cpp", B+"expression/UnaryExpression.cpp", B+"expression/ArithmeticExpression.cpp", B+"expression/TypeCastingExpression.cpp"],
  [("eval with per-node result slot", B+"expression/LogicalExpression.cpp")])

P("C31", "Built-in functions accept exactly their signatures and never misbehave",
  "Every built-in function is found under its name in any letter case, accepts exactly the number of arguments it declares, and for every argument combination returns either the documented result or a typed null, never crashing, reading out of bounds or modifying its arguments. "
  "String and list functions (length, substring, left, right, pad, trim, replace, split, reverse, range, head, tail, last) agree with their definition on all boundary indices; pure functions are deterministic.",
  ["inputs"],
  "every registered function over all argument combinations from an alphabet with every type and boundary indices",
  "Tests call each function with a few good arguments; out-of-range and ill-typed combinations are the quantifier.",
  [B+"function/FunctionManager.h", B+"function/FunctionManager.cpp"],
  [("function table with arity bounds and signature types", B+"function/FunctionManager.cpp")])

P("C32", "Aggregate functions fold any sequence of inputs to the defined result",
  "For every sequence of input values, count, sum, average, max, min, standard deviation, bitwise and collecting aggregates return the result defined over exactly the non-null non-empty inputs, an ill-typed input makes the result a bad-type null, and an empty sequence gives the documented neutral result. "
  "Aggregation of one group is independent of other groups, and distinct aggregation counts each equal value once.",
  ["histories", "inputs"],
  "all input sequences up to a length over an alphabet with every relevant type and null kind, for every aggregate",
  "Tests fold one sequence per function.",
  [B+"function/AggFunctionManager.h", B+"function/AggFunctionManager.cpp", B+"expression/AggregateExpression.cpp"],
  [("per-function step on shared aggregate state", B+"function/AggFunctionManager.cpp")])

P("C33", "File utilities do what they report on any directory tree",
  "Making a directory creates all missing parents and reports success exactly when the directory exists afterwards; removing reports success exactly when the path is gone afterwards, follows no symbolic link out of the tree, and without recursion never removes a sub-directory's content. "
  "Listing and iterating return exactly the entries (iterating: those not hidden) or lines of the requested type and pattern, once each. "
  "Path joining, splitting, directory and base name functions obey their documented equations on every path string.",
  ["inputs", "histories", "fault_sequences"],
  "all small directory trees with files, directories and links, all path strings over a small alphabet up to a length, and every placement of a failing system call",
  "Tests create a few fixed trees and strings; link handling, failures in the middle and odd path strings are not covered.",
  [B+"fs/FileUtils.h", B+"fs/FileUtils.cpp"],
  [("remove/makeDir recursion, Iterator", B+"fs/FileUtils.cpp")])

P("C34", "Configuration lookups are typed and leave outputs untouched on failure",
  "Reading an item succeeds exactly when the key exists with the requested type (for arrays: when every element converts to it), and then yields the stored value; otherwise an error is returned and the caller's output is unchanged. "
  "Dumping a configuration and parsing the text gives the same configuration, comments and layout do not matter, and illegal text or unreadable files are reported as errors without changing the previous content. "
  "Updating a string item affects that item only.",
  ["inputs", "histories", "fault_sequences"],
  "all keys against items of every JSON type, all small documents with comments, and failing or short file reads",
  "Tests load one file and read each item with its right type.",
  [B+"conf/Configuration.h", B+"conf/Configuration.cpp"],
  [("type-checked fetch", B+"conf/Configuration.cpp")])

P("C35", "A background worker runs each accepted task once, in order, before it stops",
  "Every task accepted by a started worker before it is told to stop runs exactly once on the worker's thread, in submission order per submitter, and its future gets its result or exception; delayed tasks run once and not early if the worker is not stopped before, repeated tasks run every period until purged and never after purge has taken effect. "
  "Stop and wait terminate under every interleaving, leave no task running, and starting twice or stopping a stopped worker is refused.",
  ["schedules", "histories"],
  "all interleavings of submitting, purging, stopping and waiting threads with the worker thread and timer expiries up to a preemption bound",
  "The tests (not built here) run timing-dependent scripts once per run.",
  [B+"thread/GenericWorker.h", B+"thread/GenericWorker.cpp", B+"thread/GenericThreadPool.h", B+"thread/GenericThreadPool.cpp"],
  [("pending queues under mutex plus event notification", B+"thread/GenericWorker.cpp")])

P("C36", "A storage request reaches each part's leader once and accounts for every host",
  "Every id, key or part of a storage request is sent exactly once, to the leader of its partition and with the arguments given, which stay unchanged; a request fanned out to several hosts completes exactly once, after every host answered or failed, in every order, and a request for one part completes with that host's answer or an error. "
  "The result holds the responses of exactly the hosts that answered, marks as failed exactly the parts of unreachable hosts and those reported failed, and its completeness is the share of hosts without failure. "
  "The remembered leader of a part is replaced by the one a server names, and forgotten when the server is unreachable or does not know the part, only then, and before the request completes.",
  ["fault_sequences", "histories", "inputs"],
  "all placements, id lists and options within bounds for every kind of request, and all orders of sending, answering and handling for up to three hosts with every outcome (success, partial failure of each code, leader named or not, transport exception)",
  "Storage client code is not built or tested here without servers.",
  [B+"clients/storage/StorageClientBase.h", B+"clients/storage/StorageClientBase.inl", B+"clients/storage/GraphStorageClient.cpp", B+"clients/storage/GeneralStorageClient.cpp", B+"clients/storage/InternalStorageClient.cpp"],
  [("shared response context under a mutex; ids grouped by partition and leader", B+"clients/storage/StorageClientBase.inl")])

P("C37", "Schema layout places fields contiguously and finds them by name and position",
  "After adding any sequence of fields, each field starts where the previous one ends with the size its type requires, nullable fields are numbered consecutively, and look-ups by name and by position agree and reject everything else. "
  "Expiry information is given exactly when a column and a positive duration are set.",
  ["histories", "inputs"],
  "all sequences of added fields of every type and nullability up to a length, all look-ups, all expiry settings",
  "Schema code has no test in the buildable set.",
  [B+"meta/NebulaSchemaProvider.h", B+"meta/NebulaSchemaProvider.cpp"],
  [("offset accumulation and name index", B+"meta/NebulaSchemaProvider.cpp")])

P("C38", "Random sampling without replacement is uniform and bounded",
  "A reservoir sampler of capacity n holds the first items in order until full and afterwards exactly n different items of those seen, every choice of n of them, and so each item, being equally probable over the sequence of its random draws. "
  "Offering an item tells whether it was taken in, and taking the samples returns them all.",
  ["inputs", "histories"],
  "all sequences of random draws for capacities and stream lengths up to a bound, counted exactly",
  "A statistical test cannot distinguish small biases; enumerating all draw sequences decides uniformity exactly.",
  [B+"algorithm/ReservoirSampling.h"],
  [("replacement index draw", B+"algorithm/ReservoirSampling.h")])

P("C39", "Charset and collation look-ups are mutually consistent",
  "A character set or collation is accepted exactly when it is one of the supported names; the default collation of every supported set belongs to it, every supported collation belongs to exactly one supported set, and the pair check agrees with both. "
  "Unsupported names give an error naming them.",
  ["inputs"],
  "all pairs over supported names and near misses",
  "Tests check one pair of each kind.",
  [B+"charset/Charset.h", B+"charset/Charset.cpp"],
  [("description tables", B+"charset/Charset.h")])

P("C40", "Host address text conversions are exact inverses and reject malformed input",
  "Formatting an IPv4 number and parsing host lists agree with the dotted-quad and host:port notation for every value: lists print and parse back to the same addresses, blanks around items and empty items are ignored, and items without a port or with a malformed one are rejected. "
  "An address compares, hashes and orders consistently by host and port. "
  "Listing devices, resolving names and finding ports in use or free report exactly what the system answers, or an error.",
  ["inputs"],
  "every octet value in every position, all short host lists over an alphabet with well- and malformed items",
  "Tests convert a few addresses.",
  [B+"network/NetworkUtils.cpp", B+"datatypes/HostAddr.h", B+"datatypes/HostAddr.cpp"],
  [("toHosts/toHostsStr/intToIPv4", B+"network/NetworkUtils.cpp")])

P("C41", "Statistics counters answer by name exactly what was recorded",
  "Registering a counter makes exactly the listed statistics readable under its name and nothing else; a read by index, by name and by full text agree, and equal sum, count, average or rate of the values added, however many threads add concurrently. "
  "Names, methods, percentiles and ranges that do not exist or are malformed give an error. Re-registering an existing name returns the existing counter.",
  ["histories", "inputs", "schedules"],
  "all short histories of register/add/read, all name texts of a grammar of valid and malformed parts, and interleavings of concurrent adds",
  "The tests (not built here) use sleep and a few names.",
  [B+"stats/StatsManager.h", B+"stats/StatsManager.cpp", B+"stats/StatsManager.inl"],
  [("name parsing and index sign encoding", B+"stats/StatsManager.cpp")])

P("C42", "Metadata cache mirrors the last successful load and notifies each change once",
  "After any sequence of loads of changing cluster metadata, with any of the server answers failing, the client's cached spaces, schemas, indexes, leaders and part locations equal those of the last fully successful load, and its users and full-text data are each wholly those of one answer. "
  "Listeners hear of exactly the spaces, parts and remote listeners that appeared, disappeared or changed on this host, once each, in an order in which a space exists before its parts and is removed after them.",
  ["histories", "fault_sequences"],
  "all pairs and triples of small cluster states (spaces, parts, peers, schemas, listeners) with a failure injected at every answer",
  "The tests need a running metadata server; none is available to unit tests here.",
  [B+"clients/meta/MetaClient.h", B+"clients/meta/MetaClient.cpp"],
  [("build-then-swap under write lock, diff against the previous cache", B+"clients/meta/MetaClient.cpp")])

P("C43", "Metadata requests retry and follow the leader; heartbeats keep the copy current",
  "A metadata request succeeds as soon as one attempt does, is retried after the configured pause on transport failures and leader changes at most the configured number of times, goes to the announced leader when one is announced and to a configured server drawn anew after a failure, and completes its result exactly once with its own answer or the last error. "
  "Waiting for the service makes as many attempts as allowed and ends ready with the first that loads the metadata. "
  "Each heartbeat names its sender, the cluster it belongs to (remembered on disk across restarts) and the partitions led, and the client reloads exactly when the server has changed since its last complete load.",
  ["fault_sequences", "histories", "schedules"],
  "all outcomes (success, refusal, leader change with and without address, transport failure) of every attempt up to 3 (4), 1-2 (3) servers with every draw, two requests under every order of IO steps, every error code, all histories of 3 (4) heartbeat events with a failure at every answer of the reload",
  "No test can produce the outcome sequences without a scripted server.",
  [B+"clients/meta/MetaClient.h", B+"clients/meta/MetaClient.cpp", B+"clients/meta/FileBasedClusterIdMan.cpp"],
  [("getResponse with retry counter and leader update; heartBeatThreadFunc", B+"clients/meta/MetaClient.cpp"), ("cluster id file", B+"clients/meta/FileBasedClusterIdMan.cpp")])

P("C44", "Signal handlers run for exactly the registered signals with the right details",
  "After installing a handler for a set of signals, each delivery of one of them runs that handler once with the signal's number and sender, other signals keep their previous disposition, and installing again replaces the handler; a signal arriving at any moment of an installation runs the old handler, the new one or none, whole. "
  "Broken pipes and hang-ups are ignored unless handled, and a fatal signal ends the process after its handler ran once.",
  ["histories", "schedules"],
  "all short histories of installing handlers for signal sets and delivering signals to the own process",
  "The test (not built here) checks two signals once.",
  [B+"base/SignalHandler.h", B+"base/SignalHandler.cpp"],
  [("handler table indexed by signal", B+"base/SignalHandler.cpp")])

P("C45", "Full-text index documents carry values intact and unambiguous",
  "Index, document and row identifiers built for the search engine are functions of their space, part, schema and value that never collide for different inputs, and the request text produced for any value, limit and credentials is valid JSON in a command that yields back exactly that value. "
  "Results are taken from any well-formed reply in order, and malformed replies are reported as failures.",
  ["inputs"],
  "all values over an alphabet with quotes, backslashes, control and non-ASCII bytes, all key tuples of a grid, all truncated and ill-typed replies",
  "Tests compare a few literal strings.",
  [B+"plugin/fulltext/FTUtils.h", B+"plugin/fulltext/elasticsearch/ESGraphAdapter.cpp", B+"plugin/fulltext/elasticsearch/ESStorageAdapter.cpp"],
  [("identifier and JSON builders", B+"plugin/fulltext/elasticsearch/ESGraphAdapter.cpp")])

P("C46", "Passwords and tokens are encoded as published digests",
  "The digest and base-64 helpers return the standard MD5 (in lower-case hexadecimal) and base-64 encodings of any byte string of any length, zero bytes included, so that decoding gives the string back.",
  ["inputs"],
  "all byte strings",
  "Tests check a few strings.",
  [B+"encryption/MD5Utils.h", B+"encryption/Base64.h"],
  [("delegation to the crypto library", B+"encryption/MD5Utils.h")])

P("C47", "Web service endpoints answer per their protocol for every request",
  "Every request gets exactly one complete answer (or none if its connection fails) and its handler is freed; routing takes the first registered route whose method and whole path match (a slash at the end and the query do not count) with its parameters, and answers 404 otherwise, also for unknown methods; a handler answers 405 to a method it does not support. "
  "GET /flags and GET /stats list exactly what was asked for, in order, with current values, as text or JSON, unknown names marked as such; PUT /flags sets every flag of a JSON object whose value is possible for it, lists the others as failed, and changes nothing (400) for any other body. "
  "No request ends the process.",
  ["inputs", "histories"],
  "up to 2 (3) of 11 flag names x 30 options x 4 sets of values; up to 2 (3) of 9 names with 22 JSON values each, in chunks; 25 bodies that are no object; 12 methods x 22 targets x 4 queries; all histories of 4 (5) of 8 requests; up to 3 of 13 statistics; up to 2 (3) of 13 routes asked for all paths of up to 3 segments",
  "The tests send a dozen well-formed requests to a running server, and none runs here.",
  [B+"webservice/Router.cpp", B+"webservice/Router.h", B+"webservice/GetFlagsHandler.cpp", B+"webservice/SetFlagsHandler.cpp", B+"webservice/GetStatsHandler.cpp", B+"webservice/StatusHandler.cpp", B+"webservice/NotFoundHandler.cpp", B+"webservice/WebService.cpp"],
  [("matching of routes", B+"webservice/Router.cpp"), ("request handlers", B+"webservice/SetFlagsHandler.cpp")])

P("C48", "Every metadata operation sends what was asked and returns what was answered",
  "Each operation of the metadata client sends exactly one request, to the service function of its name, with every argument in its own field, optional fields present only when given and documented defaults for omitted arguments, and hands its caller exactly the content of the answer, or an error if it is refused or lost. "
  "Operations in flight together never receive each other's answers. Key-value calls with an empty or non-alphanumeric segment or without keys are refused without being sent.",
  ["inputs", "histories", "fault_sequences"],
  "all 99 operations x 9 (40) argument sets (empty, extreme and binary values, every combination of flags) x answered, refused, lost; all pairs in flight together under every order of steps of two IO threads; all segments of up to 2 (3) of 10 characters",
  "The tests need a running metadata server; none runs here.",
  [B+"clients/meta/MetaClient.h", B+"clients/meta/MetaClient.cpp", B+"meta/Common.h"],
  [("one function per operation", B+"clients/meta/MetaClient.cpp"), ("checkSegment", B+"meta/Common.h")])

P("C50", "Connections to servers are reused while good and replaced when broken",
  "Asking for a client of a server returns one whose connection goes to that server (its name resolved at that time), belongs to the event base given and is not broken; the client made before for the same server, event base and thread is returned as long as its connection is good, and a broken one is replaced by a new one with the timeout and protocol asked for. "
  "Clients are made and destroyed on the thread of their event base, never while someone uses them, and a broken client that nobody uses does not stay.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of 5 (6) steps (asking, four ways of breaking, releasing) over 5 (4) hosts, of 6 (7) over 2, of 5 (6) over 2 event bases, of 4 (5) over 2 threads, and of 4 (5) with options and changing names",
  "No test of the repository uses the manager without a running server.",
  [B+"thrift/ThriftClientManager.h", B+"thrift/ThriftClientManager.inl"],
  [("ThriftClientManager::client", B+"thrift/ThriftClientManager.inl")])

P("C51", "Commands and HTTP requests run exactly as asked, and all their output returns",
  "Running a command gives its complete output, byte for byte, however it arrives, or an error if it cannot be run or read, and leaves no stream open. An HTTP or HDFS request reaches the program with exactly the method, address, options and data given, whatever characters they hold, and its output is handed on. "
  "Bulk download and ingest ask the metadata leader for exactly the given source and space and report success only for its success answer.",
  ["inputs", "fault_sequences"],
  "12 lengths x 3 contents x all sequences of up to 3 (4) reads of 6 sizes, interrupted or failing; all requests with addresses of up to 2 (3) and data of up to 1 (2) of 21 texts special to the shell; both HDFS commands; download and ingest with 8 answers",
  "One command and one plain address are tested, with a web server that is not built here.",
  [B+"process/ProcessUtils.cpp", B+"http/HttpClient.cpp", B+"hdfs/HdfsCommandHelper.cpp", B+"clients/meta/MetaClient.cpp"],
  [("ProcessUtils::runCommand", B+"process/ProcessUtils.cpp"), ("HttpClient", B+"http/HttpClient.cpp"), ("MetaClient::download, ingest", B+"clients/meta/MetaClient.cpp")])

P("C52", "The pid file names the running process and is believed only while it runs",
  "A pid is available exactly if it is the caller's own or the system says that no such process exists; a pid file that is missing or holds no possible pid never blocks a start or ends the process, an unreadable one always blocks, and no process is ever sent a real signal. "
  "A pid file reported as made holds exactly the pid, whatever was there before, and one that could not be made or written is reported. The paths of a process are those the system gives for that process, in full.",
  ["inputs", "histories", "fault_sequences"],
  "files of up to 3 (4) of 13 texts in 5 situations x 3 answers; 6 process ids x 5 answers; 2 (3) files made in a row over 5 situations; 4 process ids x 2 paths x 6 lengths x 3 answers",
  "Four plain cases are tested.",
  [B+"process/ProcessUtils.h", B+"process/ProcessUtils.cpp", B+"fs/FileUtils.cpp"],
  [("isPidAvailable, makePidFile, getExePath, getExeCWD", B+"process/ProcessUtils.cpp")])

P("C53", "The web service reports how its start went and stops cleanly",
  "start() returns once the listening thread has reported, with success exactly if the server listens (its real ports then in the flags, all endpoints answering) and with the reason otherwise; a second start changes nothing. Destroying the service, started, failed or never started, stops the server once and leaves no thread, and no thread uses anything already destroyed.",
  ["schedules", "fault_sequences"],
  "4 settings of the ports x success and 2 failures x started never, once, twice; all interleavings with up to 2 (3) preemptions (and one spurious wakeup)",
  "The tests start one server with one schedule.",
  [B+"webservice/WebService.cpp", B+"webservice/WebService.h"],
  [("start and destructor", B+"webservice/WebService.cpp")])
