import idl


def register(C, SCHED_T, SEQ_T):
    S = "src/common/"
    C("C05", ["checks/c05_latch.cc"], [S+"concurrent/Latch.cpp"], mode="sched", technique=SCHED_T,
      note="All programs of up to 4 threads within the stated bounds, all interleavings up to the preemption bound, every notify choice and bounded spurious wakeups, with race and lifetime detection, on the real code.")
    C("C06", ["checks/c06_barrier.cc"], [S+"concurrent/Barrier.cpp"], mode="sched", technique=SCHED_T,
      note="All interleavings up to the preemption bound for up to 4 threads and several rounds on the real code.")
    C("C01", ["checks/c01_cord.cc"], [S+"base/Cord.cpp"], technique=SEQ_T,
      note="All operation sequences up to depth 4 (quick) / 5 (thorough) over 27 operations at 5 block sizes on the real code with AddressSanitizer; every read operation compared with plain concatenation.")
    C("C02", ["checks/c02_icord.cc"], [], technique=SEQ_T,
      note="All operation sequences up to depth 4 (quick) / 6 (thorough) over 18 operations at 4 block sizes on the real code with AddressSanitizer; every read operation compared with plain concatenation.")
    C("C03", ["checks/c03_eitheror.cc"], [], technique=SEQ_T,
      note="All operation sequences up to the bound over every combination of container states, on the real template with lifetime-tracked elements, AddressSanitizer and a reference variant.")
    C("C04", ["checks/c04_erroror.cc"], [], technique=SEQ_T,
      note="All histories of 3 (4) operations on two values for 6 pairs of code and result types, compared with a reference after every step, on the real templates.")

    C("C12", ["checks/c12_response.cc"], [S+"graph/Response.cpp"], technique=SEQ_T, link=["-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy"],
      note="Every field of every response record against every pair of its contents, alone and in pairs, on the real comparison and clearing code.")
    C("C13", ["checks/c13_codes.cc"], [S+"graph/Response.cpp", S+"webservice/Common.cpp"], technique=SEQ_T, link=["-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy"],
      note="Every 16-bit code value compared with the parsed interface definition; all lookup sequences of the HTTP table up to length 4.")
    C("C14", ["checks/c14_slowop.cc"], [S+"base/SlowOpTracker.cpp"], technique=SEQ_T,
      note="All clock histories and thresholds within bounds under a virtual clock; the log message is read back.")
    C("C19", ["checks/c19_murmur.cc"], [], technique=SEQ_T,
      note="Exhaustive short strings, every length/alignment/tail within bounds and boundary integers against an independent implementation, with AddressSanitizer.")

    C("C08", ["checks/c08_thread.cc"], [S+"thread/NamedThread.cpp"], mode="sched", technique=SCHED_T,
      note="All interleavings up to the preemption bound of real threads started with every combination of name and argument form; all histories of nested scoped renamings.")
    C("C09", ["checks/c09_duration.cc"], [S+"time/Duration.cpp", S+"time/detail/TscHelper.cpp", S+"thread/NamedThread.cpp"], technique=SEQ_T, asm=[S+"time/Duration.cpp", S+"time/detail/TscHelper.cpp"],
      note="All histories of 6 (7) operations on the real stopwatch; the processor's time stamp counter, the clocks and the calibration thread are virtual.")
    C("C10", ["checks/c10_clock.cc"], [S+"time/WallClock.cpp", S+"time/detail/TscHelper.cpp", S+"thread/NamedThread.cpp"], mode="sched", technique=SCHED_T, asm=[S+"time/WallClock.cpp", S+"time/detail/TscHelper.cpp"],
      note="All interleavings of first use and background calibration within bounds, and every combination of counter rate, start, delay and waiting times within bounds, on the real code over a virtual clock and counter.")

    C("C07", ["checks/c07_temp.cc"], [S+"fs/TempFile.cpp", S+"fs/TempDir.cpp", S+"fs/FileUtils.cpp", S+"base/Status.cpp"], base="shim", flags=["-DWITH_DIR"], technique=SEQ_T,
      note="All histories within bounds on a real file system in a scratch directory, with every chosen outcome of creation, closing and removal; directory contents, modes and descriptors compared after every step.")

    C("C11", ["checks/c11_timeconv.cc"], [S+"time/TimeConversion.cpp", S+"datatypes/Date.cpp"], base="shim", technique=SEQ_T,
      note="Every day of all 65536 years and every second of boundary days, in both directions, and a grid of shifts, on the real code against an independent calendar.")

    DT = [S+"datatypes/"+f+".cpp" for f in ("Date", "Path", "Value", "HostAddr", "Edge", "Vertex", "Map", "List", "Set")]
    C("C21", ["checks/c21_date.cc"], [S+"datatypes/Date.cpp"], base="shim", technique=SEQ_T,
      note="Every day of all 65536 years, a grid of shifts and all pairs of boundary values, on the real code against an independent calendar.")

    C("C22", ["checks/c22_timeutils.cc"], [S+"time/TimeUtils.cpp", S+"time/TimezoneInfo.cpp", S+"time/TimeConversion.cpp", S+"base/Status.cpp", S+"fs/FileUtils.cpp"] + DT, base="shim", technique=SEQ_T, link=["-lboost_date_time"],
      note="All maps and texts over boundary components, all zone offsets and every month end of every year, on the real code against an independent calendar.")

    C("C15", ["checks/c15_status.cc"], [S+"base/Status.cpp"], base="shim", technique=SEQ_T,
      note="Every kind with boundary messages, and all histories of 5 (6) of 14 operations on two statuses, on the real code with AddressSanitizer against a reference.")

    C("C16", ["checks/c16_statusor.cc"], [S+"base/Status.cpp"], base="shim", technique=SEQ_T,
      note="All histories of 3 (4) of 19 to 27 operations on two value-or-statuses and a convertible one, with lifetime-tracked contents, on the real template with AddressSanitizer.")

    C("C17", ["checks/c17_lru.cc"], [S+"base/Status.cpp"], base="shim", mode="sched", technique=SCHED_T,
      note="All call histories within bounds against a reference, and all interleavings of two and three threads up to the preemption bound, checked for linearizability and data races, on the real template.")

    C("C18", ["checks/c18_pool.cc"], [], base="shim", mode="sched", technique=SCHED_T,
      note="All histories within bounds and all interleavings of two and three threads up to the preemption bound with lifetime-tracked objects, on the real code with race and lifetime detection.")

    C("C20", ["checks/c20_collectn.cc"], [], base="shim", technique=SEQ_T,
      note="All orders of completion and all assignments of accepted, rejected, failed and abandoned outcomes to up to 4 (5) requests, every number wanted, on the real template with lifetime-tracked values.")

    C("C23", ["checks/c23_value.cc"], DT, base="shim", technique=SEQ_T,
      note="Every content replaced by every content in every way, and all histories of 3 (4) of 16 operations on two values from every pair of contents, on the real code with AddressSanitizer and heap accounting; every value is read back through its accessors and compared with what it was last given.")

    C("C24", ["checks/c24_order.cc"], DT, base="shim", technique=SEQ_T,
      note="All pairs and triples of six families of values (every type and boundary, lists, vertices, edges, paths, dates and times): ==, <, the derived comparisons and the hash of the real code against an independent definition and against the laws themselves.")

    C("C25", ["checks/c25_arith.cc"], DT, base="shim", technique=SEQ_T,
      note="Twelve binary and two unary operators and three conversions of the real code on all pairs of values of every type, of boundary integers and of boundary floating-point numbers, date arithmetic at the limits, two operators in a row, and conversions of all short texts, against an independent definition over 128-bit integers and doubles.")

    C("C26", ["checks/c26_containers.cc"], DT, base="shim", technique=SEQ_T,
      note="All histories of 4 (5) editing operations on two paths and on two tables, all walks of up to 3 (4) steps, all small edges, vertices, lists, sets and maps with every look-up, on the real code against simple models.")

    WIRE = ["-fno-lifetime-dse"]
    C("C27", ["checks/c27_wire.cc"], DT, base="shim", technique=SEQ_T, gen=idl.gen_tables, flags=WIRE,
      note="Boundary values of every type and containers nested three deep, in three protocols, written, read in both field orders over new and used objects, with each field absent, foreign, of another type, or cut off: the real code against an encoder and a decoder generated from the interface definition files.")
    C("C28", ["checks/c28_respwire.cc"], [S+"graph/Response.cpp"] + DT, base="shim", technique=SEQ_T, gen=idl.gen_tables, flags=WIRE,
      note="Every response record with every subset of its fields, every content of every field and boundary contents in pairs, in three protocols, written, read in both field orders over new and used objects, with each field absent, foreign, of another type, or cut off: the real code against an encoder and a decoder generated from the interface definition files.")

    FN = [S+"function/FunctionManager.cpp", S+"time/TimeUtils.cpp", S+"time/TimezoneInfo.cpp", S+"time/TimeConversion.cpp", S+"base/Status.cpp", S+"base/Base.cpp", S+"fs/FileUtils.cpp"] + DT
    C("C31", ["checks/c31_functions.cc"], FN, base="shim", technique=SEQ_T, link=["-lboost_date_time"],
      note="Every built-in function with every number of arguments on all combinations of an alphabet of every type and boundary, text functions at every index, all letter cases of the names: the real code against an independent definition, with AddressSanitizer, a virtual clock and chosen random numbers.")

    import os
    EX = [S+"expression/"+f for f in sorted(os.listdir(os.environ.get("VERIF_REPO", "/repo") + "/src/common/expression")) if f.endswith(".cpp")] + [S+"function/AggFunctionManager.cpp", S+"time/WallClock.cpp", S+"time/detail/TscHelper.cpp", S+"thread/NamedThread.cpp"] + FN
    C("C32", ["checks/c32_aggregates.cc"], EX, base="shim", technique=SEQ_T, link=["-lboost_date_time"],
      note="Twelve aggregates over all sequences of 4 (5) of 16 inputs, and all interleavings of two groups, distinct or not, on the real code, judged after every input against the definition over all inputs so far.")
    C("C29", ["checks/c29_exprcode.cc"], EX, base="shim", technique=SEQ_T, link=["-lboost_date_time"], gen=idl.gen_tables, flags=WIRE,
      note="Every kind of expression with every option and in every operand place of every other kind, on the real code: stored, read back from its own and from independently written bytes, copied, compared in all pairs, and changed in every way through every setter on either side of a copy.")
    C("C30", ["checks/c30_eval.cc"], EX, base="shim", technique=SEQ_T, link=["-lboost_date_time"],
      note="Every operator on all combinations of 58 operand values, logical operators with the operands looked at, iterations over all short lists, paths, ranges and cases at every boundary, programs of two levels and histories of contexts: the real code against an independent definition, every expression evaluated again and in other contexts in between.")
    C("C33", ["checks/c33_files.cc"], [S+"fs/FileUtils.cpp", S+"base/Status.cpp"], base="shim", technique=SEQ_T,
      note="All directory trees of up to 3 (4) entries of every kind on a real file system in a scratch directory, removed, made, listed and iterated in every way, with the n-th system call failing or others interfering before it, and all short path texts, on the real code against a model of the tree.")
    C("C34", ["checks/c34_config.cc"], [S+"conf/Configuration.cpp", S+"base/Status.cpp"], base="shim", technique=SEQ_T,
      note="All documents of up to two items over 41 values with every read of every key, all histories of 4 (5) operations on two configurations, comments and spaces in every place, damaged texts, and files whose reads are whole, short, interrupted or failing, on the real code against an independent JSON model.")
    C("C35", ["checks/c35_worker.cc"], [S+"thread/GenericWorker.cpp", S+"thread/GenericThreadPool.cpp", S+"thread/NamedThread.cpp"], base="shim", mode="sched", technique=SCHED_T, link=["-levent_core"],
      note="All interleavings up to the preemption bound of submitting, purging, stopping and waiting threads with the worker, and all short histories in virtual time, on the real code and the real libevent whose waiting and clock are the scheduler's.")
    C("C38", ["checks/c38_sampling.cc"], [], base="shim", technique=SEQ_T,
      note="Every sequence of random draws for capacities up to 4 (5) and streams up to 8 (9), the probability of every set of samples counted as an exact fraction, on the real code.")
    C("C39", ["checks/c39_charset.cc"], [S+"charset/Charset.cpp", S+"base/Status.cpp"], base="shim", technique=SEQ_T,
      note="Every supported name and every name one (two) changes away in every look-up, all pairs of them and all histories of 3 (4) look-ups, on the real code.")
    C("C40", ["checks/c40_network.cc"], [S+"network/NetworkUtils.cpp", S+"datatypes/HostAddr.cpp", S+"fs/FileUtils.cpp", S+"base/Status.cpp"], base="shim", technique=SEQ_T,
      note="Every pair of octets in every position (thorough: all 2^32 addresses), all texts of up to 8 (10) characters and lists of 28 items against an independent reader, all pairs of 54 addresses, and every chosen answer of the system about interfaces, names and ports, on the real code.")
    C("C41", ["checks/c41_stats.cc"], [S+"stats/StatsManager.cpp", S+"base/Status.cpp"], base="shim", mode="sched", technique=SCHED_T,
      note="All histories within bounds of registering, adding and passing time, all texts of a grammar and all interleavings of recording threads up to the preemption bound, every read compared with the plain record, on the real code.")
    C("C44", ["checks/c44_signals.cc"], [S+"base/SignalHandler.cpp", S+"base/Status.cpp"], base="shim", technique=SEQ_T, link=["-Wl,-z,now"],
      note="All histories of 3 (4) installations and deliveries, every signal in every way, the n-th system call failing, fatal signals in a process of their own, and a signal at every machine instruction of an installation (single-stepped), on the real code and real signals.")
    C("C45", ["checks/c45_fulltext.cc"], [S+"plugin/fulltext/elasticsearch/ESGraphAdapter.cpp", S+"plugin/fulltext/elasticsearch/ESStorageAdapter.cpp", S+"encryption/MD5Utils.cpp", S+"encryption/Base64.cpp", S+"base/Status.cpp"], base="shim", technique=SEQ_T,
      note="Every value, identifier, credential and reply within bounds: the command recorded is parsed by the shell's rules and its request as JSON, on the real adapters.")
    C("C46", ["checks/c46_digest.cc"], [S+"encryption/MD5Utils.cpp", S+"encryption/Base64.cpp"], base="shim", technique=SEQ_T,
      note="Every byte string up to the bound and every length, decoded back or compared with the digest of all its bytes, on the real helpers over a stand-in digest library.")
    C("C37", ["checks/c37_schema.cc"], [S+"meta/NebulaSchemaProvider.cpp", S+"base/Status.cpp"], base="shim", technique=SEQ_T, gen=idl.gen_types,
      note="Every sequence of up to 3 (4) field definitions over all types of the interface definition against a plain table of widths and running sums, every look-up after each, on the real code.")
    MC = list(dict.fromkeys([S+"clients/meta/MetaClient.cpp", S+"thrift/ThriftClientManager.cpp", S+"clients/meta/FileBasedClusterIdMan.cpp", S+"meta/GflagsManager.cpp", S+"meta/NebulaSchemaProvider.cpp", S+"http/HttpClient.cpp", S+"network/NetworkUtils.cpp",
        S+"conf/Configuration.cpp", S+"stats/StatsManager.cpp", S+"webservice/Common.cpp", S+"process/ProcessUtils.cpp", S+"base/Cord.cpp", S+"fs/FileUtils.cpp", S+"fs/TempFile.cpp", S+"thread/GenericWorker.cpp", S+"thread/NamedThread.cpp"] + EX))
    C("C42", ["checks/c42_metacache.cc"], MC, base="shim", technique=SEQ_T, link=["-levent_core", "-lboost_date_time"], gen=idl.gen_types, flags=['-DNEBULA_HOME="/repo"', '-include', 'cstdint'],
      note="All pairs (and within bounds triples) of small clusters loaded one after another, with each answer failing in each way, on the real client over an in-process server; every cache query and every notification compared with the model of the cluster.")
    ST = MC + [S+"clients/storage/StorageClientBase.cpp", S+"clients/storage/GraphStorageClient.cpp", S+"clients/storage/GeneralStorageClient.cpp", S+"clients/storage/InternalStorageClient.cpp"]
    C("C36", ["checks/c36_fanout.cc"], ST, base="shim", technique=SEQ_T, link=["-levent_core", "-lboost_date_time"], gen=idl.gen_types, flags=['-DNEBULA_HOME="/repo"', '-include', 'cstdint'],
      note="Every kind of request over all small placements and id lists, every outcome per host and every order of sending, answering and handling, on the real clients over in-process servers; each recorded request compared with what the arguments demand.")
    C("C43", ["checks/c43_metaretry.cc"], MC, base="shim", technique=SEQ_T, link=["-levent_core", "-lboost_date_time"], gen=idl.gen_types, flags=['-DNEBULA_HOME="/repo"', '-include', 'cstdint'],
      note="Every outcome of every attempt up to the retry limit, every server drawn, every order of steps of two requests, every error code, and all short histories of heartbeats, changes, failing reloads and restarts, on the real client over an in-process server.")
    C("C48", ["checks/c48_metaops.cc"], MC, base="shim", technique=SEQ_T, link=["-levent_core", "-lboost_date_time"], gen=idl.gen_types, flags=['-DNEBULA_HOME="/repo"', '-include', 'cstdint'],
      note="Every metadata operation over sets of arguments with a value of its own at each position, every outcome, all pairs in flight together under every order of IO steps, on the real client: the request recorded and the value returned compared field by field.")
    C("C50", ["checks/c50_clients.cc"], [S+"thrift/ThriftClientManager.cpp", S+"network/NetworkUtils.cpp", S+"datatypes/HostAddr.cpp", S+"fs/FileUtils.cpp", S+"base/Status.cpp"], base="shim", technique=SEQ_T,
      note="All histories of 5 (6) askings, breakages, releases and changes of names over 5 hosts, 2 event bases and 2 threads, on the real manager; every client returned compared with the record of those made, and every client's end accounted for.")
    C("C51", ["checks/c51_commands.cc"], MC + [S+"hdfs/HdfsCommandHelper.cpp"], base="shim", technique=SEQ_T, link=["-levent_core", "-lboost_date_time"], gen=idl.gen_types, flags=['-DNEBULA_HOME="/repo"', '-include', 'cstdint'],
      note="Every sequence of short, interrupted and failing reads around the sizes of the buffers, and every kind of request with every text special to the shell in its address and data, on the real code with a recording command interpreter.")
    C("C52", ["checks/c52_process.cc"], [S+"process/ProcessUtils.cpp", S+"base/Cord.cpp", S+"fs/FileUtils.cpp", S+"base/Status.cpp"], base="shim", technique=SEQ_T, flags=['-include', 'cstdint'],
      note="Every pid file of up to 3 (4) of 13 texts with every answer of the system about the process, and every short history of making pid files with failures, on the real code over a real scratch directory.")
    C("C47", ["checks/c47_web.cc"], [S+"webservice/"+f for f in ("Router.cpp", "WebService.cpp", "GetFlagsHandler.cpp", "SetFlagsHandler.cpp", "GetStatsHandler.cpp", "StatusHandler.cpp", "NotFoundHandler.cpp", "Common.cpp")] + [S+"stats/StatsManager.cpp", S+"base/Status.cpp", S+"thread/NamedThread.cpp"], base="shim", technique=SEQ_T,
      note="Every request over small alphabets of methods, paths, queries and bodies, whole, in chunks or cut off, and all short histories of them, on the real service, router and handlers over a recording stand-in of the HTTP server.")
    C("C53", ["checks/c53_webstart.cc"], [S+"webservice/"+f for f in ("Router.cpp", "WebService.cpp", "GetFlagsHandler.cpp", "SetFlagsHandler.cpp", "GetStatsHandler.cpp", "StatusHandler.cpp", "NotFoundHandler.cpp", "Common.cpp")] + [S+"stats/StatsManager.cpp", S+"base/Status.cpp", S+"thread/NamedThread.cpp"], base="shim", mode="sched", technique=SCHED_T,
      note="Every interleaving, up to the preemption bound, of starting, using and destroying the service with its listening thread, the server starting or failing, on the real service over a stand-in of the HTTP server; data races and uses of destroyed condition variables reported.")
