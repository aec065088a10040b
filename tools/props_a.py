# Property texts, part A. Read by tools/gen.py, which writes properties.jsonl and MANIFEST.json.
# P(id, title, statement, over, qtext, why, files, mechanism[(name, where)])
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": a})

B = "src/common/"

P("C01", "Heap byte buffer is an exact append-only concatenation",
  "Whatever sequence of appends is made to a growable byte buffer (fixed-width numbers, strings, raw bytes, another buffer of any content or block size, the buffer itself), its size, emptiness, full copy, append-to-string result and block-by-block visit all equal the plain concatenation of the appended bytes in native layout. "
  "A block visit delivers each byte once and in order, and stops exactly when the visitor asks to stop, reporting whether it was stopped. "
  "Clearing releases all memory and leaves a buffer that behaves like a new one.",
  ["histories", "inputs"],
  "every sequence of append/clear/read operations, every block size that can hold data, every alignment of the write position against a block boundary",
  "The repository's buffer test appends a few thousand values to one default-sized buffer and is not built here; it never appends an empty buffer, mixes block sizes, stops a visit, or reuses a cleared buffer at a block boundary.",
  [B+"base/Cord.h", B+"base/Cord.cpp"],
  [("block chaining and boundary arithmetic in write/allocateBlock", B+"base/Cord.cpp"), ("block walk in applyTo/appendTo/operator<<(Cord)", B+"base/Cord.cpp")])

P("C02", "Inline-first byte buffer is an exact append-only concatenation",
  "Whatever sequence of appends is made to a byte buffer whose first block is stored inline, its size, emptiness, full copy, append-to-string result and block-by-block visit all equal the plain concatenation of the appended bytes. "
  "A visit delivers each byte once, in order, also when the content ends exactly on a block boundary. "
  "Clearing frees every heap block and leaves a buffer that behaves like a new one.",
  ["histories", "inputs"],
  "every sequence of append/clear/read operations for every block size, in particular contents that end one before, at, or one after a block boundary",
  "The existing test is not built here and never clears and reuses a buffer, nor visits or appends one whose length is a multiple of the block size.",
  [B+"base/ICord.h"],
  [("lengthMod/isFull boundary logic and inline block", B+"base/ICord.h")])

P("C03", "Two-alternative container always holds exactly what was last put in",
  "A value that is either empty, a left alternative or a right alternative reports exactly the alternative and content of its last construction or assignment, under every sequence of construct, copy, move, converting copy/move, assign and swap between instances of compatible types. "
  "Every element object created inside it is destroyed exactly once, nothing is read after destruction, and a source that was copied from is unchanged. "
  "Reading the alternative that is not held is rejected instead of returning garbage.",
  ["histories"],
  "all sequences of construction, assignment, conversion and access over containers in every state, including assignment from its own content and same-typed or convertible alternatives",
  "The tests run a dozen fixed scripts on strings and ints; they check neither element lifetimes nor the state matrix of assignments between containers of different but convertible types.",
  [B+"base/EitherOr.h"],
  [("state tag plus placement new/destroy in assign/copy/move", B+"base/EitherOr.h")])

P("C04", "Result-or-error-code values never confuse success with failure",
  "A value built from a result reports success and yields that result; one built from an error code reports failure and yields that code, whatever copies, moves, conversions and re-assignments it goes through. "
  "The helpers that test for success, fetch the error (or the success code) and fetch the value agree with the last thing stored. "
  "A result that is itself an error-code-like or convertible type is still stored on the side it was given for.",
  ["histories", "inputs"],
  "every sequence of construct/copy/move/assign/convert on result-or-error values over every pair of result and error types used",
  "Existing tests cover a handful of return statements; no test enumerates histories of conversions and re-assignments.",
  [B+"base/ErrorOr.h", B+"base/EitherOr.h"],
  [("ok/error/value helpers", B+"base/ErrorOr.h"), ("type-directed side selection", B+"base/EitherOr.h")])

P("C05", "Countdown latch releases every waiter exactly when the count reaches zero",
  "With any number of threads counting down and waiting in any interleaving, no waiter (including one that counts down and waits in one call) returns before as many count-downs as the initial count have happened, and every waiter returns once they have. "
  "The readiness query is false before and true ever after that moment, and is safe to call from any thread. "
  "A zero initial count and a count-down on a finished latch are rejected with an exception and change nothing.",
  ["schedules", "histories"],
  "all interleavings of down/downWait/wait/isReady from several threads, including spurious wakeups and latches destroyed only after all calls returned",
  "The repository has no latch test that is built here; tests run one schedule chosen by the OS and cannot show absence of lost wakeups or races.",
  [B+"concurrent/Latch.h", B+"concurrent/Latch.cpp"],
  [("counter under mutex with condition variable notify_all", B+"concurrent/Latch.cpp")],
  [("counter_", "remaining count", B+"concurrent/Latch.h")])

P("C06", "Reusable barrier separates rounds and runs its completion once per round",
  "In every interleaving, no participant's n-th wait returns before all participants made their n-th arrival, and once all have arrived every one of them returns, for any number of rounds on the same barrier. "
  "The completion callback runs exactly once per round, after all arrivals of that round and before any participant is released. "
  "A barrier for zero participants is rejected with an exception.",
  ["schedules", "histories"],
  "all interleavings of N threads through several rounds, including spurious wakeups, wakeup orders and threads that re-enter the barrier immediately",
  "No barrier test is built here; a timing-dependent test sees one schedule and cannot find generation mix-ups between consecutive rounds.",
  [B+"concurrent/Barrier.h", B+"concurrent/Barrier.cpp"],
  [("generation counter tested in the wait predicate", B+"concurrent/Barrier.cpp")],
  [("generation_", "round number", B+"concurrent/Barrier.h"), ("ages_", "arrivals still missing in this round", B+"concurrent/Barrier.h")])

P("C07", "Temporary files and directories are unique, private and removed on request",
  "Creating a temporary file or directory from a template either fails (a file by throwing, a directory by a null path), leaving nothing behind, or yields a path that matches the template, did not exist before, exists now with owner-only permissions, and is reported unchanged for the object's whole life. "
  "Destroying the object removes exactly that path when automatic deletion is on and nothing otherwise; no descriptor is leaked on any path. "
  "This holds whatever the creation, close or removal system calls return.",
  ["fault_sequences", "histories", "inputs"],
  "all sequences of creating and destroying temporary objects in all destruction orders, templates valid and invalid, and every placement of a failing system call",
  "The one test creates a single file successfully; it never makes a system call fail, nests objects, or counts descriptors.",
  [B+"fs/TempFile.h", B+"fs/TempFile.cpp", B+"fs/TempDir.h", B+"fs/TempDir.cpp"],
  [("mkstemp/close/unlink and mkdtemp/recursive removal", B+"fs/TempFile.cpp")])

P("C08", "Named threads run their body once with their arguments under their name",
  "A thread started with a name runs its body exactly once, with exactly the given arguments (copied, moved or by reference as passed), and the operating system reports the given name (truncated to what it supports) inside the body; an empty name leaves the inherited name alone. "
  "A scoped renaming restores the previous thread name on exit, nested or not. "
  "The thread id query returns the calling thread's kernel id, distinct between live threads and stable within one.",
  ["schedules", "inputs", "histories"],
  "all name lengths, nesting orders of scoped names, argument kinds, and interleavings of starter and started threads",
  "Tests start one or two threads with short names; they do not cover truncation, nesting, argument lifetime after the starter's frame is gone, or id stability across threads.",
  [B+"thread/NamedThread.h", B+"thread/NamedThread.cpp"],
  [("bind of decayed copies of arguments; prctl in hook; thread_local id", B+"thread/NamedThread.h")])

P("C09", "Stopwatch reports the total running time over any pause/resume/reset history",
  "After any history of start, pause, resume, reset (running or paused) and readings, the elapsed time equals the sum of the intervals during which the stopwatch was running, in seconds, milliseconds and microseconds, each within rounding of the same quantity. "
  "Pausing a paused stopwatch or resuming a running one changes nothing, reading never changes anything, and the paused query matches the history. "
  "While running, and until the tick calibration is revised, readings never go backwards.",
  ["histories", "inputs"],
  "all operation histories up to a depth interleaved with all patterns of clock advance, including pauses longer than the running time",
  "Existing duration tests are not built here and sleep for real time with wide tolerances on two or three fixed scripts.",
  [B+"time/Duration.h", B+"time/Duration.cpp", B+"time/detail/TscHelper.cpp"],
  [("accumulated ticks plus current interval", B+"time/Duration.cpp"), ("tick-to-time conversion", B+"time/detail/TscHelper.cpp")])

P("C10", "Fast wall clock agrees with the system clock",
  "The fast wall clock agrees with the system's real-time clock in seconds, milliseconds and microseconds, at any time after first use, to within rounding plus the relative accuracy of its tick calibration (below one part in a thousand for counters of 1 GHz and more). "
  "The three units are consistent with each other, as are the three units of the slow clock, which equals the system clock truncated to the unit. "
  "First use from several threads at once is safe and all of them see the same, initialised clock.",
  ["schedules", "inputs", "configurations"],
  "all counter frequencies, start times (any sub-second fraction), elapsed times and calibration moments of a grid; all interleavings of first use from two threads and the background calibration",
  "Existing tests compare two clocks on the build machine once; they cannot vary the counter frequency or start fraction, nor interleave first use and recalibration.",
  [B+"time/WallClock.h", B+"time/WallClock.cpp", B+"time/detail/TscHelper.h", B+"time/detail/TscHelper.cpp"],
  [("calibration against the monotonic clock, atomic factors, lazily built singleton", B+"time/detail/TscHelper.cpp")])

P("C11", "Calendar conversion is the proleptic Gregorian calendar, both ways",
  "Converting a calendar date-time to a count of seconds since 1970-01-01 00:00:00 UTC, and back, agrees with the proleptic Gregorian calendar for every representable year and every second, before and after the epoch, leap years and centuries included. "
  "The two directions are inverse to each other, conversion is strictly increasing, sub-second parts are carried unchanged, and applying an offset in seconds moves the result by exactly that offset.",
  ["inputs"],
  "every day of every year of the 16-bit year range, every second around day, month, year, century and epoch boundaries, and a grid of offsets",
  "The existing tests compare a few dozen dates; the quantifier is over about 24 million days and both signs of the epoch.",
  [B+"time/TimeConversion.h", B+"time/TimeConversion.cpp"],
  [("seconds-of-epoch arithmetic with cycle tables", B+"time/TimeConversion.h")])

P("C12", "Server responses compare equal exactly when all their content is equal",
  "Two responses of the same kind (authentication, execution, plan description with its nodes, branch info, key-value pairs and profiling statistics) compare equal if and only if every field, present optional, element of a list and nested record is equal; comparison is symmetric and reflexive. "
  "Changing any single field of one of two equal responses makes them unequal. "
  "Clearing a response puts every field back to the state of a freshly constructed one.",
  ["inputs", "histories"],
  "every response value that differs from a base value in one or two fields at any nesting level, with each optional absent, present and differing",
  "The code under this property has no unit test; field-by-field comparison bugs only show for the one field concerned.",
  [B+"graph/Response.h", B+"graph/Response.cpp"],
  [("operator== and __clear of every record", B+"graph/Response.h")])

P("C13", "Public error codes and HTTP status tables match their published definition",
  "Every error code a client can see in a response has the name and numeric value published in the interface definition, no two codes share a value, and the C++ response types and the interface definition enumerate the same set. "
  "The HTTP status helper maps each status to its standard number and reason phrase, however often and in whatever order it is asked.",
  ["inputs", "configurations"],
  "every error code on either side and every HTTP status",
  "No test reads the interface definition and the C++ enumeration together; a renumbered or dropped code still compiles and passes.",
  [B+"graph/Response.h", B+"graph/Response.cpp", B+"interface/common.thrift", B+"interface/graph.thrift", B+"webservice/Common.h"],
  [("ErrorCode enumerators macro", B+"graph/Response.h"), ("ErrorCode enum", B+"interface/common.thrift"), ("statusStringMap", B+"webservice/Common.h")])

P("C14", "Slow-operation tracker measures from construction against the right threshold",
  "A tracker reports an operation as slow exactly when the time since its construction exceeds the threshold given in the call, or the configured default when none is given. "
  "A clock that steps backwards counts as zero elapsed time, and the text it logs carries the elapsed time of the last check, the prefix and the message.",
  ["histories", "inputs"],
  "all sequences of checks and logs over a grid of clock readings (also backwards), per-call thresholds and configured defaults",
  "There is no test of this class.",
  [B+"base/SlowOpTracker.h", B+"base/SlowOpTracker.cpp"],
  [("start stamp and comparison", B+"base/SlowOpTracker.h")])

P("C15", "A status carries its code and message faithfully through any history",
  "A status is OK if and only if it was made so or assigned from an OK one; otherwise its code, its message (as far as 65535 bytes hold it) and its printed form are those of the constructor used, and are preserved by every sequence of copies, moves and assignments, self-assignment included. "
  "A moved-from status is OK or otherwise valid, never dangling, and two statuses are equal exactly when their codes are. "
  "Each named kind answers true to its own test and false to all others.",
  ["histories", "inputs"],
  "all sequences of construct/copy/move/assign over all status kinds and messages of boundary lengths",
  "The status test (not built here) checks five kinds with one script each; it cannot show that all kinds are distinguishable and that all ownership histories keep the message.",
  [B+"base/Status.h", B+"base/Status.cpp"],
  [("single heap buffer with size/code header", B+"base/Status.h")])

P("C16", "A value-or-status holds exactly one of the two through any history",
  "A value-or-status reports ok and yields the value it was last given, or reports not-ok and yields the status it was last given, after every sequence of construction, copy, move, converting copy/move and assignment between instances of compatible types, self-assignment included. "
  "Every contained object is destroyed exactly once and never read after destruction. "
  "Asking for the value of a failed one, or moving out twice, is refused rather than returning garbage.",
  ["histories"],
  "all operation sequences up to a depth over instances in all three internal states, with copyable, move-only and convertible contents",
  "The test (not built here) follows a few scripts; ownership and destruction across the full assignment matrix are never checked.",
  [B+"base/StatusOr.h"],
  [("tagged union with explicit destroy/construct", B+"base/StatusOr.h")])

P("C17", "LRU cache behaves like its sequential model under any history and schedule",
  "In every operation history the cache returns for a key the last value put and not since evicted, keeps at most its capacity per shard, evicts exactly the least recently used entry when full, and its hit, eviction and total counts match the operations made. "
  "Insert-if-absent never replaces an existing value and returns the value in force. "
  "Concurrent calls behave as if executed one at a time in some order consistent with real time.",
  ["histories", "schedules"],
  "all operation sequences up to a depth on colliding keys with capacities at and around the minimum, and all interleavings of two or three threads up to a preemption bound",
  "The cache test (not built here) runs fixed scripts and a timing-dependent multi-threaded smoke test without an oracle.",
  [B+"base/ConcurrentLRUCache.h"],
  [("hash map plus recency list under one mutex per bucket", B+"base/ConcurrentLRUCache.h")])

P("C18", "Object pool destroys every object it owns exactly once",
  "Every object handed to or created by a pool stays alive and at the same address until the pool is cleared or destroyed, and is then destroyed exactly once, through its real type, in any history and with any number of threads adding concurrently. "
  "The pool reports empty exactly when it owns nothing.",
  ["schedules", "histories"],
  "all histories of add/create/clear/destroy with objects of several types, throwing constructors included, and all interleavings of concurrent adds and clears",
  "The pool test (not built here) adds objects from one thread.",
  [B+"base/ObjectPool.h"],
  [("ownership holders in a list under a spin lock", B+"base/ObjectPool.h")])

P("C19", "String and id hashing is one stable function of the bytes",
  "The hash of a byte sequence depends on its bytes alone (not on the type it is passed as, its address or alignment) and equals the published 64-bit MurmurHash2 value that placed existing data, for every length including zero and every tail length; integers hash to themselves converted to the hash type. "
  "Reading never goes beyond the given bytes.",
  ["inputs"],
  "all byte lengths from 0 to several blocks, all alignments, bytes with the high bit set, all entry points",
  "The test (not built here) compares a few random strings against the standard library's hash.",
  [B+"base/MurmurHash2.h"],
  [("block and tail mixing", B+"base/MurmurHash2.h")])
