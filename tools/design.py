#!/usr/bin/env python3
"""Writes DESIGN.md: the text of tools/design_head.md, one section per property (texts below, bounds and cost from the
evidence of the last quick runs), the planted bugs and the findings."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); sys.path.insert(0, HERE)
from registry import CHECKS
from na_reasons import NA
ORACLE = {
"C01": "A std::string built by plain concatenation of the bytes written; every way of reading (str, visit, applyTo, appendTo, another cord) is compared after every operation. AddressSanitizer watches the blocks.",
"C02": "As for C01; the alphabet is built around the inline size, one before, at and one past a block boundary.",
"C03": "A tagged record of which alternative was put in last and its payload; element types count constructions and destructions, so that a leak, a double destruction or a read of a dead object shows at the operation where it happens.",
"C04": "The same record over every pair of result and error types used by the code base; conversion is compared with the conversion of the content.",
"C05": "A counter model checked at each schedule: nobody returns before the counter reached zero, everybody returns after it. Deadlock, data races (happens-before) and use after destruction are reported by the scheduler.",
"C06": "A round number kept by the harness: completion runs once per round, after the last arrival and before any release; nobody is released early or left behind, including threads that re-enter at once and spurious wake-ups.",
"C07": "A record of what exists in a confined scratch directory; each system call involved can fail. Uniqueness, mode, removal and descriptor leaks are compared after every step.",
"C08": "The name the kernel reports, the arguments received and the number of runs, in every interleaving of starter and started thread.",
"C09": "A sum of the running intervals in exact integer arithmetic over a clock the check drives; counter reads are replaced in the assembly of the code under test.",
"C10": "The system clock at the same instant within the error the calibration admits, for each counter frequency, start fraction and calibration moment; first use from two threads under all schedules.",
"C11": "An independent proleptic Gregorian calendar (checks/gregorian.h) derived from the leap-year rule by counting days.",
"C12": "Field-wise comparison from the interface definition (idl tables generated from the .thrift files): a pair is equal iff the list of differing fields is empty; a cleared response equals a new one.",
"C13": "The enumerations and documented tables parsed from the interface definition at build time.",
"C14": "Plain subtraction over the clock the check drives, with all thresholds and directions of the clock.",
"C15": "A pair (code, text) per live object; printed form, copies, moves and self-assignment are compared after each step.",
"C16": "A three-state record per object (nothing, status, value) with counted contents; observed through every accessor that is legal in the state.",
"C17": "A list ordered by last use with the same capacity rule; sequentially by equality of every answer, concurrently by linearisability against that model over all interleavings up to the preemption bound.",
"C18": "Counts of live objects per type; throwing constructors leave nothing behind; concurrent adds and clears under all schedules.",
"C19": "An independent MurmurHash64A over the bytes, every length and alignment; stability between entry points.",
"C20": "A count of acceptances by the predicate at each completion; the returned future is settled at exactly the completion the model names, with exactly those results, for every order and assignment.",
"C21": "gregorian.h for every date; order against the triple order; the known deviation of century years is listed as a finding by key.",
"C22": "A grammar-driven reader of the texts and a table of the map rules, independent of the code; zone shifts in integer arithmetic.",
"C23": "A persistent reference value (checks/vals.h) per variable; all operations incl. assignment from inside itself; AddressSanitizer and counted contents.",
"C24": "Laws, on all pairs and triples of the alphabet: equivalence, total order, equal values hash equally, containers behave as their elements demand (checks/valrel.h).",
"C25": "A table of operand types to result type, with exact integer and IEEE arithmetic and overflow rules, over all operand pairs.",
"C26": "Lists of rows and steps edited in parallel.",
"C27": "An independent encoder and decoder of the two protocols (checks/wire.h) from the protocol definitions; value to bytes, bytes to value, announced size, every omitted, additional or ill-typed field.",
"C28": "As C27, with the response types generated from the interface definition.",
"C29": "Structural comparison of trees built twice; decode(encode(e)), clone(e) and text are compared, all pairs for inequality, and evaluation of the copy against the original.",
"C30": "A direct evaluator of the language rules over the same operands, run twice and in changed contexts.",
"C31": "For each function a reference written from its documentation; every registered name with every combination of argument types must accept exactly its signatures; fatal logs and sanitizer reports count.",
"C32": "Folds written from the definition of each aggregate, over all input sequences, restarted and duplicated.",
"C33": "The tree kept as a map, compared with the real file system after each call; calls confined to a scratch directory, refused outside; the n-th system call fails or others interfere before it.",
"C34": "An independent JSON reader with comments; every lookup of every key and type; short, interrupted and failing reads.",
"C35": "A record of accepted tasks: each runs once, in order, on the worker, before stop returns; repeated and delayed tasks against virtual time; races and deadlocks from the scheduler; the real libevent underneath with its waiting replaced.",
"C36": "The requests the arguments and the placement demand, computed independently (which part each id belongs to, which host leads it), compared with each request recorded by the in-process servers, and the completeness, failure list and leader table after each answer.",
"C37": "A plain table of fields with widths and running sums.",
"C38": "Exact counting: over all random draws every subset must have the same number of paths; the draw bounds are recorded.",
"C39": "The published table of names.",
"C40": "An independent reader of addresses and lists; interfaces, names and ports answered by the check.",
"C41": "A list of all recorded samples with their times: every counter name is answered by recomputing from that list.",
"C42": "The model of the cluster itself: every cache query must answer as the last completely loaded cluster would, and every difference between two loads must be told exactly once, in an order in which additions never precede removals of the same thing.",
"C43": "The attempts allowed by the retry limit with the server each must go to; the value or error the caller must get; the interval between attempts; for heartbeats, the cluster the cache must show.",
"C44": "A table of installed handlers; each delivery must run exactly that handler once with its number, on real signals, including one delivered at every machine instruction of an installation.",
"C45": "The command is parsed by the rules of sh(1) and its body as JSON; the document must hold the value and a key that decodes to its parts.",
"C46": "RFC digests and an independent Base64 decoder.",
"C47": "A table from requests to answers: which handler, which status, which document, and the flags and statistics afterwards.",
"C48": "A table of the 99 operations: for each the request its arguments must produce and the value its answer must become, compared field by field with generated equality.",
#"C49": "The answers given, counted once each, whatever the interleaving of the threads that handle them.",
"C50": "A record of the clients made per thread, event base and server, whether each is broken, and who uses it.",
"C51": "The words sh(1) would hand to the program, and the bytes written by the command.",
"C52": "The number in the file, and the answers of the system the check gave.",
"C53": "The stand-in server records how often it was started and stopped, by whom, with what; the scheduler reports races, deadlock and any use of a condition variable that was destroyed.",
}
def main():
    props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
    out = [open(HERE + "/design_head.md").read().rstrip() + "\n"]
    out.append("\n## Properties\n\nFor each: what is enumerated on the real code, the oracle, the bounds and cost of the quick tier (thorough bounds in brackets where the text gives them), and why tests cannot settle it.\n")
    for p in props:
        i = p["id"]; c = CHECKS.get(i)
        out.append("\n### %s %s\n" % (i, p["title"]))
        if not c: out.append("Not claimed. %s\n" % NA.get(i, "")); continue
        out.append("*Explored.* %s\n" % c["note"])
        if i in ORACLE: out.append("*Oracle.* %s\n" % ORACLE[i])
        try:
            e = json.load(open(ROOT + "/evidence/%s.json" % i)); sc = e["coverage"]["scenarios"]
            out.append("*Bounds.* " + "; ".join("`%s`: %s" % (s["name"], s["bounds"]) for s in sc) + ".\n")
            out.append("*Cost.* %d executions, %d transitions in %d scenarios, %.0f s on 8 cores once built.\n" % (sum(s["executions"] for s in sc), sum(s["transitions"] for s in sc), len(sc), sum(s["wall_s"] for s in sc)))
        except Exception as x: print("no evidence for", i, x)
        out.append("*Beyond the tests.* %s\n" % p["why_tests_cant"])
    out.append("\n" + open(HERE + "/design_tail.md").read().strip() + "\n")
    out.append("\n## Planted bugs\n\n| bug | property | needs |\n|---|---|---|\n")
    for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
        m = json.load(open(f)); out.append("| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/")))
    out.append("\nEach is caught by the check of its property (`VIOLATION property=...`, exit 1) in the quick tier.\n")
    out.append("\n## Findings and repairs\n\nFrom `known_findings.txt`:\n\n")
    for l in open(ROOT + "/known_findings.txt"):
        l = l.strip()
        if l.startswith(("fixed:", "finding:")): out.append("* %s\n" % l)
    open(ROOT + "/DESIGN.md", "w").write("\n".join(x.rstrip("\n") + "\n" if x.startswith("\n#") or x.startswith("*E") or x.startswith("*O") or x.startswith("*B") or x.startswith("*C") else x.rstrip("\n") for x in out) + "\n")
if __name__ == "__main__": main()
