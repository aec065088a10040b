#!/usr/bin/env python3
"""Builds and runs one check: run.py ID [--tier quick|thorough] [--replay FILE] [engine options]

Compiles the code under test from the working tree of the repository (REPO, default /repo) and the
harness into build/ID, runs the exploration and exits with its verdict (0 held, 1 VIOLATION)."""
import os, re, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from registry import CHECKS
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "g++"

def sh_quote(s): return "'" + s.replace("'", "'\\''") + "'" if re.search(r"[^\w@%+=:,./-]", s) else s

def build(chk, bdir):
    os.makedirs(bdir, exist_ok=True)
    src = REPO + "/src"
    common = ["-std=c++17", "-g1", "-fno-strict-aliasing", "-fno-omit-frame-pointer", "-w", "-DNEBULA_HOME=/repo", "-DMC_VERIF=1"]
    engine_flags = ["-std=c++17", "-O2", "-g1", "-Wall", "-Wno-unused-result", "-fno-builtin", "-fno-threadsafe-statics"]
    inc = ["-I" + HERE + "/mc", "-I" + bdir + "/gen", "-I" + HERE + "/shim", "-I" + src]
    base = []
    os.makedirs(bdir + "/gen", exist_ok=True)
    if chk["base"] == "sub":
        lines = [l for l in open(src + "/common/base/Base.h", errors="replace")
                 if re.match(r"\s*#\s*include", l) and not re.search(r"[<\"]folly/", l)]
        write_if_changed(bdir + "/gen/base_includes.h", "".join(lines))
        base = ["-DCOMMON_BASE_BASE_H_", "-include", bdir + "/gen/base_includes.h"]
    if chk["gen"]:
        chk["gen"](REPO, bdir + "/gen")
    if chk["mode"] == "sched":
        mode = ["-O1", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1", "-fno-builtin", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
        hmode = mode
        lmode = ["-rdynamic"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "strlen")]
        engine = ["mc/mc.cc", "mc/vsched.cc"]
    else:
        mode = ["-O1", "-fsanitize=address"]
        hmode = mode
        lmode = ["-fsanitize=address", "-rdynamic"]
        engine = ["mc/mc.cc"]
    engine.append("mc/shim_support.cc")
    objs, out = [], []
    q = lambda a: " ".join(sh_quote(x).replace("$", "$$") for x in a)
    out.append("rule cc\n  command = %s -MMD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = $in\n" % CXX)
    out.append("rule asmgen\n  command = %s -MMD -MF $out.d $flags -S $in -o $out.s0 && sed -E $sedexpr $out.s0 > $out.s && %s -c $out.s -o $out\n  depfile = $out.d\n  deps = gcc\n" % (CXX, CXX))
    out.append("rule ld\n  command = %s -o $out $in $flags\n" % CXX)
    def add(path, flags, rule="cc", extra=""):
        o = os.path.join(bdir, re.sub(r"[^\w]", "_", path.replace(HERE, "V").replace(REPO, "R")) + ".o")
        objs.append(o)
        out.append("build %s: %s %s\n  flags = %s\n%s" % (o, rule, path, q(flags), extra))
    if chk["mode"] == "sched": add(os.path.join(HERE, "mc/stdhooks.cc"), common + mode)
    for e in engine: add(os.path.join(HERE, e), engine_flags + ["-I" + HERE + "/mc", "-I" + HERE + "/shim"])
    for s in chk["src"]: add(os.path.join(HERE, s), common + hmode + inc + base + chk["flags"])
    for s in chk["repo"]:
        flags = common + mode + inc + base + chk["flags"]
        if s in chk["asm"]:   # hardware counter reads become calls that the harness answers
            add(os.path.join(REPO, s), flags + ["-mno-red-zone"], "asmgen", "  sedexpr = 's/^[[:space:]]*rdtscp[[:space:]]*$$/\\tcall mc_rdtscp_asm/; s/^[[:space:]]*rdtsc[[:space:]]*$$/\\tcall mc_rdtsc_asm/'\n")
        else:
            add(os.path.join(REPO, s), flags)
    for s in chk.get("gensrc", []): add(os.path.join(bdir, "gen", s), common + mode + inc + base + chk["flags"])
    exe = os.path.join(bdir, "check")
    out.append("build %s: ld %s\n  flags = %s\n" % (exe, " ".join(objs), q(lmode + chk["link"] + ["-lgflags", "-ldl", "-lpthread"])))
    write_if_changed(bdir + "/build.ninja", "\n".join(out) + "\ndefault %s\n" % exe)
    r = subprocess.run(["ninja", "-C", bdir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines() if re.search(r"error|undefined reference|multiple definition|cannot find", l) and "note:" not in l]
        print("\n".join(errs[:25]) if errs else r.stdout[-3000:])
        print("BUILD ERROR: the check could not be built from " + REPO)
        sys.exit(70)
    return exe

def write_if_changed(p, s):
    if os.path.exists(p) and open(p).read() == s: return
    with open(p, "w") as f: f.write(s)

def main():
    a = sys.argv[1:]
    cid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    rest = []
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--thorough": tier = "thorough"
        else: rest.append(x)
    chk = CHECKS[cid]
    bdir = os.path.join(os.environ.get("VERIF_BUILD", HERE + "/build"), cid)
    exe = build(chk, bdir)
    out = bdir + "/out"
    os.makedirs(out, exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    cmd = [exe, "--known", HERE + "/known_findings.txt", "--outdir", out]
    if "--replay" not in rest: cmd += ["--evidence", os.path.join(os.environ.get("VERIF_EVIDENCE", HERE + "/evidence"), cid + ".json")]
    if tier == "thorough": cmd.append("--thorough")
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:exitcode=99:detect_odr_violation=0:alloc_dealloc_mismatch=1:max_malloc_fill_size=4096:malloc_fill_byte=190"
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    env["MC_REPO"] = REPO
    sys.stdout.flush()
    os.execve(exe, cmd + rest, env)

if __name__ == "__main__":
    main()
