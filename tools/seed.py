#!/usr/bin/env python3
"""Writes and verifies planted bugs: seed.py [ID...]   (definitions in tools/seeds/*.py)
For each: scratch copy of /repo, the edit, patch.diff; builds the repository's own subset and its tests with
the edit; the demonstration without and with it; then the property's check against the edited copy."""
import glob, json, os, re, shutil, subprocess, sys, importlib.util
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedw"; B = "/tmp/seedb"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0: the property holds for this program; run with the repository as working directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
grep -E '^[[:space:]]*#[[:space:]]*include' "$R/src/common/base/Base.h" | grep -vE '[<"]folly/' > "$W/base_includes.h"
cd "$W"
g++ -std=c++17 -w -g -fno-strict-aliasing %(flags)s -DNEBULA_HOME=/repo -DCOMMON_BASE_BASE_H_ -include "$W/base_includes.h" -I"$R/src" "$D/demo.cc" %(srcs)s -o "$W/demo" %(libs)s || exit 3
timeout %(timeout)s "$W/demo"
'''
def load():
    out = {}
    for f in sorted(glob.glob(HERE + "/tools/seeds/*.py")):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out.update(m.SEEDS)
    return out
def reset():
    sh(f"git -C {W} checkout -q -f --detach $(git -C /repo rev-parse HEAD) && git -C {W} checkout -q -- . && git -C {W} clean -fdq -e _build")
def main():
    seeds = load()
    ids = sys.argv[1:] or list(seeds)
    if not os.path.exists(W): print(sh(f"git -C /repo worktree prune; git -C /repo worktree add -q --detach {W} HEAD").stdout)
    summary = []
    for i in ids:
        s = seeds[i]; d = f"{HERE}/seeded/{i}"
        reset(); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for path, old, new in s["edits"]:
            p = f"{W}/src/common/{path}"; t = open(p).read()
            if t.count(old) != 1: print(i, "edit matches", t.count(old), "times:", old); sys.exit(1)
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh(f"git -C {W} diff").stdout)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.cc", "w").write(s["demo"].lstrip("\n"))
        if "script" in s: open(d + "/demo.sh", "w").write(s["script"].lstrip("\n"))
        else: open(d + "/demo.sh", "w").write(DEMO % dict(flags=s.get("flags", ""), srcs=" ".join('"$R/src/common/%s"' % x for x in s.get("srcs", [])), libs=s.get("libs", "-lglog -lgflags -lpthread"), timeout=s.get("timeout", 60)))
        for fn, txt in s.get("files", {}).items(): open(f"{d}/{fn}", "w").write(txt.lstrip("\n"))
        os.chmod(d + "/demo.sh", 0o755)
        # demonstration: patched
        r1 = sh(f"bash {d}/demo.sh", cwd=W)
        # repository's own build and tests
        os.makedirs(B, exist_ok=True)
        b = sh(f"grep -E '^[[:space:]]*#[[:space:]]*include' {W}/src/common/base/Base.h | grep -vE '[<\"]folly/' > {B}/base_includes.h; [ -f {B}/build.ninja ] || CC=gcc CXX=g++ cmake -S /opt/vp/subset -B {B} -DREPO={W} -G Ninja -DCMAKE_BUILD_TYPE=Debug; ninja -C {B} && ctest --test-dir {B} -j8 --timeout 300")
        ok = "100% tests passed" in b.stdout
        # the property's check
        env = dict(os.environ, VERIF_REPO=W, VERIF_BUILD="/tmp/seedc", VERIF_EVIDENCE="/tmp/seedc")
        c = sh(f"timeout 900 python3 {HERE}/run.py {s['property']}", env=env)
        caught = c.returncode == 1 and f"VIOLATION property={s['property']}" in c.stdout
        reset()
        r0 = sh(f"bash {d}/demo.sh", cwd=W)
        print(f"{i:28} {s['property']} demo0={r0.returncode} demo1={r1.returncode} tests={'ok' if ok else 'FAIL'} check={'caught' if caught else 'MISSED rc=%d' % c.returncode}")
        if r0.returncode != 0: print(r0.stdout[-1500:])
        if r1.returncode in (0, 3): print(r1.stdout[-1500:])
        if not ok: print(b.stdout[-1500:])
        if not caught: print(c.stdout[-800:])
        sys.stdout.flush()
main()
