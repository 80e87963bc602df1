#!/usr/bin/env python3
"""Development tool: confirm a planted bug (builds, passes the stable tests, demo
fails with it and passes without) in a scratch copy of /repo, then write
/verif/seeded/<id>/. Usage: plant.py SPEC.py [ID...]; SPEC defines BUGS.
No check reads this."""
import sys, os, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = sys.argv[2:]
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 iff the property's behaviour holds
d=$(dirname "$(readlink -f "$0")"); t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export ASAN_OPTIONS=detect_leaks=%s:allocator_may_return_null=1
gcc -std=gnu11 -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all %s -Isrc/mpack "$d/demo.c" src/mpack/mpack-*.c -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
'''
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)
def one(b):
    w = tempfile.mkdtemp(prefix="pl-", dir="/tmp/sd")
    try:
        r = w + "/repo"
        sh(["cp", "-a", "/repo", r])
        sh(["git", "-C", r, "checkout", "-q", "--", "."])
        for f, old, new in b["edits"]:
            p = r + "/src/mpack/" + f
            s = open(p).read()
            if s.count(old) != b.get("n", 1): return b["id"], "edit matches %d times: %s" % (s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", r, "diff"]).stdout
        d = w + "/seed"
        os.mkdir(d)
        open(d + "/demo.c", "w").write(spec.get("PRE", "") + b["demo"])
        open(d + "/demo.sh", "w").write(DEMO % (b.get("leaks", 0), b.get("defs", "-DMPACK_EXTENSIONS=1")))
        os.chmod(d + "/demo.sh", 0o755)
        ns = ["unshare", "-Urm", "bash", "-c"]
        clean = sh(["bash", d + "/demo.sh"], cwd="/repo")
        if clean.returncode: return b["id"], "demo fails on the clean tree: " + (clean.stdout + clean.stderr)[-800:]
        bad = sh(ns + ["mount --bind %s /repo && cd /repo && bash %s/demo.sh" % (r, d)])
        if bad.returncode in (0, 2): return b["id"], "demo rc=%d with the patch %s" % (bad.returncode, bad.stderr[-800:])
        t = sh(ns + ["mount --bind %s /repo && cd /repo && bash /opt/vp/test.sh %s/out.json" % (r, w)])
        base = json.load(open("/opt/vp/BASELINE.json"))
        try: out = json.load(open(w + "/out.json"))
        except Exception: return b["id"], "tests gave no answer: " + (t.stdout + t.stderr)[-500:]
        miss = sorted(set(base["stable"]) - set(out["passed"]))
        if miss: return b["id"], "REJECTED by %d tests: %s" % (len(miss), miss[:3])
        o = "/verif/seeded/" + b["id"]
        shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        for f in ("demo.c", "demo.sh"): shutil.copy(d + "/" + f, o)
        open(o + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(o + "/meta.json", "w"), indent=1)
        return b["id"], "KEPT"
    finally:
        shutil.rmtree(w, ignore_errors=True)
bs = [b for b in spec["BUGS"] if not want or b["id"] in want]
with ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, bs): print(i, m, flush=True)
