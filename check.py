#!/usr/bin/env python3
"""Decides one property by bounded symbolic execution of the real sources.

usage: check.py PID              run every harness of property PID
       check.py --replay FILE    re-run a reported counterexample natively
       check.py --only NAME PID  run one harness (development)

For every harness: goto-cc compiles /repo's current sources together with the
harness, CBMC decides the assertions for all symbolic values within the bound,
a vacuity twin must be reachable and its witness must run to the end in the
native (ASan+UBSan) build, and any counterexample is replayed natively before
it is reported.
"""
import sys, os, json, time, subprocess, tempfile, shutil, threading, re, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "mpack")
HD = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
import registry

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
LIBS = ["common", "expect", "node", "platform", "reader", "writer"]
BUDGET = float(os.environ.get("VF_BUDGET", 840 if TIER == "quick" else 6 * 3600))
T0 = time.time()
JOBS = int(os.environ.get("VF_JOBS", "8"))
MEM = 14 << 30

FUNC_FLAGS = ["--no-standard-checks"]
SAFE_FLAGS = ["--pointer-overflow-check"] if False else []


STOP = threading.Event()
LIVE, LIVE_LOCK = set(), threading.Lock()


def kill_live():
    """A violation has been replayed: the remaining queries cannot change the verdict."""
    with LIVE_LOCK:
        for pid in LIVE:
            try: os.killpg(pid, 9)
            except (ProcessLookupError, PermissionError): pass


class Proc:
    pass


def peak_mb(pid):
    try:
        with open("/proc/%d/status" % pid) as f:
            return int(re.search(r"VmHWM:\s+(\d+)", f.read()).group(1)) >> 10
    except (OSError, AttributeError):
        return 0


class Turns:
    """Solver runs share the machine; one that ran out of memory is repeated alone."""
    def __init__(self):
        self.c, self.n, self.alone = threading.Condition(), 0, False

    def run(self, fn, alone=False):
        with self.c:
            if alone:
                self.c.wait_for(lambda: not self.alone)
                self.alone = True
                self.c.wait_for(lambda: self.n == 0)
            else:
                self.c.wait_for(lambda: not self.alone)
                self.n += 1
        try:
            return fn()
        finally:
            with self.c:
                if alone: self.alone = False
                else: self.n -= 1
                self.c.notify_all()


TURNS = Turns()


def run(cmd, timeout, cwd=None, env=None, mem=MEM):
    def pre():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    p = Proc()
    t = time.time()
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        q = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, cwd=cwd, env=env,
                             preexec_fn=pre if mem else os.setsid)
        with LIVE_LOCK: LIVE.add(q.pid)
        p.mem_mb = 0
        try:
            end = t + max(1, timeout)
            while True:
                try:
                    p.rc = q.wait(timeout=max(0.05, min(0.5, end - time.time())))
                    break
                except subprocess.TimeoutExpired:
                    if time.time() >= end: raise
                    p.mem_mb = max(p.mem_mb, peak_mb(q.pid))
            p.timeout = False
        except subprocess.TimeoutExpired:
            try: os.killpg(q.pid, 9)
            except ProcessLookupError: pass
            q.wait()
            p.rc, p.timeout = -1, True
        finally:
            with LIVE_LOCK: LIVE.discard(q.pid)
        fo.seek(0); fe.seek(0)
        p.out = fo.read().decode("utf-8", "replace")
        p.err = fe.read().decode("utf-8", "replace")
    p.wall = time.time() - t
    return p


def left():
    return BUDGET - (time.time() - T0)


class Inconclusive(Exception):
    pass


class Build:
    """Compiles the library per configuration, once, and links harnesses."""
    def __init__(self, work):
        self.work, self.lock, self.made = work, threading.Lock(), {}

    def _once(self, key, fn):
        with self.lock:
            ent = self.made.get(key)
            if ent is None:
                ent = self.made[key] = [threading.Lock(), None, None]
        with ent[0]:
            if ent[1] is None and ent[2] is None:
                try: ent[1] = fn()
                except Exception as e: ent[2] = e
            if ent[2] is not None: raise ent[2]
            return ent[1]

    def lib(self, kind, defs, arch, libs):
        key = (kind, tuple(defs), arch, tuple(libs))
        def make():
            d = tempfile.mkdtemp(dir=self.work)
            objs = []
            for f in list(libs):
                src = os.path.join(SRC, "mpack-%s.c" % f)
                o = os.path.join(d, f + ".o")
                self.cc(kind, defs, arch, ["-c", src, "-o", o])
                objs.append(o)
            for f in ["vf_lib"] + (["vf_native"] if kind != "cbmc" and kind != "twin" else []):
                o = os.path.join(d, f + ".o")
                self.cc(kind, defs, arch, ["-c", os.path.join(HD, f + ".c"), "-o", o])
                objs.append(o)
            return objs
        return self._once(("lib",) + key, make)

    def cc(self, kind, defs, arch, args):
        inc = ["-DMPACK_HAS_CONFIG=1", "-I" + HD, "-I" + SRC] + ["-D" + d for d in defs]
        a = ["-m32"] if arch == 32 else []
        if kind in ("cbmc", "twin"):
            cmd = ["goto-cc"] + a + inc + ["-DVF_CBMC=1", "-D__builtin_unreachable=vf_unreachable"]
            if kind == "twin": cmd.append("-DVF_TWIN=1")
        else:
            cmd = ["gcc", "-std=gnu11", "-g", "-O1", "-w", "-fno-omit-frame-pointer"] + a + inc
            if kind == "asan":
                cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]
        p = run(cmd + args, 300, cwd=self.work)
        if p.rc != 0:
            raise Inconclusive("compile failed: %s\n%s" % (" ".join(cmd + args), (p.err + p.out)[-3000:]))

    def harness(self, h, kind):
        def make():
            out = os.path.join(self.work, "%s.%s" % (h["name"], kind))
            objs = self.lib(kind, h["lib_defs"], h["arch"], h["libs"])
            src = [os.path.join(HD, f) for f in [h["file"]] + h["extra"]]
            self.cc(kind, h["lib_defs"] + h["defs"], h["arch"], src + objs + ["-o", out] + (["-lm"] if kind == "asan" else []))
            return out
        return self._once(("h", h["name"], kind), make)


def parse_cbmc(p):
    """-> dict(status, props:[(name, desc, status, trace)], stats)"""
    r = dict(status=None, props=[], stats={}, msgs=[])
    try:
        js = json.loads(p.out)
    except Exception:
        # truncated output (timeout / killed)
        r["status"] = "timeout" if p.timeout else "error"
        r["msgs"] = [p.out[-500:], p.err[-500:]]
        return r
    st = r["stats"]
    for e in js:
        if "messageText" in e:
            m = e["messageText"]
            x = re.search(r"size of program expression: (\d+) steps", m)
            if x: st["steps"] = int(x.group(1))
            x = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
            if x: st["vccs"], st["vccs_remaining"] = int(x.group(1)), int(x.group(2))
            x = re.search(r"(\d+) variables, (\d+) clauses", m)
            if x: st["variables"], st["clauses"] = int(x.group(1)), int(x.group(2))
            x = re.search(r"Runtime Solver: ([0-9.e+-]+)s", m)
            if x: st["solver_s"] = st.get("solver_s", 0) + float(x.group(1)); st["solver_calls"] = st.get("solver_calls", 0) + 1
            x = re.search(r"Runtime Symex: ([0-9.e+-]+)s", m)
            if x: st["symex_s"] = float(x.group(1))
            if e.get("messageType") == "ERROR": r["msgs"].append(m)
            if "no body for" in m or "out of memory" in m.lower(): r["msgs"].append(m)
        elif "result" in e:
            for q in e["result"]:
                r["props"].append((q.get("property"), q.get("description"), q.get("status"), q.get("trace")))
        elif "property" in e and "trace" in e:  # --stop-on-fail
            r["props"].append((e["property"], e.get("description", ""), "FAILURE", e["trace"]))
        elif "cProverStatus" in e:
            r["status"] = e["cProverStatus"]
    if r["status"] is None:
        # --stop-on-fail prints the trace list without "property" in some versions
        r["status"] = "timeout" if p.timeout else "error"
    return r


def find_trace_failure(js_text):
    pass


def inputs_of(trace):
    vals = []
    for s in trace:
        if s.get("stepType") == "input":
            for v in s.get("values", []):
                b = v.get("binary")
                vals.append(int(b, 2) if b else int(re.sub(r"[^0-9-]", "", v.get("data", "0")) or 0))
    return vals


def failure_of(trace):
    for s in reversed(trace):
        if s.get("stepType") == "failure":
            loc = s.get("sourceLocation", {})
            return s.get("property", "?"), s.get("reason", "?"), "%s:%s (%s)" % (
                loc.get("file", "?"), loc.get("line", "?"), loc.get("function", "?"))
    return "?", "?", "?"


def cbmc(binary, h, unwind, timeout, twin=False, allprops=False):
    cmd = ["cbmc", binary, "--json-ui", "--verbosity", "8", "--unwind", str(unwind), "--drop-unused-functions",
           "--no-malloc-may-fail", "--object-bits", str(h["object_bits"]), "--trace"]
    cmd += ["--sat-solver", h["solver"]]
    if h["fs"]: cmd += ["--max-field-sensitivity-array-size", str(h["fs"])]
    if h["slice"]: cmd += ["--slice-formula"]
    if not allprops: cmd += ["--stop-on-fail"]
    for u in h["unwindset"]: cmd += ["--unwindset", u]
    if h["arch"] == 32: cmd += ["--32"]
    if twin:
        cmd += ["--no-standard-checks", "--no-unwinding-assertions", "--no-built-in-assertions"]
    else:
        cmd += ["--unwinding-assertions"]
        if h["mode"] == "func": cmd += FUNC_FLAGS
        cmd += h["flags"]
    p = TURNS.run(lambda: run(cmd, min(timeout, left())))
    r = parse_cbmc(p)
    if not STOP.is_set() and not p.timeout and r["status"] == "error" and (p.rc < 0 or "memory" in (p.out + p.err)[-20000:]):
        p = TURNS.run(lambda: run(cmd, min(timeout, left()), mem=MEM * 2), alone=True)
        r = parse_cbmc(p)
    r["wall"], r["mem_mb"] = p.wall, p.mem_mb
    if p.timeout: r["status"] = "timeout"
    # a single failure trace (stop-on-fail) carries its own failure step
    for i, (n, d, s, t) in enumerate(r["props"]):
        if t and (not n or n == "?"):
            n, d, _ = failure_of(t)
            r["props"][i] = (n, d, s, t)
    return r


def native(binary, vals, timeout=20, extra_env=None):
    fd, path = tempfile.mkstemp(suffix=".vals", dir=WORK)
    with os.fdopen(fd, "w") as f:
        for v in vals: f.write("%d\n" % v)
    env = dict(os.environ, VF_REPLAY=path,
               ASAN_OPTIONS="exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")
    env.update(extra_env or {})
    p = run([binary], timeout, env=env, mem=None)
    txt = p.out + p.err
    if p.timeout: res = "hang"
    elif "VF-CHECK-FAILED" in p.out: res = "check"
    elif "VF-ASSUME-FAILED" in p.out: res = "assume"
    elif "ERROR: AddressSanitizer" in txt: res = "asan"
    elif "runtime error:" in txt: res = "ubsan"
    elif p.rc < 0: res = "signal %d" % -p.rc
    elif "VF-END" in p.out: res = "end"
    else: res = "exit %d" % p.rc
    m = re.search(r"VF-CHECK-FAILED (.*)", p.out) or re.search(r"ERROR: AddressSanitizer: (.*)", txt) or re.search(r"runtime error: (.*)", txt)
    os.unlink(path)
    return res, (m.group(0) if m else txt[-300:]), txt


BAD = ("check", "asan", "ubsan", "hang", "signal")


def is_bad(res):
    return res.startswith("signal") or res in BAD


def write_replay(h, vals, prop, desc, loc, res, msg, txt):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.%s.txt" % (h["prop"], h["name"]))
    with open(path, "w") as f:
        f.write("# property=%s harness=%s tier=%s\n" % (h["prop"], h["name"], TIER))
        f.write("# solver: %s: %s at %s\n" % (prop, desc, loc))
        f.write("# native replay: %s: %s\n" % (res, msg.replace("\n", " ")))
        f.write("# re-run: %s --replay %s\n" % (os.path.abspath(__file__), path))
        for v in vals: f.write("%d\n" % v)
        f.write("".join("# | %s\n" % l for l in txt.splitlines()[:60]))
    return path


def functions_of(binary):
    try:
        p = run(["goto-instrument", "--reachable-call-graph", binary], 60)
        fs = set(re.findall(r"\b(mpack_\w+)\b", p.out))
        return sorted(fs)
    except Exception:
        return []


def run_harness(h, build):
    """-> result dict with verdict in held/violation/inconclusive"""
    res = dict(name=h["name"], title=h["title"], bounds=h["bounds"], unwind=h["unwind"], arch=h["arch"],
               verdict="inconclusive", detail="", queries=0, solver_s=0.0)
    t = time.time()
    try:
        _run_harness(h, build, res)
    except Inconclusive as e:
        res["verdict"], res["detail"] = "inconclusive", str(e)
    except Exception as e:
        import traceback
        res["verdict"], res["detail"] = "inconclusive", "internal error: " + traceback.format_exc()
    res["wall_s"] = round(time.time() - t, 1)
    return res


def try_replay(h, build, res, prop, desc, trace):
    vals = inputs_of(trace)
    _, _, loc = failure_of(trace)
    r, msg, txt = native(build.harness(h, "asan"), vals)
    res.setdefault("counterexamples", []).append(dict(property=prop, description=desc, at=loc, native=r, message=msg, inputs=vals[:64]))
    if r == "check" and h["prop"] in registry.KNOWN_PROPS():
        pass
    if is_bad(r):
        res["verdict"] = "violation"
        res["detail"] = "%s (%s) at %s; native replay: %s: %s" % (prop, desc, loc, r, msg)
        res["replay"] = write_replay(h, vals, prop, desc, loc, r, msg, txt)
        return True
    return False


def _run_harness(h, build, res):
    b = build.harness(h, "cbmc")
    res["functions"] = functions_of(b)
    unwind = h["unwind"]
    tries = 0
    while True:
        tmo = min(h["timeout"], left())
        if tmo < 2: raise Inconclusive("out of time budget")
        r = cbmc(b, h, unwind, tmo)
        st = r["stats"]
        for k in ("steps", "vccs", "vccs_remaining", "variables", "clauses", "symex_s"):
            if k in st: res[k] = st[k]
        res["queries"] += st.get("solver_calls", 0)
        res["solver_s"] += st.get("solver_s", 0.0)
        res["unwind"] = unwind
        res["mem_mb"] = max(res.get("mem_mb", 0), r["mem_mb"])
        if r["status"] == "success":
            res["verdict"] = "held"
            break
        if r["status"] == "failure":
            fails = [x for x in r["props"] if x[2] == "FAILURE" and x[3]]
            if not fails: raise Inconclusive("failure without a trace")
            unw = True
            for n, d, s, t in fails:
                if try_replay(h, build, res, n, d, t): return
                if ".unwind." not in n and ".recursion" not in n: unw = False
            tries += 1
            if unw and tries <= 2:
                unwind = unwind * 2
                res["detail"] = "unwinding bound raised"
                continue
            # look at every failing property before giving up
            r2 = cbmc(b, h, unwind, min(h["timeout"], left()), allprops=True)
            for n, d, s, t in r2["props"]:
                if s == "FAILURE" and t and try_replay(h, build, res, n, d, t): return
            raise Inconclusive("counterexample does not reproduce natively: " + "; ".join(
                "%s: %s" % (c["property"], c["description"]) for c in res["counterexamples"][-3:]))
        raise Inconclusive("cbmc %s after %.0fs: %s" % (r["status"], r["wall"], " | ".join(r["msgs"])[-800:]))
    if any("no body for" in m for m in r["msgs"]):
        raise Inconclusive("; ".join(r["msgs"]))


def run_twin(h, build):
    """Vacuity twin: END() must be reachable, and the witness must execute natively."""
    res = dict(name=h["name"], ok=False, detail="")
    t = time.time()
    try:
        b = build.harness(h, "twin")
        r = cbmc(b, h, h["unwind"], min(h["timeout"], left()), twin=True)
        tr = [x for x in r["props"] if x[3]]
        if r["status"] != "failure" or not tr:
            res["detail"] = "vacuous: END not reachable (%s) %s" % (r["status"], " ".join(r["msgs"])[-300:])
        else:
            n, d, s, trace = tr[0]
            vals = inputs_of(trace)
            w, msg, txt = native(build.harness(h, "asan"), vals)
            res["witness_inputs"] = len(vals)
            res["native"] = w
            if w == "end": res["ok"] = True
            else: res["detail"] = "witness does not run to the end natively: %s %s" % (w, msg)
            if is_bad(w):
                res["violation"] = (vals, n, d, w, msg, txt)
    except Inconclusive as e:
        res["detail"] = str(e)
    except Exception:
        import traceback
        res["detail"] = traceback.format_exc()
    res["wall_s"] = round(time.time() - t, 1)
    return res


def replay_cmd(path):
    head = open(path).readline()
    name = re.search(r"harness=(\S+)", head).group(1)
    h = [x for x in registry.all_harnesses("thorough") + registry.all_harnesses("quick") if x["name"] == name][0]
    vals = [int(l) for l in open(path) if l.strip() and not l.startswith("#")]
    b = Build(WORK).harness(h, "asan")
    r, msg, txt = native(b, vals)
    print(txt)
    print("replay:", r)
    return 1 if is_bad(r) else 0


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay_cmd(args[1])
    only = None
    verbose = os.environ.get("VF_VERBOSE")
    if args and args[0] == "--only":
        only, args = args[1], args[2:]
    pid = args[0]
    hs = [h for h in registry.all_harnesses(TIER) if h["prop"] == pid]
    if only: hs = [h for h in hs if re.fullmatch(only, h["name"])]
    if not hs:
        print("no harness for", pid); return 2
    build = Build(WORK)
    results, twins = [], []
    lock = threading.Lock()
    stop = STOP

    def job(kind, h):
        if stop.is_set(): return
        if kind == "main":
            r = run_harness(h, build)
            if stop.is_set() and r["verdict"] != "violation": return
            with lock: results.append(r)
            if verbose or r["verdict"] != "held":
                print("[%s] %s %.1fs %sM steps=%s vars=%s clauses=%s solver=%.1fs %s" % (r["verdict"], r["name"], r["wall_s"], r.get("mem_mb"), r.get("steps"), r.get("variables"), r.get("clauses"), r["solver_s"], r["detail"][:1500]), flush=True)
            if r["verdict"] == "violation":
                stop.set()
                kill_live()
        else:
            r = run_twin(h, build)
            if stop.is_set() and not r.get("violation"): return
            with lock: twins.append(r)
            if verbose or not r["ok"]:
                print("[twin %s] %s %.1fs %s" % ("ok" if r["ok"] else "FAIL", r["name"], r["wall_s"], r["detail"][:600]), flush=True)
    jobs = [("main", h) for h in sorted(hs, key=lambda h: -h["cost"])]
    if not os.environ.get("VF_NO_TWIN"):
        jobs += [("twin", h) for h in sorted(hs, key=lambda h: -h["cost"])]
    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(job, k, h) for k, h in jobs]: f.result()

    hmap = {h["name"]: h for h in hs}
    for t in twins:
        if t.get("violation"):
            vals, n, d, w, msg, txt = t["violation"]
            path = write_replay(hmap[t["name"]], vals, n, "witness of the vacuity twin", "-", w, msg, txt)
            for r in results:
                if r["name"] == t["name"] and r["verdict"] != "violation":
                    r["verdict"], r["detail"], r["replay"] = "violation", "native run of solver witness: %s %s" % (w, msg), path
            t.pop("violation")
    viol = [r for r in results if r["verdict"] == "violation"]
    inc = [r for r in results if r["verdict"] == "inconclusive"]
    badtwin = [t for t in twins if not t["ok"]]

    known = registry.known_findings(pid)
    fns = sorted(set(f for r in results for f in r.get("functions", [])))
    ev = dict(property=pid, tier=TIER, seed=SEED, level=registry.LEVEL,
        wall_s=round(time.time() - T0, 1),
        coverage=dict(
            explanation="Bounded symbolic execution (CBMC %s, SAT back end) of the listed functions of /repo's current sources; each harness was decided for every value of its symbolic inputs within its stated bounds, with unwinding assertions." % cbmc_version(),
            states=sum(r.get("variables", 0) for r in results),
            transitions=sum(r.get("steps", 0) for r in results),
            traces_validated_against_impl=sum(1 for t in twins if t["ok"]),
            samples=[dict(harness=t["name"], witness_inputs=t.get("witness_inputs"), native=t.get("native")) for t in twins[:8]],
            queries_discharged=sum(r["queries"] for r in results),
            solver_seconds=round(sum(r["solver_s"] for r in results), 2),
            functions_encoded=fns,
            harnesses=[{k: v for k, v in r.items() if k not in ("functions",)} for r in sorted(results, key=lambda r: r["name"])],
            vacuity_twins=[{k: v for k, v in t.items()} for t in sorted(twins, key=lambda t: t["name"])],
            outside="values beyond the listed bounds; see DESIGN.md"),
        assumptions=registry.ASSUMPTIONS + sorted(set(a for h in hs for a in h["assumes"])),
        violations=len(viol))
    if viol:
        ev["coverage"]["violation_details"] = [dict(harness=r["name"], detail=r["detail"], replay=r.get("replay")) for r in viol]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s: %d harnesses, %d held, %d violated, %d inconclusive; twins %d/%d; %.1fs" % (
        pid, len(results), sum(r["verdict"] == "held" for r in results), len(viol), len(inc),
        sum(t["ok"] for t in twins), len(twins), time.time() - T0))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, viol[0]["replay"]))
        return 1
    if inc or badtwin:
        return 2
    return 0


def cbmc_version():
    return run(["cbmc", "--version"], 20).out.split()[0]


if __name__ == "__main__":
    WORK = tempfile.mkdtemp(prefix="vf-", dir=os.environ.get("VF_TMP", "/tmp"))
    try:
        rc = main()
    finally:
        shutil.rmtree(WORK, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
