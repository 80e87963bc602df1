"""Every harness: which property it decides, how it is built and its bounds."""
import os

LEVEL = "model_checking"
VERIF = os.path.dirname(os.path.abspath(__file__))
LIBS = ["common", "expect", "node", "platform", "reader", "writer"]
ASSUMPTIONS = [
    "x86-64 LP64 little-endian model of C as implemented by CBMC (unless a harness states 32-bit)",
    "CBMC, its SAT back end, goto-cc and gcc are trusted; every reported violation is replayed natively",
    "allocation requests above the stated cap fail; allocation below it succeeds unless the harness makes failure symbolic",
]
HARNESSES = []


def H(name, prop, file, title, bounds, unwind, defs=(), lib_defs=(), mode="func", tier="quick", timeout=600, arch=64,
      unwindset=(), flags=(), solver="cadical", slice=False, object_bits=8, libs=None, extra=(), cost=10, assumes=(), fs=0):
    HARNESSES.append(dict(name=name, prop=prop, file=file, title=title, bounds=bounds, unwind=unwind, defs=list(defs),
        lib_defs=list(lib_defs), mode=mode, tier=tier, timeout=timeout, arch=arch, unwindset=list(unwindset), flags=list(flags),
        solver=solver, slice=slice, object_bits=object_bits, libs=list(libs or LIBS), extra=list(extra), cost=cost, assumes=list(assumes), fs=fs))


def all_harnesses(tier):
    """quick: harnesses marked quick; thorough: those marked quick or thorough
    (a harness marked 'quick-only' is replaced by a deeper one)."""
    if tier == "quick":
        return [h for h in HARNESSES if h["tier"] in ("quick", "quick-only")]
    return [h for h in HARNESSES if h["tier"] in ("quick", "thorough")]


def KNOWN_PROPS():
    return []


def known_findings(pid):
    """Lines 'property=<id> <what>' of known-findings.txt that are still open."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out

# harness definitions live next to the harness sources
for _f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
    if _f.endswith(".reg.py"):
        exec(compile(open(os.path.join(VERIF, "harness", _f)).read(), _f, "exec"))
