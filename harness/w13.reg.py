def _c13(name, style, buf, lo, hi, step, fail, message, **k):
    H("c13_" + name, "C13", "c13.c", "writing documents through a flush callback" + (" that fails" if fail else ""), _wb + "; %d-byte buffer preceded by %d..%d (step %d) other bytes%s" % (buf, lo, hi, step, "; the %d. flush fails" % fail if fail else ""), 110, mode="safety",
      defs=['SHAPES="shapes_docs.inc"', "STYLE=%d" % style, "BUF=%d" % buf, "FLO=%d" % lo, "FHI=%d" % hi, "FSTEP=%d" % step, "FAIL=%d" % fail, "MESSAGE=%d" % message], lib_defs=_wd, libs=_wl, object_bits=16, fs=1024, cost=60, **k)
for _s in (0, 1):
    _c13("%da" % _s, _s, 32, 0, 16, 1, 0, 1)
    _c13("%db" % _s, _s, 32, 17, 34, 1, 0, 0)
_c13("2", 2, 33, 0, 33, 3, 0, 1)
_c13("long", 0, 40, 5, 45, 4, 0, 1)
_c13("fail1", 0, 32, 0, 33, 3, 1, 0)
_c13("fail2", 1, 32, 0, 33, 3, 2, 0)
