def _c14(name, style=0, lo=0, hi=33, step=1, fail=0, message=0, flag=0, builds=0, buf=33, ld=(), prop="C14", title=None, mode="safety", **k):
    H("%s_%s" % (prop.lower(), name), prop, "c14.c", title or "documents written to a growable buffer" + (", an allocation fails" if fail else ", an error is flagged" if flag else ""),
      _wb + "; %d-byte initial buffer, preceded by %d..%d (step %d) other bytes%s%s" % (buf, lo, hi, step, "; allocation %d fails" % fail if fail else "", "; containers built with automatic counts, mask %d" % builds if builds else ""), 110, mode=mode,
      defs=['SHAPES="shapes_docs.inc"', "STYLE=%d" % style, "FLO=%d" % lo, "FHI=%d" % hi, "FSTEP=%d" % step, "FAIL=%d" % fail, "MESSAGE=%d" % message, "FLAG=%d" % flag, "BUILDS=%d" % builds],
      lib_defs=_wd + ["MPACK_BUFFER_SIZE=%d" % buf] + list(ld), libs=_wl, object_bits=16, fs=1024, cost=60, **k)
_c14("0a", 0, 0, 17); _c14("0b", 0, 18, 34)
_c14("1", 1, 0, 33, 2); _c14("2", 2, 1, 33, 4, message=1)
_c14("init", 0, 0, 1, 1, fail=1, mode="func")
_c14("grow1", 0, 0, 33, 3, fail=2); _c14("grow2", 1, 0, 33, 3, fail=3); _c14("grow3", 0, 30, 45, 5, fail=4)
_c14("flag", 0, 0, 33, 11, flag=1)
_c14("realloc", 0, 0, 33, 5, message=1, ld=["VF_REALLOC"])
H("c14_huge32", "C14", "c14_huge.c", "data too large for the address space", "32-bit target; one write of every length from 100 to 0xffffff00 after 11, 22 or 33 other bytes; no memory for it", 40, lib_defs=_wd + ["MPACK_BUFFER_SIZE=33"], libs=_wl, arch=32, cost=20)
