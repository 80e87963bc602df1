_st7 = ["read_bytes", "in place", "small pieces", "skip", "allocated copy", "UTF-8 in place", "one byte then skip", "peeking first", "expectations", "discard"]
def _c07(name, style, shapes="rstream", buf=32, ch=(1,), lo=0, hi=0, step=1, cuts=1, skip=0, mem=0, prop="C07", mode="func", ld=(), unwind=82, **k):
    H("%s_%s" % (prop.lower(), name), prop, "c07.c", "%s: %s" % ("from memory" if mem else "through fill callbacks returning at most %s bytes%s" % ("/".join(map(str, ch)), ", with a skip callback" if skip else ""), _st7[style]),
      "messages of every kind (templates with symbolic payloads up to 70 bytes); complete and with 1..%d bytes missing; %d-byte buffer; after %d..%d (step %d) bytes of filler" % (cuts, buf, lo, hi, step), unwind, mode=mode,
      defs=["STYLE=%d" % style, "BUF=%d" % buf, "CH0=%d" % ch[0], "CH1=%d" % ch[-1], "FLO=%d" % lo, "FHI=%d" % hi, "FSTEP=%d" % step, "CUTS=%d" % cuts, "SKIP=%d" % skip, "MEMORY=%d" % mem, "TAIL=%d" % (shapes[0] == "r"), 'SHAPES="shapes_%s.inc"' % shapes],
      lib_defs=["MPACK_WRITER=0", "MPACK_NODE=0"] + list(ld), libs=["common", "platform", "reader", "expect"], object_bits=14, fs=1024, cost=40, **k)
_c07("bytes1", 0, ch=(1,))
_c07("bytes_a", 0, ch=(5, 2), lo=27, hi=35, step=4)
_c07("bytes_b", 0, ch=(32,), lo=17, hi=31, step=7, mode="safety")
_c07("bytes_64", 0, ch=(64,), buf=64, lo=49, hi=66, step=8)
_c07("bytes_128", 0, ch=(128, 3), buf=128, lo=120, hi=129, step=3, shapes="rshort", unwind=132)
_c07("inplace_a", 1, ch=(1,), lo=0, hi=30, step=15)
_c07("inplace_b", 1, ch=(7, 3), lo=25, hi=34, step=3)
_c07("inplace_40", 1, ch=(40,), buf=40, lo=30, hi=38, step=4, mode="safety")
_c07("pieces_a", 2, ch=(3, 9), lo=0, hi=32, step=8)
_c07("pieces_64", 2, ch=(64,), buf=64, lo=55, hi=64, step=3)
_c07("skip_a", 3, ch=(4,), lo=0, hi=28, step=14)
_c07("skip_b", 3, ch=(32, 1), lo=22, hi=31, step=3)
_c07("skipcb_a", 3, ch=(4,), lo=0, hi=28, step=14, skip=1)
_c07("skipcb_b", 3, ch=(32, 1), lo=22, hi=31, step=3, skip=1)
_c07("alloc_a", 4, ch=(3,), lo=0, hi=32, step=16)
_c07("alloc_b", 4, ch=(33,), buf=33, lo=18, hi=33, step=5, mode="safety")
_c07("utf8", 5, ch=(11,), lo=0, hi=30, step=10, shapes="rshort")
_c07("mixed", 6, ch=(13, 32), lo=4, hi=32, step=7, skip=1)
_c07("mixed_b", 6, ch=(1,), lo=0, hi=33, step=11)
_c07("peek_a", 7, ch=(1, 2), lo=0, hi=31, step=31)
_c07("peek_b", 7, ch=(32,), lo=20, hi=32, step=4)
_c07("expect_a", 8, ch=(1,), lo=0, hi=32, step=16)
_c07("expect_b", 8, ch=(6, 32), lo=23, hi=32, step=3)
_c07("expect_32", 8, ch=(6, 32), lo=24, hi=32, step=4, arch=32)
_c07("expect_z", 8, ch=(9,), lo=28, hi=32, step=2, ld=["MPACK_OPTIMIZE_FOR_SIZE=1"])
_c07("cuts", 0, ch=(4, 8), cuts=8, lo=0, hi=0)
_c07("cuts_i", 1, ch=(32,), cuts=6, lo=29, hi=29)
_c07("cuts_e", 8, ch=(5,), cuts=8, lo=0, hi=0)
# C24
_c07("mem", 9, prop="C24", mem=1, buf=120, cuts=6, mode="safety")
_c07("mem_deep", 9, prop="C24", mem=1, buf=120, cuts=1, shapes="deep", mode="safety")
_c07("mem_single", 9, prop="C24", mem=1, buf=120, cuts=0, shapes="single", mode="safety")
_c07("mem_trunc", 9, prop="C24", mem=1, buf=120, cuts=0, shapes="trunc", mode="safety")
_c07("mem_counts", 9, prop="C24", mem=1, buf=120, cuts=0, shapes="dcounts", mode="safety")
_c07("fill_1", 9, prop="C24", ch=(1,), cuts=2)
_c07("fill_a", 9, prop="C24", ch=(5, 2), lo=27, hi=35, step=4)
_c07("fill_b", 9, prop="C24", ch=(32,), lo=17, hi=31, step=7)
_c07("fill_128", 9, prop="C24", ch=(128, 3), buf=128, lo=120, hi=129, step=3, shapes="rshort", unwind=132)
_c07("seek_1", 9, prop="C24", ch=(1,), cuts=2, skip=1)
_c07("seek_a", 9, prop="C24", ch=(32, 3), lo=25, hi=33, step=4, skip=1)
_c07("seek_64", 9, prop="C24", ch=(64,), buf=64, lo=40, hi=64, step=8, skip=1)
_c07("seek_32", 9, prop="C24", ch=(32, 3), lo=25, hi=33, step=4, skip=1, arch=32)
_c07("deep_s", 9, prop="C24", ch=(2,), shapes="deep", cuts=0)
_c07("mem_z", 9, prop="C24", mem=1, buf=120, cuts=1, ld=["MPACK_OPTIMIZE_FOR_SIZE=1"])
for _st in range(10):
    for _ch in ((1,), (2, 7), (3,), (16, 5), (31, 1), (64,)):
        for _bf in (32, 33, 48):
            _c07("t%d_%d_%d_%d" % (_st, _ch[0], _ch[-1], _bf), _st, prop="C24" if _st == 9 else "C07", ch=_ch, buf=_bf, lo=0, hi=34, step=2, cuts=2, skip=_bf & 1, shapes="rstream" if _st != 5 else "rshort", tier="thorough", timeout=3000)
