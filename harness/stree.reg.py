_p4 = ["MPACK_NODE_PAGE_SIZE=96", "MPACK_NODE_INITIAL_DEPTH=8", "MPACK_BUFFER_SIZE=4", "MPACK_READER=0", "MPACK_EXPECT=0", "MPACK_WRITER=0"]
_nl = ["common", "platform", "node"]
def _st(prop, name, s, title, bounds, defs, **k):
    H("%s_%s" % (prop.lower(), name), prop, "stree.c", title, _tb[s] + "; values symbolic; " + bounds, 30, defs=['SHAPES="shapes_%s.inc"' % s] + defs, lib_defs=_p4, libs=_nl,
      object_bits=12, fs=1024, cost=60, **k)
_plans = [("1", "1,3"), ("2", "1,64"), ("3,5", "2")]
for _i, (_f, _n) in enumerate(_plans):
    _st("C08", "block%d" % _i, "stream", "blocking parse of a stream of two messages", "first read of {%s} bytes, further reads of {%s}, 4-byte initial buffer" % (_f, _n), ["NONBLOCK=0", "FIRSTS=" + _f, "NEXTS=" + _n])
    _st("C08", "poll%d" % _i, "stream", "polled parse of a stream of two messages", "first poll delivers {%s} bytes, further polls {%s}, with an idle poll in between" % (_f, _n), ["NONBLOCK=1", "IDLE=1", "FIRSTS=" + _f, "NEXTS=" + _n])
_st("C08", "blockt", "streamt", "blocking parse of a stream that ends early", "reads of 1 or 3 bytes", ["NONBLOCK=0", "FIRSTS=2", "NEXTS=1,3"])
_st("C08", "pollt", "streamt", "polled parse of a stream that ends early", "polls of 1 or 3 bytes", ["NONBLOCK=1", "IDLE=1", "FIRSTS=2", "NEXTS=1,3"])
for _l, _w in ((0, "both limits exactly met"), (1, "node limit one too small"), (2, "byte limit one too small")):
    _st("C26", "block%d" % _l, "stream", "limits while parsing a stream: " + _w, "reads of {1,2,8} then {1,64}", ["NONBLOCK=0", "FIRSTS=1,2,8", "NEXTS=1,64", "LIMITS=%d" % _l])
    _st("C26", "poll%d" % _l, "stream", "limits while polling a stream: " + _w, "polls of {1,2,8} then {1,64}", ["NONBLOCK=1", "IDLE=1", "FIRSTS=1,2,8", "NEXTS=1,64", "LIMITS=%d" % _l])
for _s in ("stream", "counts", "deep"):
    H("c26_mem_" + _s, "C26", "c26.c", "limits and memory while parsing from memory", _tb[_s] + "; values symbolic; limits exactly met or one too small", 30, defs=['SHAPES="shapes_%s.inc"' % _s, "STREAM=0"], lib_defs=_p4, libs=_nl,
      object_bits=12, fs=1024, cost=40)
H("c26_huge32", "C26", "c26.c", "declared lengths against a huge limit on a 32-bit target", "strings and binary of declared length 0x7fffffff..0xffffffff; 32-bit; limit 0xfffffff0", 40, defs=['SHAPES="shapes_huge.inc"', "STREAM=1", "LIMIT=0xfffffff0u"], lib_defs=_p4, libs=_nl,
  object_bits=12, fs=1024, cost=40, arch=32)
H("c26_huge", "C26", "c26.c", "declared lengths against the byte limit", "strings, binary, arrays and maps with declared 32-bit lengths; limit 40", 40, defs=['SHAPES="shapes_huge.inc"', "STREAM=1", "LIMIT=40"], lib_defs=_p4, libs=_nl,
  object_bits=12, fs=1024, cost=40)
