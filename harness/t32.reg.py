for _lo, _hi in ((0, 4), (5, 9), (10, 13), (14, 17), (18, 22), (23, 26)):
    H("c32_%d" % _lo, "C32", "c32.c", "two navigation steps and a final accessor, nothing checked in between",
      "8 messages (nested arrays and maps with symbolic values, duplicate keys, truncated, reserved byte); 9x9 navigation steps, accessors %d-%d" % (_lo, _hi), 24, mode="safety",
      defs=['SHAPES="shapes_chain.inc"', "TLO=%d" % _lo, "THI=%d" % _hi], lib_defs=_p4, libs=_nl, object_bits=12, fs=1024, cost=60)
