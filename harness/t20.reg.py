for _k, _d in (("i", "integer"), ("s", "string")):
    for _s in (0, 1):
        for _o in ((0, 2), (3, 5)):
            H("c20_%s%d_%d" % (_k, _s, _o[0]), "C20", "c20.c", "map lookups by %s key" % _d,
              "maps of 0-4 entries with keys of every type and encoding (all payload values), 16- and 32-bit counts included; every key looked for (64-bit integers; strings of 0-2 bytes)", 24,
              defs=['SHAPES="shapes_maps%s%d.inc"' % (_k, _s), "OPLO=%d" % _o[0], "OPHI=%d" % _o[1]] + (["INTS"] if _k == "i" else []), lib_defs=_p4, libs=_nl, object_bits=12, fs=1024, cost=60)
H("c20_at", "C20", "c20_at.c", "index accessors and enumerations", "messages of every element type, nested arrays and maps; every 64-bit index", 24, defs=['SHAPES="shapes_msgs.inc"'], lib_defs=_p4, libs=_nl, object_bits=12, fs=1024, cost=60)
