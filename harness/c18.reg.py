_b = "all strings of 0..%d bytes"
H("c18_reader", "C18", "c18.c", "reader and expect functions", _b % 5, 11, object_bits=11, defs=["PART=0"], tier="quick-only")
H("c18_node", "C18", "c18.c", "node functions", _b % 5, 11, object_bits=11, defs=["PART=1"], tier="quick-only")
H("c18_reader9", "C18", "c18.c", "reader and expect functions", _b % 9, 12, object_bits=11, defs=["PART=0", "N=9"], tier="thorough", timeout=3600)
H("c18_node9", "C18", "c18.c", "node functions", _b % 9, 12, object_bits=11, defs=["PART=1", "N=9"], tier="thorough", timeout=3600)
