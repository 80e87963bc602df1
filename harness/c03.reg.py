_b = "every scalar/start/tag write function, all 64-bit values, all 32-bit lengths, both spec versions, 24-byte buffer"
H("c03_encode", "C03", "c03.c", "encodings vs reference encoder", _b, 26, cost=20)
H("c03_size", "C03", "c03.c", "encodings, size-optimised writer", _b, 26, lib_defs=["MPACK_OPTIMIZE_FOR_SIZE=1"])
H("c03_nocompat", "C03", "c03.c", "encodings without compatibility mode", _b, 26, lib_defs=["MPACK_COMPATIBILITY=0"])
H("c03_nofloat", "C03", "c03.c", "encodings without floating point or extensions", _b, 26, lib_defs=["MPACK_FLOAT=0", "MPACK_DOUBLE=0", "MPACK_EXTENSIONS=0"])
_b2 = "every 32-bit length; payload bytes symbolic up to 40 (longer payloads are delivered by pointer), 32-byte buffer, both versions"
H("c03_str", "C03", "c03_str.c", "str/bin/ext data of every length", _b2, 42)
H("c03_str_size", "C03", "c03_str.c", "str/bin/ext data, size-optimised", _b2, 42, lib_defs=["MPACK_OPTIMIZE_FOR_SIZE=1"])
H("c03_utf8", "C03", "c03_utf8.c", "text writers", "all strings of 0..5 bytes", 18)
