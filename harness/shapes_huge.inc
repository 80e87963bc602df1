/* generated by tools/gen_shapes.py: 37 templates */
SHAPE(0xdb, 0x7f, 0xff, 0xff, 0xf0, 0x07, 0x07)
SHAPE(0xdb, 0x7f, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xdb, 0x80, 0x00, 0x00, 0x00, 0x07, 0x07)
SHAPE(0xdb, 0x80, 0x00, 0x00, 0x08, 0x07, 0x07)
SHAPE(0xdb, 0xff, 0xff, 0xff, 0xf0, 0x07, 0x07)
SHAPE(0xdb, 0xff, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xdb, 0x00, 0x00, 0x10, 0x00, 0x07, 0x07)
SHAPE(0xc6, 0x7f, 0xff, 0xff, 0xf0, 0x07, 0x07)
SHAPE(0xc6, 0x7f, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xc6, 0x80, 0x00, 0x00, 0x00, 0x07, 0x07)
SHAPE(0xc6, 0x80, 0x00, 0x00, 0x08, 0x07, 0x07)
SHAPE(0xc6, 0xff, 0xff, 0xff, 0xf0, 0x07, 0x07)
SHAPE(0xc6, 0xff, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xc6, 0x00, 0x00, 0x10, 0x00, 0x07, 0x07)
SHAPE(0xc9, 0x7f, 0xff, 0xff, 0xf0, 0x07, 0x07)
SHAPE(0xc9, 0x7f, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xc9, 0x80, 0x00, 0x00, 0x00, 0x07, 0x07)
SHAPE(0xc9, 0x80, 0x00, 0x00, 0x08, 0x07, 0x07)
SHAPE(0xc9, 0xff, 0xff, 0xff, 0xf0, 0x07, 0x07)
SHAPE(0xc9, 0xff, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xc9, 0x00, 0x00, 0x10, 0x00, 0x07, 0x07)
SHAPE(0xdd, 0x7f, 0xff, 0xff, 0xf0, 0x07, 0x07)
SHAPE(0xdd, 0x7f, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xdd, 0x80, 0x00, 0x00, 0x00, 0x07, 0x07)
SHAPE(0xdd, 0x80, 0x00, 0x00, 0x08, 0x07, 0x07)
SHAPE(0xdd, 0xff, 0xff, 0xff, 0xf0, 0x07, 0x07)
SHAPE(0xdd, 0xff, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xdd, 0x00, 0x00, 0x10, 0x00, 0x07, 0x07)
SHAPE(0xdf, 0x7f, 0xff, 0xff, 0xf0, 0x07, 0x07)
SHAPE(0xdf, 0x7f, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xdf, 0x80, 0x00, 0x00, 0x00, 0x07, 0x07)
SHAPE(0xdf, 0x80, 0x00, 0x00, 0x08, 0x07, 0x07)
SHAPE(0xdf, 0xff, 0xff, 0xff, 0xf0, 0x07, 0x07)
SHAPE(0xdf, 0xff, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xdf, 0x00, 0x00, 0x10, 0x00, 0x07, 0x07)
SHAPE(0xdb, 0x00, 0x00, 0x00, 0x01, 0x07)
SHAPE(0xdb, Y, Y, Y, Y, 0x07)
