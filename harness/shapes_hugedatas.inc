/* generated by tools/gen_shapes.py: 17 templates */
SHAPE(0xdb, 0x00, 0x00, 0x01, 0x00, Y, Y)
SHAPE(0xdb, 0x00, 0x01, 0x00, 0x00, Y, Y)
SHAPE(0xdb, 0x7f, 0xff, 0xff, 0xff, Y, Y)
SHAPE(0xdb, 0x80, 0x00, 0x00, 0x00, Y, Y)
SHAPE(0xdb, 0xff, 0xff, 0xff, 0xfe, Y, Y)
SHAPE(0xdb, 0xff, 0xff, 0xff, 0xff, Y, Y)
SHAPE(0xc6, 0x00, 0x00, 0x10, 0x00, Y)
SHAPE(0xc6, 0x7f, 0xff, 0xff, 0xff, Y)
SHAPE(0xc6, 0x80, 0x00, 0x00, 0x00, Y)
SHAPE(0xc6, 0xff, 0xff, 0xff, 0xff, Y)
SHAPE(0xc9, 0x00, 0x00, 0x10, 0x00, Y, Y)
SHAPE(0xc9, 0x7f, 0xff, 0xff, 0xff, Y, Y)
SHAPE(0xc9, 0xff, 0xff, 0xff, 0xff, Y, Y)
SHAPE(0xda, 0xff, 0xff, Y)
SHAPE(0xd9, 0xff, Y)
SHAPE(0xc4, 0xff, Y)
SHAPE(0xbf, Y)
