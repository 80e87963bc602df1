/* generated by tools/gen_shapes.py: 16 templates */
SHAPE(0xc0)
SHAPE(0xf0)
SHAPE(0xca, Y, Y, Y, Y)
SHAPE(0xcc, Y)
SHAPE(0xd0, Y)
SHAPE(0xa1, 0x61)
SHAPE(0xa2, 0x61, 0xff)
SHAPE(0xa5, 0x62, 0x62, 0x62, 0x62, 0x62)
SHAPE(0xa3, 0x61)
SHAPE(0xc6, 0x7f, 0xff, 0xff, 0xff, 0x01)
SHAPE(0xd7, 0x05, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x02, Y, Y, Y)
SHAPE(0x90)
SHAPE(0xdd, 0xff, 0xff, 0xff, 0xff)
SHAPE(0xdf, 0xff, 0xff, 0xff, 0xf0, 0x01)
SHAPE(0xcd, Y)
