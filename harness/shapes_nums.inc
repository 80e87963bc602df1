/* generated by tools/gen_shapes.py: 26 templates */
SHAPE(0x07)
SHAPE(0x7f)
SHAPE(0xe0)
SHAPE(0xff)
SHAPE(0xc0)
SHAPE(0xc2)
SHAPE(0xc3)
SHAPE(0xca, Y, Y, Y, Y)
SHAPE(0xcb, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xcc, Y)
SHAPE(0xcd, Y, Y)
SHAPE(0xce, Y, Y, Y, Y)
SHAPE(0xcf, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd0, Y)
SHAPE(0xd1, Y, Y)
SHAPE(0xd2, Y, Y, Y, Y)
SHAPE(0xd3, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x00)
SHAPE(0x40)
SHAPE(0xe5)
SHAPE(0xf8)
SHAPE(0xa1, Y)
SHAPE(0xc4, 0x01, Y)
SHAPE(0xd4, Y, Y)
SHAPE(0x90)
SHAPE(0x80)
