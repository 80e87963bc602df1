/* generated by tools/gen_shapes.py: 8 templates */
SHAPE(0x92, 0x81, 0x07, 0xa2, Y, Y, 0x92, 0xcc, Y, 0xc0)
SHAPE(0x82, 0xa1, 0x61, 0x92, 0xc4, 0x01, Y, 0xd6, 0xff, Y, Y, Y, Y, 0x07, 0x82, 0x08, 0xc3, 0xa1, 0x61, 0xa1, Y)
SHAPE(0x82, 0x07, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0x07, 0xd0, Y)
SHAPE(0x82, 0xa1, 0x61, 0x82, 0xa1, 0x61, 0x01, 0xa1, 0x61, 0x02, 0xcc, 0x07, 0x91, 0xc5, 0x00, 0x02, Y, Y)
SHAPE(0x92, 0x91, 0xa1, Y, 0xd0, Y)
SHAPE(0x92, 0xc0)
SHAPE(0xc1)
SHAPE(0x81, 0x07)
