/* generated by tools/gen_shapes.py: 6 templates */
SHAPE(0x92, 0x81, 0x01, 0xa1, 0x61, 0xcc, Y)
SHAPE(0x91, 0xa2, 0x61, 0x62)
SHAPE(0x82, 0xa1, 0x61, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0x01, 0x91, 0x01)
SHAPE(0xd6, 0xff, Y, Y, Y, Y)
SHAPE(0x91, 0xc4, 0x02, Y, Y)
SHAPE(0xc3)
