/* generated by tools/gen_shapes.py: 6 templates */
SHAPE(0xdc, 0x00, 0x02, 0xcc, Y, 0x03)
SHAPE(0xdd, 0xff, 0xff, 0xff, 0xff, 0x01, 0x02)
SHAPE(0x92, 0xa2, 0x41, 0x42, 0x07)
SHAPE(0xc4, 0x02, Y, Y, 0x07)
SHAPE(0xc8, 0x00, 0x00, 0x05, 0x07)
SHAPE(0x92, 0x91, 0x07, 0x01)
