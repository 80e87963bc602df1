/* generated by tools/gen_shapes.py: 7 templates */
SHAPE(0x93, 0xa2, 0x61, 0x62, 0xc4, 0x02, Y, Y, 0xc7, 0x02, 0x05, Y, Y)
SHAPE(0x91, 0x91, 0x91, 0x92, 0x01, 0xcc, Y)
SHAPE(0x9b, 0xc0, 0xc0, 0xc0, 0xc0, 0xc0, 0xc0, 0xc0, 0xc0, 0xc0, 0xcc, Y, 0xc3)
SHAPE(0x92, 0x92, 0x01, 0x02, 0xc1)
SHAPE(0xa2, 0x61, 0xff)
SHAPE(0x81, 0x01, 0x91, 0x91, 0xcc, Y)
SHAPE(0x92, 0x92, 0x01, 0xcd, Y)
