/* generated by tools/gen_shapes.py: 26 templates */
SHAPE(0x90)
SHAPE(0x93, 0x07, Y, Y)
SHAPE(0x9f)
SHAPE(0xdc, 0x00, 0x02, Y, Y)
SHAPE(0xdc, 0xff, 0xff)
SHAPE(0xdd, 0x00, 0x00, 0x00, 0x05)
SHAPE(0xdd, 0x00, 0x00, 0x00, 0x00, 0x07)
SHAPE(0xdd, 0x00, 0x00, 0x10, 0x00, 0x07)
SHAPE(0xdd, 0x00, 0x01, 0x00, 0x00, 0x07)
SHAPE(0xdd, 0x03, 0x33, 0x33, 0x34, 0x07)
SHAPE(0xdd, 0x1f, 0xff, 0xff, 0xff, 0x07)
SHAPE(0xdd, 0x20, 0x00, 0x00, 0x00, 0x07)
SHAPE(0xdd, 0x20, 0x00, 0x00, 0x01, 0x07)
SHAPE(0xdd, 0x55, 0x55, 0x55, 0x55, 0x07)
SHAPE(0xdd, 0x55, 0x55, 0x55, 0x56, 0x07)
SHAPE(0xdd, 0x7f, 0xff, 0xff, 0xff, 0x07)
SHAPE(0xdd, 0x80, 0x00, 0x00, 0x00, 0x07)
SHAPE(0xdd, 0x80, 0x00, 0x00, 0x01, 0x07)
SHAPE(0xdd, 0xff, 0xff, 0xff, 0xfe, 0x07)
SHAPE(0xdd, 0xff, 0xff, 0xff, 0xff, 0x07)
SHAPE(0xc0)
SHAPE(0x81, 0x07, 0x07)
SHAPE(0xcc, Y)
SHAPE(0xa1, Y)
SHAPE(0xc1)
SHAPE(0xc3)
