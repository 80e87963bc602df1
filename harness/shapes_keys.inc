/* generated by tools/gen_shapes.py: 40 templates */
SHAPE(0xa1, Y, Y)
SHAPE(0x07)
SHAPE(0xcc, Y)
SHAPE(0xa0)
SHAPE(0xa3, Y, Y, Y)
SHAPE(0xd9, 0x01, Y)
SHAPE(0xda, 0x00, 0x03, Y, Y, Y)
SHAPE(0xdb, 0x00, 0x00, 0x00, 0x01, Y)
SHAPE(0xa2, Y, Y, 0x07)
SHAPE(0xa1)
SHAPE(0xd9, 0x03, Y, Y)
SHAPE(0x00)
SHAPE(0xff)
SHAPE(0xcd, Y, Y)
SHAPE(0xce, Y, Y, Y, Y)
SHAPE(0xcf, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd0, Y)
SHAPE(0xd1, Y, Y)
SHAPE(0xd2, Y, Y, Y, Y)
SHAPE(0xd3, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc0)
SHAPE(0xc2)
SHAPE(0xc3)
SHAPE(0xca, Y, Y, Y, Y)
SHAPE(0xcb, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc4, 0x01, Y)
SHAPE(0xd4, Y, Y)
SHAPE(0xc7, 0x02, Y, Y, Y)
SHAPE(0x90)
SHAPE(0x92, 0xcc, Y, 0xa1, Y)
SHAPE(0x81, 0xa1, Y, 0x91, 0x07)
SHAPE(0x80)
SHAPE(0xdc, 0x00, 0x01, 0xc0)
SHAPE(0xdd, 0x00, 0x00, 0x00, 0x00)
SHAPE(0xde, 0x00, 0x01, 0x07, 0xd0, Y)
SHAPE(0xdf, 0x00, 0x00, 0x00, 0x00)
SHAPE(0xc1)
SHAPE(0x91)
SHAPE(0xcd, Y)
SHAPE(0x91, 0xc1)
