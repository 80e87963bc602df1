/* generated by tools/gen_shapes.py: 16 templates */
SHAPE(0x07)
SHAPE(0xc3)
SHAPE(0xcb, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xcf, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd3, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xa2, 0x61, 0x62)
SHAPE(0xa2, 0x61, 0x00)
SHAPE(0xdb, 0xff, 0xff, 0xff, 0xff, 0x01)
SHAPE(0xc4, 0x02, Y, Y)
SHAPE(0xd6, 0xff, Y, Y, Y, Y)
SHAPE(0xd7, 0xff, 0xff, 0xff, 0xff, 0xff, Y)
SHAPE(0xc9, 0xff, 0xff, 0xff, 0xff, Y)
SHAPE(0x92, 0x01, 0x02)
SHAPE(0x81, 0x01, 0x02)
SHAPE(0xc1)
SHAPE(0xdc, 0x00)
