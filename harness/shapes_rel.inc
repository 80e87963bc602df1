/* generated by tools/gen_shapes.py: 8 templates */
SHAPE(0x94, 0xa3, 0x61, 0x62, 0x63, 0xc4, 0x02, Y, Y, 0xc7, 0x02, 0x05, Y, Y, 0x92, 0x01, 0xcc, Y)
SHAPE(0x81, 0xa1, 0x61, 0xd9, 0x03, 0xe2, 0x82, 0xac)
SHAPE(0x91, 0xa3, 0x61, 0xff, 0x62)
SHAPE(0x91, 0xa2, 0x61, 0x00)
SHAPE(0x92, 0xc4, 0x00, 0xa0)
SHAPE(0x92, 0xd6, 0x09, Y, Y, Y, Y, 0xc1)
SHAPE(0x92, 0xa5, 0x61)
SHAPE(0x91, 0xc4, 0x05, Y)
