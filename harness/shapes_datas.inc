/* generated by tools/gen_shapes.py: 21 templates */
SHAPE(0xa1, Y)
SHAPE(0xa3, Y, Y, Y)
SHAPE(0xc4, 0x02, Y, Y)
SHAPE(0xc7, 0x03, Y, Y, Y, Y)
SHAPE(0xa0)
SHAPE(0xd9, 0x00)
SHAPE(0xd9, 0x03, Y, Y, Y)
SHAPE(0xda, 0x00, 0x02, Y, Y)
SHAPE(0xdb, 0x00, 0x00, 0x00, 0x02, Y, Y)
SHAPE(0xc4, 0x00)
SHAPE(0xc5, 0x00, 0x03, Y, Y, Y)
SHAPE(0xc6, 0x00, 0x00, 0x00, 0x01, Y)
SHAPE(0xd4, Y, Y)
SHAPE(0xd6, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x00, Y)
SHAPE(0xc8, 0x00, 0x02, Y, Y, Y)
SHAPE(0xc9, 0x00, 0x00, 0x00, 0x01, Y, Y)
SHAPE(0xc0)
SHAPE(0xcc, Y)
SHAPE(0x90)
SHAPE(0xc1)
