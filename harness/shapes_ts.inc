/* generated by tools/gen_shapes.py: 40 templates */
SHAPE(0xd6, Y, Y, Y, Y, Y)
SHAPE(0xd7, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x0c, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd4, Y, Y)
SHAPE(0xd5, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x00, Y)
SHAPE(0xc7, 0x03, Y, Y, Y, Y)
SHAPE(0xc7, 0x04, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x05, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x07, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x08, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x09, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x0b, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x0d, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x10, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x11, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc8, 0x00, 0x04, Y, Y, Y, Y, Y)
SHAPE(0xc8, 0x00, 0x08, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc8, 0x00, 0x0c, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc9, 0x00, 0x00, 0x00, 0x04, Y, Y, Y, Y, Y)
SHAPE(0xc9, 0x00, 0x00, 0x00, 0x08, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc9, 0x00, 0x00, 0x00, 0x0c, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc8, 0x01, 0x04, Y, Y, Y, Y, Y)
SHAPE(0xc8, 0x01, 0x08, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc8, 0x01, 0x0c, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc9, 0x01, 0x00, 0x00, 0x04, Y, Y, Y, Y, Y)
SHAPE(0xc9, 0x01, 0x00, 0x00, 0x08, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc9, 0x01, 0x00, 0x00, 0x0c, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd6, Y, Y, Y, Y)
SHAPE(0xd7, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x0c, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc0)
SHAPE(0xa4, Y, Y, Y, Y)
SHAPE(0xc4, 0x08, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xce, Y, Y, Y, Y)
SHAPE(0xd3, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xff)
SHAPE(0xc1)
SHAPE(0xc7, 0x0c)
