/* generated by tools/gen_shapes.py: 22 templates */
SHAPE(0xd9, Y, Y, Y)
SHAPE(0xda, Y, Y, Y)
SHAPE(0xdb, Y, Y, Y, Y, Y, Y)
SHAPE(0xc4, Y, Y, Y)
SHAPE(0xc5, Y, Y, Y)
SHAPE(0xc6, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, Y, Y, Y)
SHAPE(0xc8, Y, Y, Y, Y)
SHAPE(0xc9, Y, Y, Y, Y, Y, Y)
SHAPE(0xa2, Y)
SHAPE(0xbf, Y, Y)
SHAPE(0x91, 0xd9, Y, Y, Y)
SHAPE(0x91, 0xda, Y, Y, Y)
SHAPE(0x91, 0xdb, Y, Y, Y, Y, Y, Y)
SHAPE(0x91, 0xc4, Y, Y, Y)
SHAPE(0x91, 0xc5, Y, Y, Y)
SHAPE(0x91, 0xc6, Y, Y, Y, Y, Y, Y)
SHAPE(0x91, 0xc7, Y, Y, Y)
SHAPE(0x91, 0xc8, Y, Y, Y, Y)
SHAPE(0x91, 0xc9, Y, Y, Y, Y, Y, Y)
SHAPE(0x91, 0xa2, Y)
SHAPE(0x91, 0xbf, Y, Y)
