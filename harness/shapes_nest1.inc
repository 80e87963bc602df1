/* generated by tools/gen_shapes.py: 82 templates */
SHAPE(0x91, 0x91, 0x07)
SHAPE(0x92, 0x07, 0x07)
SHAPE(0x81, 0x07, 0xcd, Y, Y)
SHAPE(0x81, 0x07, 0xa1, Y)
SHAPE(0x81, 0x07, 0xc4, 0x01, Y)
SHAPE(0x81, 0x07, 0xd4, Y, Y)
SHAPE(0x81, 0x07, 0x90)
SHAPE(0x81, 0x07, 0xc0)
SHAPE(0x91, 0x91, 0xcd, Y, Y)
SHAPE(0x92, 0xcd, Y, Y, 0x07)
SHAPE(0x81, 0xcd, Y, Y, 0xcd, Y, Y)
SHAPE(0x81, 0xcd, Y, Y, 0xa1, Y)
SHAPE(0x81, 0xcd, Y, Y, 0xc4, 0x01, Y)
SHAPE(0x81, 0xcd, Y, Y, 0xd4, Y, Y)
SHAPE(0x81, 0xcd, Y, Y, 0x90)
SHAPE(0x81, 0xcd, Y, Y, 0xc0)
SHAPE(0x91, 0x91, 0xa1, Y)
SHAPE(0x92, 0xa1, Y, 0x07)
SHAPE(0x81, 0xa1, Y, 0xcd, Y, Y)
SHAPE(0x81, 0xa1, Y, 0xa1, Y)
SHAPE(0x81, 0xa1, Y, 0xc4, 0x01, Y)
SHAPE(0x81, 0xa1, Y, 0xd4, Y, Y)
SHAPE(0x81, 0xa1, Y, 0x90)
SHAPE(0x81, 0xa1, Y, 0xc0)
SHAPE(0x91, 0x91, 0xc4, 0x01, Y)
SHAPE(0x92, 0xc4, 0x01, Y, 0x07)
SHAPE(0x81, 0xc4, 0x01, Y, 0xcd, Y, Y)
SHAPE(0x81, 0xc4, 0x01, Y, 0xa1, Y)
SHAPE(0x81, 0xc4, 0x01, Y, 0xc4, 0x01, Y)
SHAPE(0x81, 0xc4, 0x01, Y, 0xd4, Y, Y)
SHAPE(0x81, 0xc4, 0x01, Y, 0x90)
SHAPE(0x81, 0xc4, 0x01, Y, 0xc0)
SHAPE(0x91, 0x91, 0xd4, Y, Y)
SHAPE(0x92, 0xd4, Y, Y, 0x07)
SHAPE(0x81, 0xd4, Y, Y, 0xcd, Y, Y)
SHAPE(0x81, 0xd4, Y, Y, 0xa1, Y)
SHAPE(0x81, 0xd4, Y, Y, 0xc4, 0x01, Y)
SHAPE(0x81, 0xd4, Y, Y, 0xd4, Y, Y)
SHAPE(0x81, 0xd4, Y, Y, 0x90)
SHAPE(0x81, 0xd4, Y, Y, 0xc0)
SHAPE(0x91, 0x91, 0x90)
SHAPE(0x92, 0x90, 0x07)
SHAPE(0x81, 0x90, 0xcd, Y, Y)
SHAPE(0x81, 0x90, 0xa1, Y)
SHAPE(0x81, 0x90, 0xc4, 0x01, Y)
SHAPE(0x81, 0x90, 0xd4, Y, Y)
SHAPE(0x81, 0x90, 0x90)
SHAPE(0x81, 0x90, 0xc0)
SHAPE(0x91, 0x91, 0xc0)
SHAPE(0x92, 0xc0, 0x07)
SHAPE(0x81, 0xc0, 0xcd, Y, Y)
SHAPE(0x81, 0xc0, 0xa1, Y)
SHAPE(0x81, 0xc0, 0xc4, 0x01, Y)
SHAPE(0x81, 0xc0, 0xd4, Y, Y)
SHAPE(0x81, 0xc0, 0x90)
SHAPE(0x81, 0xc0, 0xc0)
SHAPE(0x91, 0x91, 0xc1)
SHAPE(0x92, 0xc1, 0x07)
SHAPE(0x81, 0xc1, 0xcd, Y, Y)
SHAPE(0x81, 0xc1, 0xa1, Y)
SHAPE(0x81, 0xc1, 0xc4, 0x01, Y)
SHAPE(0x81, 0xc1, 0xd4, Y, Y)
SHAPE(0x81, 0xc1, 0x90)
SHAPE(0x81, 0xc1, 0xc0)
SHAPE(0x91, 0xe0)
SHAPE(0x91, 0xc2)
SHAPE(0x91, 0xca, Y, Y, Y, Y)
SHAPE(0x91, 0xcc, Y)
SHAPE(0x91, 0xcf, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x91, 0xd1, Y, Y)
SHAPE(0x91, 0xd3, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x91, 0xa3, Y, Y, Y)
SHAPE(0x91, 0xd9, 0x02, Y, Y)
SHAPE(0x91, 0xdb, 0x00, 0x00, 0x00, 0x02, Y, Y)
SHAPE(0x91, 0xc4, 0x02, Y, Y)
SHAPE(0x91, 0xc6, 0x00, 0x00, 0x00, 0x01, Y)
SHAPE(0x91, 0xd6, Y, Y, Y, Y, Y)
SHAPE(0x91, 0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x91, 0xc7, 0x03, Y, Y, Y, Y)
SHAPE(0x91, 0xc9, 0x00, 0x00, 0x00, 0x01, Y, Y)
SHAPE(0x91, 0xdc, 0x00, 0x00)
SHAPE(0x91, 0xde, 0x00, 0x00)
