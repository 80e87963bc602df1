/* generated by tools/gen_shapes.py: 133 templates */
SHAPE(0xca)
SHAPE(0xca, Y)
SHAPE(0xca, Y, Y)
SHAPE(0xca, Y, Y, Y)
SHAPE(0xcb)
SHAPE(0xcb, Y)
SHAPE(0xcb, Y, Y)
SHAPE(0xcb, Y, Y, Y)
SHAPE(0xcb, Y, Y, Y, Y)
SHAPE(0xcb, Y, Y, Y, Y, Y)
SHAPE(0xcb, Y, Y, Y, Y, Y, Y)
SHAPE(0xcb, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xcc)
SHAPE(0xcd)
SHAPE(0xcd, Y)
SHAPE(0xce)
SHAPE(0xce, Y)
SHAPE(0xce, Y, Y)
SHAPE(0xce, Y, Y, Y)
SHAPE(0xcf)
SHAPE(0xcf, Y)
SHAPE(0xcf, Y, Y)
SHAPE(0xcf, Y, Y, Y)
SHAPE(0xcf, Y, Y, Y, Y)
SHAPE(0xcf, Y, Y, Y, Y, Y)
SHAPE(0xcf, Y, Y, Y, Y, Y, Y)
SHAPE(0xcf, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd0)
SHAPE(0xd1)
SHAPE(0xd1, Y)
SHAPE(0xd2)
SHAPE(0xd2, Y)
SHAPE(0xd2, Y, Y)
SHAPE(0xd2, Y, Y, Y)
SHAPE(0xd3)
SHAPE(0xd3, Y)
SHAPE(0xd3, Y, Y)
SHAPE(0xd3, Y, Y, Y)
SHAPE(0xd3, Y, Y, Y, Y)
SHAPE(0xd3, Y, Y, Y, Y, Y)
SHAPE(0xd3, Y, Y, Y, Y, Y, Y)
SHAPE(0xd3, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xa1)
SHAPE(0xa3)
SHAPE(0xa3, Y)
SHAPE(0xa3, Y, Y)
SHAPE(0xd9)
SHAPE(0xd9, 0x02)
SHAPE(0xd9, 0x02, Y)
SHAPE(0xda)
SHAPE(0xda, 0x00)
SHAPE(0xda, 0x00, 0x01)
SHAPE(0xdb)
SHAPE(0xdb, 0x00)
SHAPE(0xdb, 0x00, 0x00)
SHAPE(0xdb, 0x00, 0x00, 0x00)
SHAPE(0xdb, 0x00, 0x00, 0x00, 0x02)
SHAPE(0xdb, 0x00, 0x00, 0x00, 0x02, Y)
SHAPE(0xc4)
SHAPE(0xc4, 0x02)
SHAPE(0xc4, 0x02, Y)
SHAPE(0xc5)
SHAPE(0xc5, 0x00)
SHAPE(0xc5, 0x00, 0x01)
SHAPE(0xc6)
SHAPE(0xc6, 0x00)
SHAPE(0xc6, 0x00, 0x00)
SHAPE(0xc6, 0x00, 0x00, 0x00)
SHAPE(0xc6, 0x00, 0x00, 0x00, 0x01)
SHAPE(0xd4)
SHAPE(0xd4, Y)
SHAPE(0xd5)
SHAPE(0xd5, Y)
SHAPE(0xd5, Y, Y)
SHAPE(0xd6)
SHAPE(0xd6, Y)
SHAPE(0xd6, Y, Y)
SHAPE(0xd6, Y, Y, Y)
SHAPE(0xd6, Y, Y, Y, Y)
SHAPE(0xd7)
SHAPE(0xd7, Y)
SHAPE(0xd7, Y, Y)
SHAPE(0xd7, Y, Y, Y)
SHAPE(0xd7, Y, Y, Y, Y)
SHAPE(0xd7, Y, Y, Y, Y, Y)
SHAPE(0xd7, Y, Y, Y, Y, Y, Y)
SHAPE(0xd7, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd7, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8)
SHAPE(0xd8, Y)
SHAPE(0xd8, Y, Y)
SHAPE(0xd8, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7)
SHAPE(0xc7, 0x00)
SHAPE(0xc7, 0x03)
SHAPE(0xc7, 0x03, Y)
SHAPE(0xc7, 0x03, Y, Y)
SHAPE(0xc7, 0x03, Y, Y, Y)
SHAPE(0xc8)
SHAPE(0xc8, 0x00)
SHAPE(0xc8, 0x00, 0x01)
SHAPE(0xc8, 0x00, 0x01, Y)
SHAPE(0xc9)
SHAPE(0xc9, 0x00)
SHAPE(0xc9, 0x00, 0x00)
SHAPE(0xc9, 0x00, 0x00, 0x00)
SHAPE(0xc9, 0x00, 0x00, 0x00, 0x01)
SHAPE(0xc9, 0x00, 0x00, 0x00, 0x01, Y)
SHAPE(0xdc)
SHAPE(0xdc, 0x00)
SHAPE(0xdd)
SHAPE(0xdd, 0x00)
SHAPE(0xdd, 0x00, 0x00)
SHAPE(0xdd, 0x00, 0x00, 0x00)
SHAPE(0xde)
SHAPE(0xde, 0x00)
SHAPE(0xdf)
SHAPE(0xdf, 0x00)
SHAPE(0xdf, 0x00, 0x00)
SHAPE(0xdf, 0x00, 0x00, 0x00)
