/* generated by tools/gen_shapes.py: 40 templates */
SHAPE(0x91, 0x91, 0x00)
SHAPE(0x92, 0x91, 0x00, 0x07)
SHAPE(0x93, 0x91, 0x00, 0x07, 0x07)
SHAPE(0x91, 0x92, 0x00, 0x01)
SHAPE(0x92, 0x92, 0x00, 0x01, 0x07)
SHAPE(0x93, 0x92, 0x00, 0x01, 0x07, 0x07)
SHAPE(0x91, 0x93, 0x00, 0x01, 0x02)
SHAPE(0x92, 0x93, 0x00, 0x01, 0x02, 0x07)
SHAPE(0x93, 0x93, 0x00, 0x01, 0x02, 0x07, 0x07)
SHAPE(0x91, 0x94, 0x00, 0x01, 0x02, 0x03)
SHAPE(0x92, 0x94, 0x00, 0x01, 0x02, 0x03, 0x07)
SHAPE(0x93, 0x94, 0x00, 0x01, 0x02, 0x03, 0x07, 0x07)
SHAPE(0x91, 0x95, 0x00, 0x01, 0x02, 0x03, 0x04)
SHAPE(0x92, 0x95, 0x00, 0x01, 0x02, 0x03, 0x04, 0x07)
SHAPE(0x93, 0x95, 0x00, 0x01, 0x02, 0x03, 0x04, 0x07, 0x07)
SHAPE(0x91, 0x96, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05)
SHAPE(0x92, 0x96, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x07)
SHAPE(0x93, 0x96, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x07, 0x07)
SHAPE(0x91, 0x97, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06)
SHAPE(0x92, 0x97, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07)
SHAPE(0x93, 0x97, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x07)
SHAPE(0x81, 0x01, 0x81, 0x07, 0x07)
SHAPE(0x81, 0x01, 0x82, 0x07, 0x07, 0x07, 0x07)
SHAPE(0x81, 0x01, 0x83, 0x07, 0x07, 0x07, 0x07, 0x07, 0x07)
SHAPE(0x92, 0x91, 0x07, 0x92, 0x08, 0x08)
SHAPE(0x92, 0x91, 0x07, 0x93, 0x08, 0x08, 0x08)
SHAPE(0x92, 0x91, 0x07, 0x94, 0x08, 0x08, 0x08, 0x08)
SHAPE(0x92, 0x92, 0x07, 0x07, 0x92, 0x08, 0x08)
SHAPE(0x92, 0x92, 0x07, 0x07, 0x93, 0x08, 0x08, 0x08)
SHAPE(0x92, 0x92, 0x07, 0x07, 0x94, 0x08, 0x08, 0x08, 0x08)
SHAPE(0x92, 0x93, 0x07, 0x07, 0x07, 0x92, 0x08, 0x08)
SHAPE(0x92, 0x93, 0x07, 0x07, 0x07, 0x93, 0x08, 0x08, 0x08)
SHAPE(0x92, 0x93, 0x07, 0x07, 0x07, 0x94, 0x08, 0x08, 0x08, 0x08)
SHAPE(0x92, 0x94, 0x07, 0x07, 0x07, 0x07, 0x92, 0x08, 0x08)
SHAPE(0x92, 0x94, 0x07, 0x07, 0x07, 0x07, 0x93, 0x08, 0x08, 0x08)
SHAPE(0x92, 0x94, 0x07, 0x07, 0x07, 0x07, 0x94, 0x08, 0x08, 0x08, 0x08)
SHAPE(0x92, 0x01, 0x92, 0x01, 0x92, 0x07, 0x07)
SHAPE(0x92, 0x01, 0x92, 0x01, 0x93, 0x07, 0x07, 0x07)
SHAPE(0x92, 0x01, 0x92, 0x01, 0x94, 0x07, 0x07, 0x07, 0x07)
SHAPE(0x92, 0x01, 0x92, 0x01, 0x95, 0x07, 0x07, 0x07, 0x07, 0x07)
