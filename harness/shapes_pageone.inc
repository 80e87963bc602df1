/* generated by tools/gen_shapes.py: 39 templates */
SHAPE(0x91, 0x91, 0x07)
SHAPE(0x92, 0x91, 0x07, 0x08)
SHAPE(0x93, 0x91, 0x07, 0x08, 0x08)
SHAPE(0x94, 0x91, 0x07, 0x08, 0x08, 0x08)
SHAPE(0x95, 0x91, 0x07, 0x08, 0x08, 0x08, 0x08)
SHAPE(0x91, 0x92, 0x07, 0x07)
SHAPE(0x92, 0x92, 0x07, 0x07, 0x08)
SHAPE(0x93, 0x92, 0x07, 0x07, 0x08, 0x08)
SHAPE(0x94, 0x92, 0x07, 0x07, 0x08, 0x08, 0x08)
SHAPE(0x95, 0x92, 0x07, 0x07, 0x08, 0x08, 0x08, 0x08)
SHAPE(0x91, 0x93, 0x07, 0x07, 0x07)
SHAPE(0x92, 0x93, 0x07, 0x07, 0x07, 0x08)
SHAPE(0x93, 0x93, 0x07, 0x07, 0x07, 0x08, 0x08)
SHAPE(0x94, 0x93, 0x07, 0x07, 0x07, 0x08, 0x08, 0x08)
SHAPE(0x95, 0x93, 0x07, 0x07, 0x07, 0x08, 0x08, 0x08, 0x08)
SHAPE(0x91, 0x94, 0x07, 0x07, 0x07, 0x07)
SHAPE(0x92, 0x94, 0x07, 0x07, 0x07, 0x07, 0x08)
SHAPE(0x93, 0x94, 0x07, 0x07, 0x07, 0x07, 0x08, 0x08)
SHAPE(0x94, 0x94, 0x07, 0x07, 0x07, 0x07, 0x08, 0x08, 0x08)
SHAPE(0x95, 0x94, 0x07, 0x07, 0x07, 0x07, 0x08, 0x08, 0x08, 0x08)
SHAPE(0x91, 0x95, 0x07, 0x07, 0x07, 0x07, 0x07)
SHAPE(0x92, 0x95, 0x07, 0x07, 0x07, 0x07, 0x07, 0x08)
SHAPE(0x93, 0x95, 0x07, 0x07, 0x07, 0x07, 0x07, 0x08, 0x08)
SHAPE(0x94, 0x95, 0x07, 0x07, 0x07, 0x07, 0x07, 0x08, 0x08, 0x08)
SHAPE(0x95, 0x95, 0x07, 0x07, 0x07, 0x07, 0x07, 0x08, 0x08, 0x08, 0x08)
SHAPE(0x91, 0x96, 0x07, 0x07, 0x07, 0x07, 0x07, 0x07)
SHAPE(0x92, 0x96, 0x07, 0x07, 0x07, 0x07, 0x07, 0x07, 0x08)
SHAPE(0x93, 0x96, 0x07, 0x07, 0x07, 0x07, 0x07, 0x07, 0x08, 0x08)
SHAPE(0x94, 0x96, 0x07, 0x07, 0x07, 0x07, 0x07, 0x07, 0x08, 0x08, 0x08)
SHAPE(0x95, 0x96, 0x07, 0x07, 0x07, 0x07, 0x07, 0x07, 0x08, 0x08, 0x08, 0x08)
SHAPE(0x91, 0x81, 0x07, 0x07)
SHAPE(0x92, 0x81, 0x07, 0x07, 0x08)
SHAPE(0x93, 0x81, 0x07, 0x07, 0x08, 0x08)
SHAPE(0x91, 0x82, 0x07, 0x07, 0x07, 0x07)
SHAPE(0x92, 0x82, 0x07, 0x07, 0x07, 0x07, 0x08)
SHAPE(0x93, 0x82, 0x07, 0x07, 0x07, 0x07, 0x08, 0x08)
SHAPE(0x91, 0x83, 0x07, 0x07, 0x07, 0x07, 0x07, 0x07)
SHAPE(0x92, 0x83, 0x07, 0x07, 0x07, 0x07, 0x07, 0x07, 0x08)
SHAPE(0x93, 0x83, 0x07, 0x07, 0x07, 0x07, 0x07, 0x07, 0x08, 0x08)
