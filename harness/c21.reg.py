H("c21_cmp", "C21", "c21.c", "comparison laws over triples of tags", "every triple of tags of any type and value", 12)
