/* C04: every integer, float and double written is read back with its value. */
#include "ref.h"
#include "vf_lib.h"

static void check(const uint8_t* b, size_t size, uint64_t v, bool neg) {
    mpack_reader_t r;
    mpack_reader_init_data(&r, (const char*)b, size);
    mpack_tag_t t = mpack_read_tag(&r);
    CHECK(mpack_reader_error(&r) == mpack_ok, "reads back without error");
    CHECK(neg ? mpack_tag_type(&t) == mpack_type_int && (uint64_t)mpack_tag_int_value(&t) == v
              : (mpack_tag_type(&t) == mpack_type_uint ? mpack_tag_uint_value(&t) == v : mpack_tag_type(&t) == mpack_type_int && (uint64_t)mpack_tag_int_value(&t) == v), "the same number");
    CHECK(mpack_reader_remaining(&r, NULL) == 0 && mpack_reader_destroy(&r) == mpack_ok, "exactly the bytes written");
    mpack_node_data_t pool[2];
    mpack_tree_t tree;
    mpack_tree_init_pool(&tree, (const char*)b, size, pool, 2);
    mpack_tree_parse(&tree);
    CHECK(mpack_tree_error(&tree) == mpack_ok && mpack_tree_size(&tree) == size, "parses back");
    mpack_node_t n = mpack_tree_root(&tree);
    if (neg) CHECK((uint64_t)mpack_node_i64(n) == v, "the same number");
    else CHECK(mpack_node_u64(n) == v, "the same number");
    CHECK(mpack_tree_destroy(&tree) == mpack_ok, "no error");
}
int main(void) {
    uint64_t v = sym_u64();
    uint8_t out[12], b[12];
    mpack_writer_t w;
    mpack_writer_init(&w, (char*)out, sizeof(out));
    bool neg = false;
#if OP == 0
    mpack_write_uint(&w, v);
#elif OP == 1
    mpack_write_int(&w, (int64_t)v); neg = (int64_t)v < 0;
#elif OP == 2
    uint32_t x = (uint32_t)v; v = x; mpack_write_u32(&w, x);
#elif OP == 3
    int32_t x = (int32_t)(uint32_t)v; v = (uint64_t)(int64_t)x; mpack_write_i32(&w, x); neg = x < 0;
#elif OP == 4
    uint16_t x = (uint16_t)v; v = x; mpack_write_u16(&w, x);
#elif OP == 5
    int16_t x = (int16_t)(uint16_t)v; v = (uint64_t)(int64_t)x; mpack_write_i16(&w, x); neg = x < 0;
#elif OP == 6
    uint8_t x = (uint8_t)v; v = x; mpack_write_u8(&w, x);
#elif OP == 7
    int8_t x = (int8_t)(uint8_t)v; v = (uint64_t)(int64_t)x; mpack_write_i8(&w, x); neg = x < 0;
#elif OP == 8
    mpack_write_tag(&w, mpack_tag_make_int((int64_t)v)); neg = (int64_t)v < 0;
#else
    mpack_write_tag(&w, mpack_tag_make_uint(v));
#endif
    size_t used = mpack_writer_buffer_used(&w);
    CHECK(mpack_writer_destroy(&w) == mpack_ok, "written without error");
    static const size_t sizes[5] = {1, 2, 3, 5, 9};
    for (unsigned s = 0; s < 5; ++s) {
        if (used != sizes[s]) continue;
        if (s == 0) CHECK(out[0] <= 0x7f || out[0] >= 0xe0, "integer header");
        else CHECK(out[0] == 0xcc + (s - 1) || out[0] == 0xd0 + (s - 1), "integer header");
        /* one case per header, so that parsing is concrete */
        unsigned lo = s == 0 ? 0 : 0xcc + (s - 1), hi = s == 0 ? 0xff : 0xd0 + (s - 1);
        for (unsigned h = lo; h <= hi; h += s == 0 ? 1 : 4) {
            if (h >= 0x80 && h < 0xe0 && s == 0) continue;
#if OP != 1
            if (s == 0 && h != 0 && h != 1 && h != 0x7f && h != 0xe0 && h != 0xff && h != 0x55) continue;
#endif
            if (out[0] != h) continue;
            b[0] = (uint8_t)h;
            for (size_t i = 1; i < sizes[s]; ++i) b[i] = out[i];
            check(b, sizes[s], v, neg);
            END(c04_int);
            STOP();
        }
        STOP();
    }
    CHECK(0, "an integer has one of five sizes");
    return 0;
}
