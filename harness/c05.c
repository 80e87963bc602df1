/* C05: the tree parser and the incremental reader agree on every message. */
#include "ref.h"
#include "vf_lib.h"
#include "shape.h"
#ifndef DEPTH
#define DEPTH 6
#endif

static bool has_payload(mpack_type_t t) { return t == mpack_type_str || t == mpack_type_bin
#if MPACK_EXTENSIONS
    || t == mpack_type_ext
#endif
    ; }

static bool same_tag(mpack_tag_t a, mpack_tag_t b) {
    if (mpack_tag_type(&a) != mpack_tag_type(&b)) return false;
    switch (mpack_tag_type(&a)) {
        case mpack_type_bool: return mpack_tag_bool_value(&a) == mpack_tag_bool_value(&b);
        case mpack_type_int: return mpack_tag_int_value(&a) == mpack_tag_int_value(&b);
        case mpack_type_uint: return mpack_tag_uint_value(&a) == mpack_tag_uint_value(&b);
#if MPACK_FLOAT
        case mpack_type_float: return ref_float_bits(mpack_tag_float_value(&a)) == ref_float_bits(mpack_tag_float_value(&b));
#else
        case mpack_type_float: return mpack_tag_raw_float_value(&a) == mpack_tag_raw_float_value(&b);
#endif
#if MPACK_DOUBLE
        case mpack_type_double: return ref_double_bits(mpack_tag_double_value(&a)) == ref_double_bits(mpack_tag_double_value(&b));
#else
        case mpack_type_double: return mpack_tag_raw_double_value(&a) == mpack_tag_raw_double_value(&b);
#endif
        case mpack_type_str: return mpack_tag_str_length(&a) == mpack_tag_str_length(&b);
        case mpack_type_bin: return mpack_tag_bin_length(&a) == mpack_tag_bin_length(&b);
        case mpack_type_array: return mpack_tag_array_count(&a) == mpack_tag_array_count(&b);
        case mpack_type_map: return mpack_tag_map_count(&a) == mpack_tag_map_count(&b);
#if MPACK_EXTENSIONS
        case mpack_type_ext: return mpack_tag_ext_length(&a) == mpack_tag_ext_length(&b) && mpack_tag_ext_exttype(&a) == mpack_tag_ext_exttype(&b);
#endif
        default: return true;
    }
}

static void finish(mpack_reader_t* r, mpack_type_t t) {
    if (t == mpack_type_str) mpack_done_str(r);
    else if (t == mpack_type_bin) mpack_done_bin(r);
#if MPACK_EXTENSIONS
    else mpack_done_ext(r);
#endif
}

/* reads one complete object with the reader, element by element */
static bool reader_accepts(const uint8_t* p, size_t n, size_t* used) {
    mpack_reader_t r;
    mpack_reader_init_data(&r, (const char*)p, n);
    uint64_t pending = 1;
    for (size_t k = 0; k <= n; ++k) {
        if (pending == 0) break;
        mpack_tag_t t = mpack_read_tag(&r);
        if (mpack_reader_error(&r) != mpack_ok) break;
        --pending;
        if (mpack_tag_type(&t) == mpack_type_array) pending += mpack_tag_array_count(&t);
        else if (mpack_tag_type(&t) == mpack_type_map) pending += 2 * (uint64_t)mpack_tag_map_count(&t);
        else if (has_payload(mpack_tag_type(&t))) { mpack_skip_bytes(&r, mpack_tag_bytes(&t)); finish(&r, mpack_tag_type(&t)); }
    }
    bool ok = pending == 0 && mpack_reader_error(&r) == mpack_ok;
    *used = n - mpack_reader_remaining(&r, NULL);
    mpack_reader_destroy(&r);
    return ok;
}

static void run(uint8_t* p, size_t n) {
    mpack_tree_t tree;
    mpack_tree_init_data(&tree, (const char*)p, n);
    mpack_tree_parse(&tree);
    size_t used;
    bool ok = reader_accepts(p, n, &used);
    CHECK(ok == (mpack_tree_error(&tree) == mpack_ok), "same acceptance");
    if (ok && mpack_tree_error(&tree) == mpack_ok) {
        CHECK(used == mpack_tree_size(&tree), "same size");
        mpack_reader_t r;
        mpack_reader_init_data(&r, (const char*)p, n);
        mpack_node_t stack[DEPTH], cur = mpack_tree_root(&tree);
        size_t idx[DEPTH], tot[DEPTH];
        bool map[DEPTH];
        int d = -1;
        for (size_t k = 0; k < n; ++k) {
            mpack_tag_t rt = mpack_read_tag(&r), nt = mpack_node_tag(cur);
            CHECK(same_tag(rt, nt), "same element in the same position");
            mpack_type_t t = mpack_tag_type(&rt);
            size_t kids = 0;
            if (has_payload(t)) {
                size_t l = mpack_tag_bytes(&rt);
                const char* rd = mpack_read_bytes_inplace(&r, l);
                const char* nd = mpack_node_data(cur);
                CHECK(l == 0 || rd == nd, "same payload");
                finish(&r, t);
            } else if (t == mpack_type_array) kids = mpack_tag_array_count(&rt);
            else if (t == mpack_type_map) kids = 2 * (size_t)mpack_tag_map_count(&rt);
            if (kids) { ++d; ASSUME(d < DEPTH); stack[d] = cur; idx[d] = 0; tot[d] = kids; map[d] = t == mpack_type_map; }
            for (int q = 0; q < DEPTH; ++q) if (d >= 0 && idx[d] == tot[d]) --d;
            if (d < 0) break;
            size_t i = idx[d]++;
            cur = !map[d] ? mpack_node_array_at(stack[d], i) : i % 2 == 0 ? mpack_node_map_key_at(stack[d], i / 2) : mpack_node_map_value_at(stack[d], i / 2);
        }
        CHECK(n - mpack_reader_remaining(&r, NULL) == used, "both end at the same byte");
        CHECK(mpack_reader_destroy(&r) == mpack_ok, "the reader ends without error");
        CHECK(mpack_tree_error(&tree) == mpack_ok, "the tree ends without error");
    }
    mpack_tree_destroy(&tree);
    END(c05);
}

int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
