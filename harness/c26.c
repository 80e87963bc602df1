/* C26: declared sizes do not drive allocations beyond the limits. */
#include "tree.h"
#include "shape.h"

static const uint8_t* src;
static size_t src_len, src_pos;
static size_t read_fn(mpack_tree_t* tree, char* buffer, size_t count) {
    (void)tree;
    size_t c = src_len - src_pos;
    if (c > count) c = count;
    for (size_t i = 0; i < c; ++i) buffer[i] = (char)src[src_pos + i];
    src_pos += c;
    return c;
}

/* STREAM: from a stream with a byte limit of LIMIT; otherwise from memory
 * with symbolic-free limits given by the reference (exact, or one less) */
static void run(uint8_t* p, size_t n) {
    mpack_tree_t tree;
#if STREAM
    src = p; src_len = n;
    mpack_tree_init_stream(&tree, read_fn, NULL, LIMIT, 64);
    mpack_tree_parse(&tree);
    ref_obj_t o = ref_object(p, n);
    CHECK((mpack_tree_error(&tree) == mpack_ok) == o.ok, "accepted exactly when complete");
    CHECK(vf_malloc_max <= (LIMIT > 96 ? LIMIT : 96), "no allocation beyond the limit");
    mpack_tree_destroy(&tree);
    CHECK(vf_live == 0, "everything released");
    END(c26);
#else
    ref_obj_t o = ref_object(p, n);
    uint8_t which = sym_u8();
    for (unsigned w = 0; w < 3; ++w)
        if (which == w) {
            mpack_tree_init_data(&tree, (const char*)p, n);
            if (o.ok) {
                size_t ms = o.size - (w == 1), mn = o.nodes - (w == 2);
                if (ms == 0 || mn == 0) STOPV();
                mpack_tree_set_limits(&tree, ms, mn);
            }
            mpack_tree_parse(&tree);
            mpack_error_t want = !o.ok ? mpack_error_invalid : w ? mpack_error_too_big : mpack_ok;
            CHECK(mpack_tree_error(&tree) == want, "limits are enforced exactly");
            CHECK(vf_malloc_max <= (n + 1) * sizeof(mpack_node_data_t) * 2 + 96, "allocations are bounded by the data");
            CHECK(vf_malloc_total <= (n + 1) * (sizeof(mpack_node_data_t) * 2 + 96), "allocated memory is bounded by the data");
            mpack_tree_destroy(&tree);
            CHECK(vf_live == 0, "everything released");
            END(c26);
            STOPV();
        }
    ASSUME(0);
#endif
}

int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
