/* C06: bytes into the tree parser (pages or a pool of any size). */
#include "tree.h"
#include "shape.h"

static void one(uint8_t* p, size_t n, size_t pool_count) {
    mpack_tree_t tree;
#ifdef VF_NO_MALLOC
    CHECK(pool_count != 0, "no pages without an allocator");
#else
    if (pool_count == 0) mpack_tree_init_data(&tree, (const char*)p, n);
#endif
    mpack_node_data_t* pool = NULL;
    (void)vf_malloc_failures;
    if (pool_count) {
        pool = (mpack_node_data_t*)vf_malloc(pool_count * sizeof(mpack_node_data_t));
        mpack_tree_init_pool(&tree, (const char*)p, n, pool, pool_count);
    }
    mpack_tree_parse(&tree);
    ref_obj_t o = ref_object(p, n);
    mpack_error_t e = mpack_tree_error(&tree);
    if (e == mpack_ok) {
        CHECK(o.ok, "only complete objects are accepted");
        CHECK(pool_count == 0 || o.nodes <= pool_count, "nodes fit in the pool");
        CHECK(mpack_tree_size(&tree) == o.size, "message size");
#ifndef NOWALK
        size_t used = tree_walk(mpack_tree_root(&tree), p, n, n);
        CHECK(used == o.size, "the tree covers the message");
#endif
        CHECK(mpack_tree_error(&tree) == mpack_ok, "reading it back raises nothing");
    } else {
        CHECK(e == mpack_error_invalid || e == mpack_error_too_big || (e == mpack_error_memory && vf_malloc_failures), "expected error");
        CHECK(e != mpack_error_invalid || !o.ok, "complete objects are not called invalid");
#if defined(VF_NO_MALLOC)
        CHECK(e != mpack_error_too_big || !o.ok || o.nodes > pool_count || ref_levels(p, n) > MPACK_NODE_MAX_DEPTH_WITHOUT_MALLOC, "too big only when the pool or the stack is too small");
#else
        CHECK(e != mpack_error_too_big || (pool_count && (!o.ok || o.nodes > pool_count)) || (SIZE_MAX == UINT32_MAX && !o.ok), "too big only when the pool is too small");
#endif
        CHECK(mpack_node_type(mpack_tree_root(&tree)) == mpack_type_nil, "nil root on error");
    }
    mpack_tree_destroy(&tree);
    vf_free(pool);
    CHECK(vf_live == 0, "everything released");
    END(c06);
}
static void run(uint8_t* p, size_t n) {
#ifdef POOLS    /* every pool size, one case each */
    uint8_t c = sym_u8();
    for (unsigned i = 1; i <= POOLS; ++i)
        if (c == i) { one(p, n, i); STOPV(); }
    ASSUME(0);
#elif defined(FAIL)   /* the k-th allocation fails, one case each; 0: none */
    uint8_t c = sym_u8();
    for (unsigned i = 0; i <= FAIL; ++i)
        if (c == i) { vf_fail_at = i; one(p, n, POOL); STOPV(); }
    ASSUME(0);
#else
    one(p, n, POOL);
#endif
}

int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
