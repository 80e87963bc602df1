/* C08/C26: tree parsing from a stream in chunks, blocking or polled, with
 * limits. The stream holds the message, then a second message. */
#define TREE_COPY 1
#include "tree.h"
#include "shape.h"
#ifndef SECOND
#define SECOND 0x92, 0xcc, Y, 0xa1, Y
#endif
#ifndef FIRSTS
#define FIRSTS 1, 2, 3, 5, 8
#endif
#ifndef NEXTS
#define NEXTS 1, 2, 3, 64
#endif
#ifndef POLLS
#define POLLS 24
#endif

static const uint8_t* src;
static size_t src_len, src_pos, chunk, next_chunk, eofs;
static bool give;        /* non-blocking: whether data is available now */
static bool after_error;
static size_t read_fn(mpack_tree_t* tree, char* buffer, size_t count) {
    if (mpack_tree_error(tree) != mpack_ok) after_error = true;
    CHECK(count > 0, "there is always room for the bytes asked for");
    if (!give) return 0;
    size_t c = src_len - src_pos;
    if (c > chunk) c = chunk;
    if (c > count) c = count;
    if (c == 0) ++eofs;
    for (size_t i = 0; i < c; ++i) buffer[i] = (char)src[src_pos + i];
    src_pos += c;
    chunk = next_chunk;
#if NONBLOCK
    give = false;
#endif
    return c;
}

/* parses one message; true when it completed */
static bool parse(mpack_tree_t* tree) {
#if NONBLOCK
    for (int k = 0; k < POLLS; ++k) {
        give = true;
        if (mpack_tree_try_parse(tree)) return true;
        if (mpack_tree_error(tree) != mpack_ok) return false;
        give = false;   /* an idle poll makes no difference */
#if IDLE
        CHECK(!mpack_tree_try_parse(tree) && mpack_tree_error(tree) == mpack_ok, "an idle poll does not complete");
#endif
        if (src_pos == src_len && eofs) break;
    }
    return false;
#else
    give = true;
    mpack_tree_parse(tree);
    return mpack_tree_error(tree) == mpack_ok;
#endif
}

static void one(uint8_t* all, size_t n, size_t total, size_t first, size_t nexts) {
    ref_obj_t o = ref_object(all, n);
    src = all; src_len = o.ok ? total : n; src_pos = 0; chunk = first; next_chunk = nexts; give = true; eofs = 0;
    mpack_tree_t tree;
#ifdef LIMITS
    /* exact limits, one node too few, or one byte too few */
    size_t max_size = LIMITS == 2 ? o.size - 1 : o.size, max_nodes = LIMITS == 1 ? o.nodes - 1 : o.nodes;
    if (!o.ok || max_size == 0 || max_nodes == 0) return;
    src_len = n;
#else
    size_t max_size = 64, max_nodes = 64;
#endif
    mpack_tree_init_stream(&tree, read_fn, NULL, max_size, max_nodes);
    bool done = parse(&tree);
#if defined(LIMITS) && LIMITS > 0
    CHECK(!done, "a message beyond a limit is not accepted");
    CHECK(mpack_tree_error(&tree) == mpack_error_too_big, "beyond a limit is too big");
#else
    CHECK(done == o.ok, "accepted exactly when complete");
    if (done) {
        CHECK(mpack_tree_error(&tree) == mpack_ok, "no error");
        CHECK(mpack_tree_size(&tree) == o.size, "message size");
        size_t used = tree_walk(mpack_tree_root(&tree), all, n, n);
        CHECK(used == o.size, "the tree covers the message");
#ifndef LIMITS
        /* the stream goes on right after the message */
        bool done2 = parse(&tree);
        ref_obj_t o2 = ref_object(all + o.size, total - o.size);
        CHECK(done2 == o2.ok, "the second message is parsed");
        if (done2) {
            CHECK(mpack_tree_size(&tree) == o2.size, "second message size");
            tree_walk(mpack_tree_root(&tree), all + o.size, total - o.size, total - o.size);
        }
#endif
    } else {
#if NONBLOCK
        CHECK(mpack_tree_error(&tree) == (o.reserved ? mpack_error_invalid : mpack_ok), "incomplete data is no error when polling");
#else
        CHECK(mpack_tree_error(&tree) == (o.reserved ? mpack_error_invalid : mpack_error_io), "the end of the stream is an error");
#endif
    }
#endif
    CHECK(!after_error, "the read function is not called in an error state");
    CHECK(vf_malloc_max <= 512, "allocations are bounded by the data and the limits");
    mpack_tree_destroy(&tree);
    CHECK(vf_live == 0, "everything released");
    END(stree);
}

static void run(uint8_t* p, size_t n) {
    uint8_t second[] = {SECOND}, all[64];
    size_t total = n;
    for (size_t i = 0; i < n; ++i) all[i] = p[i];
#ifndef LIMITS
    for (size_t i = 0; i < sizeof(second); ++i) all[total++] = second[i];
#endif
    static const uint8_t firsts[] = {FIRSTS}, nexts[] = {NEXTS};
    uint8_t plan = sym_u8();
    for (unsigned i = 0; i < sizeof(firsts); ++i)
        for (unsigned j = 0; j < sizeof(nexts); ++j)
            if (plan == i * 8 + j && firsts[i] <= total) { one(all, n, total, firsts[i], nexts[j]); STOPV(); }
    ASSUME(0);
}

int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
