/* Independent tree walker shared by the node harnesses: compares a parsed tree
 * with the bytes it was parsed from, using only the reference decoder and the
 * public node API. Iterative; the tree is walked in document order with an
 * explicit stack so that the depth bound is a harness constant. */
#ifndef TREE_H
#define TREE_H 1
#include "ref.h"
#include "vf_lib.h"

/* Size in bytes and number of nodes of the first complete object in p[0..n),
 * or size 0 when there is none. bad: a reserved byte was met first. */
typedef struct { size_t size, nodes; bool ok, reserved; } ref_obj_t;
static inline ref_obj_t ref_object(const uint8_t* p, size_t n) {
    ref_obj_t o; o.size = 0; o.nodes = 0; o.ok = false; o.reserved = false;
    size_t pos = 0;
    uint64_t pending = 1;
    for (size_t k = 0; k <= n; ++k) {       /* every node takes at least one byte */
        if (pending == 0) { o.size = pos; o.ok = true; return o; }
        if (pending > n - pos) return o;    /* not enough bytes for what is declared */
        ref_tag_t t = ref_decode(p + pos, n - pos);
        if (t.status == REF_RESERVED) { o.reserved = true; return o; }
        if (t.status != REF_OK) return o;
        pos += t.size;
        --pending;
        ++o.nodes;
        if (t.type == REF_ARRAY) pending += t.len;
        else if (t.type == REF_MAP) pending += 2 * (uint64_t)t.len;
        else if (t.type == REF_STR || t.type == REF_BIN || t.type == REF_EXT) {
            if (t.len > n - pos) return o;
            pos += t.len;
        }
    }
    return o;
}

/* nesting levels of a complete object (a scalar or empty container: 1) */
static inline size_t ref_levels(const uint8_t* p, size_t n) {
    size_t left[8], d = 0, max = 1, pos = 0;
    left[0] = 1;
    for (size_t k = 0; k < n; ++k) {
        ref_tag_t t = ref_decode(p + pos, n - pos);
        pos += t.size;
        --left[d];
        if (t.type == REF_STR || t.type == REF_BIN || t.type == REF_EXT) pos += t.len;
        size_t kids = t.type == REF_ARRAY ? t.len : t.type == REF_MAP ? (size_t)t.len * 2 : 0;
        if (kids) { ++d; ASSUME(d < 8); left[d] = kids; if (d + 1 > max) max = d + 1; }
        for (int q = 0; q < 8; ++q) if (d > 0 && left[d] == 0) --d;
        if (d == 0 && left[0] == 0) break;
    }
    return max;
}

/* node n against tag t at the given byte position */
static inline void tree_check_node(mpack_node_t node, const ref_tag_t* t, const uint8_t* payload) {
    mpack_tag_t tag = mpack_node_tag(node);
    CHECK(ref_tag_is(tag, t), "node has the type and value of its bytes");
    if (t->type == REF_STR || t->type == REF_BIN || t->type == REF_EXT) {
        CHECK(mpack_node_data_len(node) == t->len, "data length");
#ifdef TREE_COPY
        const uint8_t* d = (const uint8_t*)mpack_node_data(node);
        for (size_t i = 0; i < t->len; ++i) CHECK(d[i] == payload[i], "data has the bytes of the message");
#else
        CHECK((const uint8_t*)mpack_node_data(node) == payload, "data points at its bytes in the message");
#endif
    }
}

#ifndef TREE_DEPTH
#define TREE_DEPTH 4
#endif
/* Walks the whole tree against the bytes. Returns the bytes consumed. */
static inline size_t tree_walk(mpack_node_t root, const uint8_t* p, size_t n, size_t maxnodes) {
    mpack_node_t stack[TREE_DEPTH];
    size_t idx[TREE_DEPTH], tot[TREE_DEPTH];
    bool map[TREE_DEPTH];
    int depth = -1;
    size_t pos = 0;
    mpack_node_t cur = root;
    for (size_t k = 0; k < maxnodes; ++k) {
        ref_tag_t t = ref_decode(p + pos, n - pos);
        CHECK(t.status == REF_OK, "node was parsed from a complete header");
        pos += t.size;
        tree_check_node(cur, &t, p + pos);
        if (t.type == REF_STR || t.type == REF_BIN || t.type == REF_EXT) pos += t.len;
        size_t kids = t.type == REF_ARRAY ? t.len : t.type == REF_MAP ? (size_t)t.len * 2 : 0;
        if (kids) {
            ++depth;
            ASSUME(depth < TREE_DEPTH);
            stack[depth] = cur; idx[depth] = 0; tot[depth] = kids; map[depth] = t.type == REF_MAP;
        }
        for (int q = 0; q < TREE_DEPTH; ++q)
            if (depth >= 0 && idx[depth] == tot[depth]) --depth;
        if (depth < 0) return pos;
        size_t i = idx[depth]++;
        cur = !map[depth] ? mpack_node_array_at(stack[depth], i)
            : (i % 2 == 0) ? mpack_node_map_key_at(stack[depth], i / 2) : mpack_node_map_value_at(stack[depth], i / 2);
    }
    return pos;
}
#endif
