/* C20: map lookups. Each message is a map; the oracle decodes its keys with
 * the reference decoder. */
#include "ref.h"
#include "vf_lib.h"
#include "shape.h"
#include "tree.h"

#define MAXP 4
static ref_tag_t key[MAXP];
static const uint8_t* kdata[MAXP];
static size_t pairs, matches, last;
static mpack_tree_t tree;
static mpack_node_t root;
static unsigned handler_calls;
static mpack_error_t handler_error;
static void on_error(mpack_tree_t* t, mpack_error_t e) { (void)t; ++handler_calls; handler_error = e; }

static void keys_of(const uint8_t* p, size_t n) {
    ref_tag_t m = ref_decode(p, n);
    size_t pos = m.size;
    pairs = m.len;
    for (size_t i = 0; i < pairs; ++i) {
        key[i] = ref_decode(p + pos, n - pos);
        kdata[i] = p + pos + key[i].size;
        pos += ref_object(p + pos, n - pos).size;
        pos += ref_object(p + pos, n - pos).size;
    }
}

static void is_value(mpack_node_t v, size_t i) {
    mpack_node_t w = mpack_node_map_value_at(root, i);
    CHECK(v.data == w.data && v.tree == &tree, "the value of the matching entry");
}
/* outcome of a lookup returning a node */
static void looked_up(mpack_node_t v, bool optional) {
    if (matches == 1) {
        CHECK(mpack_tree_error(&tree) == mpack_ok && handler_calls == 0, "found without an error");
        is_value(v, last);
    } else if (matches == 0 && optional) {
        CHECK(mpack_tree_error(&tree) == mpack_ok && handler_calls == 0, "absence is no error for the optional form");
        CHECK(mpack_node_is_missing(v) && !mpack_node_is_nil(v), "a missing node");
        CHECK(mpack_node_type(v) == mpack_type_missing, "type missing");
        mpack_node_missing(v);
        CHECK(mpack_tree_error(&tree) == mpack_ok, "asserting a missing node is missing is no error");
    } else {
        CHECK(mpack_tree_error(&tree) == mpack_error_data, "missing or duplicate key is a data error");
        CHECK(handler_calls == 1 && handler_error == mpack_error_data, "handler called once");
        CHECK(mpack_node_is_nil(v) && !mpack_node_is_missing(v), "a nil node");
        CHECK(mpack_node_type(v) == mpack_type_nil, "type nil");
    }
}
static void present(bool b) {
    CHECK(b == (matches == 1), "present exactly when one key matches");
    CHECK(mpack_tree_error(&tree) == (matches > 1 ? mpack_error_data : mpack_ok), "duplicates are a data error, absence is not");
}

#ifdef INTS
static void match_i(int64_t num) {
    matches = 0;
    for (size_t i = 0; i < pairs; ++i)
        if ((key[i].type == REF_INT && key[i].i == num) || (key[i].type == REF_UINT && num >= 0 && key[i].u == (uint64_t)num)) { ++matches; last = i; }
}
static void match_u(uint64_t num) {
    matches = 0;
    for (size_t i = 0; i < pairs; ++i)
        if ((key[i].type == REF_UINT && key[i].u == num) || (key[i].type == REF_INT && key[i].i >= 0 && (uint64_t)key[i].i == num)) { ++matches; last = i; }
}
#define OPS 6
static void op(unsigned k) {
    uint64_t num = sym_u64();
    switch (k) {
        case 0: match_i((int64_t)num); looked_up(mpack_node_map_int(root, (int64_t)num), false); break;
        case 1: match_i((int64_t)num); looked_up(mpack_node_map_int_optional(root, (int64_t)num), true); break;
        case 2: match_i((int64_t)num); present(mpack_node_map_contains_int(root, (int64_t)num)); break;
        case 3: match_u(num); looked_up(mpack_node_map_uint(root, num), false); break;
        case 4: match_u(num); looked_up(mpack_node_map_uint_optional(root, num), true); break;
        case 5: match_u(num); present(mpack_node_map_contains_uint(root, num)); break;
        default: break;
    }
}
#else
static char needle[4];
static size_t nlen;
static void match_s(void) {
    matches = 0;
    for (size_t i = 0; i < pairs; ++i) {
        if (key[i].type != REF_STR || key[i].len != nlen) continue;
        bool eq = true;
        for (size_t j = 0; j < nlen; ++j) if (kdata[i][j] != (uint8_t)needle[j]) eq = false;
        if (eq) { ++matches; last = i; }
    }
}
#define OPS 6
static void op2(unsigned k) {
    match_s();
    switch (k) {
        case 0: looked_up(mpack_node_map_str(root, needle, nlen), false); break;
        case 1: looked_up(mpack_node_map_str_optional(root, needle, nlen), true); break;
        case 2: present(mpack_node_map_contains_str(root, needle, nlen)); break;
        case 3: looked_up(mpack_node_map_cstr(root, needle), false); break;
        case 4: looked_up(mpack_node_map_cstr_optional(root, needle), true); break;
        case 5: present(mpack_node_map_contains_cstr(root, needle)); break;
        default: break;
    }
}
static void op(unsigned k) {
    uint8_t l = sym_u8();
    for (size_t i = 0; i < 3; ++i) {
        if (l != i) continue;
        nlen = i;
        for (size_t j = 0; j < i; ++j) { needle[j] = (char)sym_u8(); if (k >= 3) ASSUME(needle[j] != 0); }
        needle[i] = 0;
        op2(k);
        mpack_tree_destroy(&tree);
        END(c20);
        STOPV();
    }
    ASSUME(0);
}
#endif

static void run(uint8_t* p, size_t n) {
    uint8_t k = sym_u8();
    keys_of(p, n);
    mpack_tree_init_data(&tree, (const char*)p, n);
    mpack_tree_set_error_handler(&tree, on_error);
    mpack_tree_parse(&tree);
    CHECK(mpack_tree_error(&tree) == mpack_ok, "parses");
    root = mpack_tree_root(&tree);
    for (unsigned i = OPLO; i <= OPHI; ++i)
        if (k == i) { op(i); mpack_tree_destroy(&tree); END(c20); STOPV(); }
    ASSUME(0);
}

int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
