/* C20: index accessors, enumerations, and lookups on nodes that are no map. */
#include "ref.h"
#include "vf_lib.h"
#include "shape.h"
#include "tree.h"
static ref_tag_t r;
static const uint8_t* data;
static mpack_tree_t tree;
static mpack_node_t root;
static void is_nil(mpack_node_t v, mpack_error_t e) {
    CHECK(mpack_tree_error(&tree) == e, "error");
    CHECK(mpack_node_is_nil(v) && !mpack_node_is_missing(v) && v.tree == &tree, "a nil node");
}
static const char* names[3] = {"a", "bc", "\xc3\xa9"};
static size_t want_enum(void) {
    if (r.type != REF_STR) return 3;
    if (r.len == 1 && data[0] == 'a') return 0;
    if (r.len == 2 && data[0] == 'b' && data[1] == 'c') return 1;
    if (r.len == 2 && data[0] == 0xc3 && data[1] == 0xa9) return 2;
    return 3;
}
static void op(unsigned k, const uint8_t* p, size_t n) {
    mpack_error_t te = mpack_error_type;
    uint64_t num = sym_u64();
    size_t idx = (size_t)num;
    switch (k) {
        case 0: { size_t c = mpack_node_array_length(root); bool ok = r.type == REF_ARRAY; CHECK(c == (ok ? r.len : 0), "length"); CHECK(mpack_tree_error(&tree) == (ok ? mpack_ok : te), "error"); break; }
        case 1: { size_t c = mpack_node_map_count(root); bool ok = r.type == REF_MAP; CHECK(c == (ok ? r.len : 0), "count"); CHECK(mpack_tree_error(&tree) == (ok ? mpack_ok : te), "error"); break; }
        case 2: case 3: case 4: {
            bool ok = r.type == (k == 2 ? REF_ARRAY : REF_MAP);
            if (!ok || idx >= r.len) {
                mpack_node_t v = k == 2 ? mpack_node_array_at(root, idx) : k == 3 ? mpack_node_map_key_at(root, idx) : mpack_node_map_value_at(root, idx);
                is_nil(v, ok ? mpack_error_data : te);
                break;
            }
            for (size_t i = 0; i < r.len; ++i) {
                if (idx != i) continue;
                mpack_node_t v = k == 2 ? mpack_node_array_at(root, i) : k == 3 ? mpack_node_map_key_at(root, i) : mpack_node_map_value_at(root, i);
                size_t before = k == 2 ? i : k == 3 ? 2 * i : 2 * i + 1, pos = r.size;
                for (size_t j = 0; j < before; ++j) pos += ref_object(p + pos, n - pos).size;
                CHECK(mpack_tree_error(&tree) == mpack_ok, "in range");
                tree_walk(v, p + pos, n - pos, n);
                END(c20at);
                STOPV();
            }
            break; }
        case 5: { size_t v = mpack_node_enum_optional(root, names, 3); CHECK(v == want_enum(), "index of the equal string or the count"); CHECK(mpack_tree_error(&tree) == mpack_ok, "no error"); break; }
        case 6: { size_t v = mpack_node_enum(root, names, 3); CHECK(v == want_enum(), "index of the equal string or the count"); CHECK(mpack_tree_error(&tree) == (want_enum() == 3 ? te : mpack_ok), "type error when none matches"); break; }
        default:
            if (r.type == REF_MAP) break;
            switch (k) {
                case 7: is_nil(mpack_node_map_int(root, (int64_t)num), te); break;
                case 8: is_nil(mpack_node_map_uint_optional(root, num), te); break;
                case 9: is_nil(mpack_node_map_cstr_optional(root, "a"), te); break;
                case 10: CHECK(!mpack_node_map_contains_cstr(root, "a"), "absent"); CHECK(mpack_tree_error(&tree) == te, "type error"); break;
                case 11: CHECK(!mpack_node_map_contains_int(root, (int64_t)num), "absent"); CHECK(mpack_tree_error(&tree) == te, "type error"); break;
                case 12: CHECK(!mpack_node_map_contains_uint(root, num), "absent"); CHECK(mpack_tree_error(&tree) == te, "type error"); break;
                default: is_nil(mpack_node_map_str(root, "a", 1), te); break;
            }
    }
}
static void run(uint8_t* p, size_t n) {
    uint8_t k = sym_u8();
    r = ref_decode(p, n);
    data = p + r.size;
    mpack_tree_init_data(&tree, (const char*)p, n);
    mpack_tree_parse(&tree);
    CHECK(mpack_tree_error(&tree) == mpack_ok, "parses");
    root = mpack_tree_root(&tree);
    for (unsigned i = 0; i <= 13; ++i)
        if (k == i) { op(i, p, n); mpack_tree_destroy(&tree); END(c20at); STOPV(); }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
