/* C32: chained extraction without error checks. Two navigation steps and a
 * final accessor, on well-formed and malformed messages, against a model that
 * walks the bytes. */
#include "ref.h"
#include "vf_lib.h"
#include "shape.h"
#include "tree.h"

static uint8_t* P;
static size_t N;
static mpack_tree_t tree;
static unsigned calls;
static mpack_error_t reported;
static void on_error(mpack_tree_t* t, mpack_error_t e) { (void)t; ++calls; reported = e; }

/* the model: where we are, and the first error */
enum { REAL, MISSING, NIL };
static int kind;
static size_t at;
static mpack_error_t err;
static ref_tag_t cur(void) { return ref_decode(P + at, N - at); }
static void fail(mpack_error_t e) { if (err == mpack_ok) err = e; kind = NIL; }
static void child(ref_type_t type, size_t index, size_t count_mul, size_t offset) {
    if (err != mpack_ok) { kind = NIL; return; }
    ref_tag_t t = cur();
    if (kind != REAL || t.type != type) { fail(mpack_error_type); return; }
    if (index >= t.len) { fail(mpack_error_data); return; }
    size_t pos = at + t.size;
    for (size_t j = 0; j < index * count_mul + offset; ++j) pos += ref_object(P + pos, N - pos).size;
    at = pos;
}
/* key: the integer num, or the string "a" when str */
static void lookup(bool str, uint64_t num, bool optional) {
    if (err != mpack_ok) { kind = NIL; return; }
    ref_tag_t t = cur();
    if (kind != REAL || t.type != REF_MAP) { fail(mpack_error_type); return; }
    size_t pos = at + t.size, found = 0;
    unsigned matches = 0;
    for (size_t j = 0; j < t.len; ++j) {
        ref_tag_t k = ref_decode(P + pos, N - pos);
        bool eq = str ? (k.type == REF_STR && k.len == 1 && P[pos + k.size] == 'a') : (k.type == REF_UINT && k.u == num);
        pos += ref_object(P + pos, N - pos).size;
        if (eq) { ++matches; found = pos; }
        pos += ref_object(P + pos, N - pos).size;
    }
    if (matches == 1) at = found;
    else if (matches == 0 && optional) kind = MISSING;
    else fail(mpack_error_data);
}

#define NAVS 9
static mpack_node_t nav(unsigned k, mpack_node_t n) {
    switch (k) {
        case 0: child(REF_ARRAY, 0, 1, 0); return mpack_node_array_at(n, 0);
        case 1: child(REF_ARRAY, 1, 1, 0); return mpack_node_array_at(n, 1);
        case 2: child(REF_MAP, 0, 2, 0); return mpack_node_map_key_at(n, 0);
        case 3: child(REF_MAP, 1, 2, 1); return mpack_node_map_value_at(n, 1);
        case 4: lookup(false, 7, false); return mpack_node_map_int(n, 7);
        case 5: lookup(false, 7, true); return mpack_node_map_uint_optional(n, 7);
        case 6: lookup(true, 0, false); return mpack_node_map_cstr(n, "a");
        case 7: lookup(true, 0, true); return mpack_node_map_str_optional(n, "a", 1);
        default: child(REF_ARRAY, SIZE_MAX, 1, 0); return mpack_node_array_at(n, SIZE_MAX);
    }
}

static char buf[4];
#define TERMS 27
static const char* names[1] = {"a"};
/* the final accessor; true when it returned its documented safe default */
static bool term(unsigned k, mpack_node_t n) {
    switch (k) {
        case 0: return mpack_node_u8(n) == 0;
        case 1: return mpack_node_i64(n) == 0;
        case 2: return mpack_node_bool(n) == false;
        case 3: return ref_float_bits(mpack_node_float(n)) == 0;
        case 4: return ref_double_bits(mpack_node_double_strict(n)) == 0;
        case 5: return mpack_node_str(n) == NULL;
        case 6: return mpack_node_strlen(n) == 0;
        case 7: return mpack_node_data(n) == NULL;
        case 8: return mpack_node_data_len(n) == 0;
        case 9: return mpack_node_bin_data(n) == NULL;
        case 10: mpack_node_copy_cstr(n, buf, 4); return buf[0] == 0;
        case 11: mpack_node_copy_utf8_cstr(n, buf, 4); return buf[0] == 0;
        case 12: return mpack_node_copy_data(n, buf, 4) == 0 && buf[0] == 'x';
        case 13: return mpack_node_copy_utf8(n, buf, 4) == 0 && buf[0] == 'x';
        case 14: { char* s = mpack_node_cstr_alloc(n, 4); vf_free(s); return s == NULL; }
        case 15: { char* s = mpack_node_utf8_cstr_alloc(n, 4); vf_free(s); return s == NULL; }
        case 16: { char* s = mpack_node_data_alloc(n, 4); vf_free(s); return s == NULL; }
        case 17: { mpack_timestamp_t t = mpack_node_timestamp(n); return t.seconds == 0 && t.nanoseconds == 0; }
        case 18: return mpack_node_exttype(n) == 0;
        case 19: return mpack_node_array_length(n) == 0;
        case 20: return mpack_node_map_count(n) == 0;
        case 21: return mpack_node_enum(n, names, 1) == 1;
        case 22: return !mpack_node_map_contains_int(n, 7);
        case 23: return mpack_node_bin_size(n) == 0;
        case 24: mpack_node_check_utf8(n); return true;
        case 25: mpack_node_true(n); return true;
        default: mpack_node_check_utf8_cstr(n); return true;
    }
}

static void finish(unsigned k, mpack_node_t n) {
    CHECK(mpack_tree_error(&tree) == err, "the first error of the chain is the tree's error");
    CHECK(mpack_node_is_nil(n) == (err != mpack_ok || (kind == REAL && cur().type == REF_NIL)), "a failed step yields a nil node");
    CHECK(mpack_node_is_missing(n) == (err == mpack_ok && kind == MISSING), "an absent optional key yields a missing node");
    CHECK(mpack_node_type(n) == (err != mpack_ok ? mpack_type_nil : kind == MISSING ? mpack_type_missing : mpack_node_type(n)), "type");
    buf[0] = buf[1] = buf[2] = buf[3] = 'x';
    bool safe = term(k, n);
    if (err != mpack_ok || kind == MISSING) {
        CHECK(safe, "accessors of a nil node after an error or of a missing node return safe defaults");
        if (err == mpack_ok) err = mpack_error_type;
        CHECK(mpack_tree_error(&tree) == err, "using a missing node is a type error; the first error sticks");
    } else {
        mpack_error_t e = mpack_tree_error(&tree);
        CHECK(e == mpack_ok || e == mpack_error_type || e == mpack_error_too_big, "a data mismatch is the only possible error");
        CHECK(e == mpack_ok || safe, "a failing accessor returns its safe default");
        err = e;
    }
    CHECK(calls == (err != mpack_ok) && (calls == 0 || reported == err), "the error handler saw the error once");
    CHECK(mpack_tree_destroy(&tree) == err, "the error is visible at the end");
    CHECK(vf_live == 0, "everything is released");
}

static void run(uint8_t* p, size_t n) {
    uint8_t a = sym_u8(), b = sym_u8(), c = sym_u8();
    P = p; N = n;
    ref_obj_t o = ref_object(p, n);
    mpack_tree_init_data(&tree, (const char*)p, n);
    mpack_tree_set_error_handler(&tree, on_error);
    mpack_tree_parse(&tree);
    if (!o.ok) { err = mpack_tree_error(&tree); CHECK(err != mpack_ok, "malformed data does not parse"); kind = NIL; }
    for (unsigned i = 0; i < NAVS; ++i) {
        if (a != i) continue;
        mpack_node_t root = nav(i, mpack_tree_root(&tree));
        for (unsigned j = 0; j < NAVS; ++j) {
            if (b != j) continue;
            mpack_node_t m = nav(j, root);
            for (unsigned k = TLO; k <= THI; ++k) {
                if (c != k) continue;
                finish(k, m);
                END(c32);
                STOPV();
            }
            ASSUME(0); STOPV();
        }
        ASSUME(0); STOPV();
    }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
