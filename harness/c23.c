/* C23: matching strings, keys, enumerations, tags and literals. */
#include "ref.h"
#include "vf_lib.h"
#include "shape.h"

static const uint8_t* src;
static size_t src_n, src_pos;
static size_t fill(mpack_reader_t* r, char* b, size_t c) {
    (void)r;
    size_t k = src_n - src_pos;
    if (k > 3) k = 3;
    if (k > c) k = c;
    for (size_t i = 0; i < k; ++i) b[i] = (char)src[src_pos + i];
    src_pos += k;
    return k;
}
static char rbuf[32];
static uint8_t* mem;
static void open_reader(mpack_reader_t* r, const uint8_t* p, size_t n) {
#if STREAM
    src = p; src_n = n; src_pos = 0;
    mpack_reader_init(r, rbuf, sizeof(rbuf), 0);
    mpack_reader_set_fill(r, fill);
    mem = NULL;
#else
    mem = (uint8_t*)vf_malloc(n);
    for (size_t i = 0; i < n; ++i) mem[i] = p[i];
    mpack_reader_init_data(r, (const char*)mem, n);
#endif
}
/* bytes not consumed yet */
static size_t rest(mpack_reader_t* r) { return mpack_reader_remaining(r, NULL) + (STREAM ? src_n - src_pos : 0); }

#define NCAND 4
static const char* cand[NCAND] = {"a", "", "ab\xc3", "b"};
static const size_t cand_len[NCAND] = {1, 0, 3, 1};
static bool eq(const uint8_t* a, const char* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != (uint8_t)b[i]) return false; return true; }

static size_t obj_end(const uint8_t* p, size_t n, bool* ok) { /* end of the first complete object */
    size_t pos = 0; uint64_t pend = 1;
    *ok = false;
    for (size_t k = 0; k <= n; ++k) {
        if (pend == 0) { *ok = true; return pos; }
        ref_tag_t t = ref_decode(p + pos, n - pos);
        if (t.status != REF_OK) return pos;
        pos += t.size; --pend;
        if (t.type == REF_STR || t.type == REF_BIN || t.type == REF_EXT) { if (t.len > n - pos) return pos; pos += t.len; }
        if (t.type == REF_ARRAY) pend += t.len; else if (t.type == REF_MAP) pend += 2 * (uint64_t)t.len;
    }
    return pos;
}

static void at(uint8_t* p, size_t n, unsigned sub) {
    ref_tag_t t = ref_decode(p, n);
    bool have = t.status == REF_OK;
    bool str = have && t.type == REF_STR && t.len <= n - t.size;
    const uint8_t* d = p + t.size;
    mpack_reader_t r;
    open_reader(&r, p, n);
    bool want = false;      /* match expected */
    size_t consumed = t.size;
#if OP == 0
    char c[4];
    for (size_t i = 0; i < 4; ++i) c[i] = (char)sym_u8();
    char* s = (char*)vf_malloc(sub);
    for (size_t i = 0; i < sub; ++i) s[i] = c[i];
    mpack_expect_str_match(&r, s, sub);
    want = str && t.len == sub && eq(d, c, sub);
    consumed += t.len;
    vf_free(s);
#elif OP == 1
    mpack_expect_cstr_match(&r, cand[sub]);
    want = str && t.len == cand_len[sub] && eq(d, cand[sub], cand_len[sub]);
    consumed += t.len;
#elif OP == 2 || OP == 3 || OP == 4
    size_t count = NCAND - (sub & 1); /* the last one is not always a candidate */
    size_t found_i = count;
    for (size_t i = 0; i < count; ++i) if (found_i == count && str && t.len == cand_len[i] && eq(d, cand[i], cand_len[i])) found_i = i;
    bool found[NCAND], before[NCAND];
    for (size_t i = 0; i < NCAND; ++i) before[i] = found[i] = OP == 4 && sym_bool();
    bool whole;
    size_t end = obj_end(p, n, &whole);
    size_t got = OP == 2 ? mpack_expect_enum(&r, cand, count) : OP == 3 ? mpack_expect_enum_optional(&r, cand, count) : mpack_expect_key_cstr(&r, cand, found, count);
    mpack_error_t e = mpack_reader_error(&r);
    consumed = end;
    if (OP == 2) {
        CHECK((e == mpack_ok) == (found_i < count), "an enumeration value that is no candidate is an error");
        CHECK(got == found_i, "returns the index of the equal candidate, or the count");
    } else if (!whole) {
        CHECK(e != mpack_ok && got == count, "truncated or malformed keys are an error");
    } else {
        bool dup = OP == 4 && found_i < count && before[found_i];
        CHECK(e == (dup ? mpack_error_invalid : mpack_ok), "error exactly for a repeated key");
        CHECK(got == (dup ? count : found_i), "returns the index of the equal candidate, or the count");
        for (size_t i = 0; i < NCAND; ++i) CHECK(found[i] == (OP == 4 && (before[i] || (i == found_i && i < count))), "exactly the key seen is marked");
    }
    want = e == mpack_ok;
#elif OP == 5
    size_t count = 1 + sub;
    bool found[8], before[8];
    for (size_t i = 0; i < 8; ++i) before[i] = found[i] = sym_bool();
    bool whole;
    consumed = obj_end(p, n, &whole);
    size_t got = mpack_expect_key_uint(&r, found, count);
    mpack_error_t e = mpack_reader_error(&r);
    if (!whole) CHECK(e != mpack_ok && got == count, "truncated or malformed keys are an error");
    else {
        bool known = have && t.type == REF_UINT && t.u < count;
        size_t i = known ? (size_t)t.u : count;
        bool dup = false;
        for (size_t k = 0; k < 8; ++k) if (known && k == i) dup = before[k];
        CHECK(e == (dup ? mpack_error_invalid : mpack_ok), "error exactly for a repeated key");
        CHECK(got == (dup ? count : i), "returns the key, or the count when it is unknown");
        for (size_t k = 0; k < 8; ++k) CHECK(found[k] == (before[k] || (known && k == i)), "exactly the key seen is marked");
    }
    want = e == mpack_ok;
#elif OP == 6
    mpack_tag_t x = mpack_tag_make_nil();
    uint64_t v = sym_u64();
    bool eqv = false;
    switch (sub) {
        case 0: eqv = t.type == REF_NIL; break;
        case 1: x = mpack_tag_make_bool((v & 1) != 0); eqv = t.type == REF_BOOL && t.b == ((v & 1) != 0); break;
        case 2: x = mpack_tag_make_uint(v); eqv = (t.type == REF_UINT && t.u == v) || (t.type == REF_INT && t.i >= 0 && (uint64_t)t.i == v); break;
        case 3: x = mpack_tag_make_int((int64_t)v); eqv = (t.type == REF_INT && t.i == (int64_t)v) || (t.type == REF_UINT && (int64_t)v >= 0 && t.u == v); break;
        case 4: x = mpack_tag_make_str((uint32_t)v); eqv = t.type == REF_STR && t.len == (uint32_t)v; break;
        case 5: x = mpack_tag_make_bin((uint32_t)v); eqv = t.type == REF_BIN && t.len == (uint32_t)v; break;
        case 6: x = mpack_tag_make_array((uint32_t)v); eqv = t.type == REF_ARRAY && t.len == (uint32_t)v; break;
        case 7: x = mpack_tag_make_map((uint32_t)v); eqv = t.type == REF_MAP && t.len == (uint32_t)v; break;
        default: x = mpack_tag_make_ext((int8_t)(v >> 32), (uint32_t)v); eqv = t.type == REF_EXT && t.len == (uint32_t)v && t.exttype == (int8_t)(v >> 32); break;
    }
    mpack_expect_tag(&r, x);
    want = have && eqv;
#elif OP == 7
    uint64_t v = sym_u64();
    bool b = false;
    uint32_t c32 = 7;
    bool is = false;
    switch (sub) {
        case 0: mpack_expect_nil(&r); want = have && t.type == REF_NIL; break;
        case 1: mpack_expect_true(&r); want = have && t.type == REF_BOOL && t.b; break;
        case 2: mpack_expect_false(&r); want = have && t.type == REF_BOOL && !t.b; break;
        case 3: b = mpack_expect_bool(&r); want = have && t.type == REF_BOOL; CHECK(b == (want && t.b), "boolean value"); break;
        case 4: mpack_expect_uint_match(&r, v); want = have && ((t.type == REF_UINT && t.u == v) || (t.type == REF_INT && t.i >= 0 && (uint64_t)t.i == v)); break;
        case 5: mpack_expect_int_match(&r, (int64_t)v); want = have && ((t.type == REF_INT && t.i == (int64_t)v) || (t.type == REF_UINT && (int64_t)v >= 0 && t.u == v)); break;
        case 6: mpack_expect_map_match(&r, (uint32_t)v); want = have && t.type == REF_MAP && t.len == (uint32_t)v; break;
        case 7: mpack_expect_array_match(&r, (uint32_t)v); want = have && t.type == REF_ARRAY && t.len == (uint32_t)v; break;
        default: is = sub == 8 ? mpack_expect_map_max_or_nil(&r, (uint32_t)v, &c32) : mpack_expect_array_max_or_nil(&r, (uint32_t)v, &c32);
            want = have && (t.type == REF_NIL || (t.type == (sub == 8 ? REF_MAP : REF_ARRAY) && t.len <= (uint32_t)v));
            CHECK(is == (want && t.type != REF_NIL) && c32 == (is ? t.len : 0), "container or nil"); break;
    }
#endif
    CHECK((mpack_reader_error(&r) == mpack_ok) == want, "succeeds exactly on equality");
    if (want) CHECK(rest(&r) == n - consumed, "consumes exactly the element");
    if (want) { mpack_error_t e2 = mpack_reader_destroy(&r); CHECK(e2 == mpack_ok, "final error"); } else mpack_reader_destroy(&r);
    vf_free(mem);
    CHECK(vf_live == 0, "nothing is leaked");
}
static void run(uint8_t* p, size_t n) {
    unsigned k = sym_u8();
    for (unsigned sub = 0; sub < SUBS; ++sub) {
        if (k != sub) continue;
        at(p, n, sub);
        END(c23);
        STOPV();
    }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
