/* C07/C24: reading a message through a fill callback, any chunking, against
 * the reference decoder. A filler string of f bytes is read first so that the
 * message starts at every offset of the buffer. */
#include "ref.h"
#include "vf_lib.h"
#include "shape.h"

#define CAP 200
static uint8_t src[CAP];
static size_t src_n, src_pos;
static unsigned calls;
static bool ended;
#ifndef TAIL
#define TAIL 1
#endif
#ifndef CH1
#define CH1 CH0
#endif
static size_t fill(mpack_reader_t* r, char* b, size_t c) {
    CHECK(mpack_reader_error(r) == mpack_ok, "no fill in an error state");
    CHECK(c > 0, "fill asked for nothing");
    size_t k = (calls++ % 2) ? CH1 : CH0;
    if (k > c) k = c;
    if (k > src_n - src_pos) k = src_n - src_pos;
    if (k == 0) ended = true;
    for (size_t i = 0; i < k; ++i) b[i] = (char)src[src_pos + i];
    src_pos += k;
    return k;
}
static unsigned skips;
static void skip(mpack_reader_t* r, size_t c) {
    ++skips;
    CHECK(mpack_reader_error(r) == mpack_ok, "no skip in an error state");
    CHECK(mpack_reader_remaining(r, NULL) == 0, "skip with data still in the buffer");
    CHECK(c > 0, "skip asked for nothing");
    if (c > src_n - src_pos) { ended = true; mpack_reader_flag_error(r, mpack_error_io); return; }
    src_pos += c;
}
static bool failed; /* reading stopped with an error */
#define ERR(r) (mpack_reader_error(r) != mpack_ok)

static void payload(mpack_reader_t* r, const ref_tag_t* t, const uint8_t* d, size_t have) {
    size_t len = t->len;
    char buf[80];
    const char* q = NULL;
    char* a = NULL;
    (void)buf; (void)q; (void)a; (void)d;
    bool isstr = t->type == REF_STR;
    (void)isstr;
#if STYLE == 0 || STYLE == 7
    mpack_read_bytes(r, buf, len); q = buf;
#elif STYLE == 1
    if (len > BUF) { mpack_read_bytes(r, buf, len); q = buf; } else q = mpack_read_bytes_inplace(r, len);
#elif STYLE == 2
    for (size_t i = 0; i < len; ) { size_t k = i % 4 + 1; if (k > len - i) k = len - i; mpack_read_bytes(r, buf + i, k); i += k; }
    q = buf;
#elif STYLE == 3
    mpack_skip_bytes(r, len);
#elif STYLE == 4
    a = mpack_read_bytes_alloc(r, len); q = a;
    if (!ERR(r) && len) CHECK(a != NULL, "allocated");
#elif STYLE == 5
    if (len > BUF) mpack_read_bytes(r, buf, len); else mpack_read_utf8_inplace(r, len);
    q = NULL;
#elif STYLE == 6
    if (len) { mpack_read_bytes(r, buf, 1); mpack_skip_bytes(r, len - 1); }
#else
    mpack_read_bytes(r, buf, len); q = buf;
#endif
    if (ERR(r)) { vf_free(a); return; }
    CHECK(len <= have, "nothing is invented");
    if (q) for (size_t i = 0; i < len; ++i) CHECK((uint8_t)q[i] == d[i], "payload bytes");
    if (STYLE == 6 && len) CHECK((uint8_t)buf[0] == d[0], "first byte of the payload");
    vf_free(a);
    if (isstr) mpack_done_str(r); else if (t->type == REF_BIN) mpack_done_bin(r); else mpack_done_ext(r);
}
#if STYLE == 8
/* the expectation for each type */
static void expect(mpack_reader_t* r, const ref_tag_t* t) {
    int8_t et = 0;
    uint32_t v = 0;
    switch (t->type) {
        case REF_NIL: mpack_expect_nil(r); break;
        case REF_BOOL: { bool b = mpack_expect_bool(r); if (!ERR(r)) CHECK(b == t->b, "bool"); break; }
        case REF_UINT: { uint64_t u = mpack_expect_u64(r); if (!ERR(r)) CHECK(u == t->u, "uint"); break; }
        case REF_INT: { int64_t i = mpack_expect_i64(r); if (!ERR(r)) CHECK(i == t->i, "int"); break; }
        case REF_FLOAT: { float f = mpack_expect_float_strict(r); if (!ERR(r)) CHECK(ref_float_bits(f) == (uint32_t)t->u, "float"); break; }
        case REF_DOUBLE: { double f = mpack_expect_double_strict(r); if (!ERR(r)) CHECK(ref_double_bits(f) == t->u, "double"); break; }
        case REF_STR: v = mpack_expect_str(r); break;
        case REF_BIN: v = mpack_expect_bin(r); break;
        case REF_EXT: v = mpack_expect_ext(r, &et); if (!ERR(r)) CHECK(et == t->exttype, "ext type"); break;
        case REF_ARRAY: v = mpack_expect_array(r); break;
        default: v = mpack_expect_map(r); break;
    }
    if (!ERR(r) && t->type >= REF_STR) CHECK(v == t->len, "length or count");
}
#endif

static void at(uint8_t* p, size_t n, size_t f, size_t cut) {
#if STYLE == 5
    for (size_t i = 0; i < n; ) { /* the text is fixed: the UTF-8 check has a property of its own */
        ref_tag_t t = ref_decode(p + i, n - i);
        i += t.size ? t.size : 1;
        if (t.type == REF_STR || t.type == REF_BIN || t.type == REF_EXT) for (size_t j = 0; j < t.len; ++j) p[i++] = (uint8_t)('a' + j);
    }
#endif

    size_t h = f == 0 ? 0 : f < 33 ? 1 : 2, s = 0;
    if (f >= 33) { src[s++] = 0xd9; src[s++] = (uint8_t)(f - 2); } else if (f) src[s++] = (uint8_t)(0xa0 + f - 1);
    for (size_t i = h; i < f; ++i) src[s++] = (uint8_t)(i < 4 ? sym_u8() : i);
    for (size_t i = 0; i < n; ++i) src[s++] = p[i];
    CHECK(s <= CAP - 3, "harness: source buffer");
    src[s] = 0xc3; src[s + 1] = 7; src[s + 2] = 0xc0; /* what follows the message stays unread */
    src_n = cut ? s - cut : TAIL ? s + 3 : s; src_pos = 0;
    size_t total = s;
    char* rb = (char*)vf_malloc(BUF);
    mpack_reader_t r;
#if MEMORY
    for (size_t i = 0; i < src_n; ++i) rb[i] = (char)src[i];
    mpack_reader_init_data(&r, rb, src_n);
    src_pos = src_n;
#else
    mpack_reader_init(&r, rb, BUF, 0);
    mpack_reader_set_fill(&r, fill);
#if SKIP
    mpack_reader_set_skip(&r, skip);
#endif
#endif
    if (f) {
        mpack_tag_t tag = mpack_read_tag(&r);
        CHECK(mpack_tag_type(&tag) == mpack_type_str && mpack_tag_str_length(&tag) == f - h, "filler");
        if (f - h <= BUF && f % 2) mpack_read_bytes_inplace(&r, f - h); else mpack_skip_bytes(&r, f - h);
        mpack_done_str(&r);
        CHECK(mpack_reader_error(&r) == mpack_ok, "filler");
    }
    size_t pos = 0, avail = cut ? n - cut : n;
    uint64_t pend = 1;
    bool bad = false, toobig = false;
#if STYLE == 9
    for (size_t k = 0; k <= n; ++k) { /* the reference's view */
        if (pend == 0) break;
        ref_tag_t t = ref_decode(p + pos, avail - pos);
        if (t.status != REF_OK) { bad = true; break; }
        pos += t.size; --pend;
        if (t.type == REF_ARRAY) pend += t.len; else if (t.type == REF_MAP) pend += 2 * (uint64_t)t.len;
        else if (t.type == REF_STR || t.type == REF_BIN || t.type == REF_EXT) { if (t.len > avail - pos) { bad = true; break; } pos += t.len; }
    }
    mpack_discard(&r);
    failed = ERR(&r);
#else
    failed = false;
    for (size_t k = 0; k <= n; ++k) {
        if (pend == 0) break;
        ref_tag_t t = ref_decode(p + pos, avail - pos);
        bad = t.status != REF_OK;
#if STYLE == 8
        if (bad) { mpack_discard(&r); failed = ERR(&r); break; }
        expect(&r, &t);
        if (ERR(&r)) { failed = true; break; }
#else
        if (STYLE == 7) { mpack_tag_t pk = mpack_peek_tag(&r); if (!bad) CHECK(ERR(&r) || ref_tag_is(pk, &t), "peeked element"); }
        mpack_tag_t tag = mpack_read_tag(&r);
        if (ERR(&r)) { failed = true; break; }
        CHECK(!bad, "nothing is invented");
        CHECK(ref_tag_is(tag, &t), "element");
#endif
        pos += t.size; --pend;
        if (t.type == REF_ARRAY) pend += t.len; else if (t.type == REF_MAP) pend += 2 * (uint64_t)t.len;
        else if (t.type == REF_STR || t.type == REF_BIN || t.type == REF_EXT) {
            if (t.len > avail - pos) bad = true;
            payload(&r, &t, p + pos, avail - pos);
            if (ERR(&r)) { failed = true; break; }
            pos += t.len;
        }
    }
#endif
    (void)toobig;
    CHECK(failed == bad, "succeeds exactly when the whole message is there and well-formed");
    if (!failed) {
        if (TAIL) CHECK(pos == avail || cut, "whole message");
        CHECK(src_pos - mpack_reader_remaining(&r, NULL) == total - (n - pos), "consumes exactly the message");
        if (TAIL && !cut && n == pos) { /* what follows is still there */
            mpack_tag_t tag = mpack_read_tag(&r);
            CHECK(mpack_reader_error(&r) == mpack_ok && mpack_tag_type(&tag) == mpack_type_bool, "the next element follows");
        }
        CHECK(mpack_reader_destroy(&r) == mpack_ok, "final error");
    } else {
        CHECK(mpack_reader_destroy(&r) != mpack_ok, "final error");
    }
    vf_free(rb);
    CHECK(vf_live == 0, "nothing left allocated");
}
static void run(uint8_t* p, size_t n) {
    unsigned k = sym_u8();
    unsigned c = 0;
    for (size_t f = FLO; f <= FHI; f += FSTEP)
        for (size_t cut = 0; cut <= CUTS && cut < n + (n == 1); ++cut) {
            if (k != c++) continue;
            at(p, n, f, cut);
            END(c07);
            STOPV();
        }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
