/* C17: with tracking on, every sequence of up to DEPTH calls is compared with
 * a model of what is open: the error state after each call and at destruction
 * is bug exactly when the sequence has deviated. The counts
 * read are concrete here and symbolic for KIND 3. KIND 0: readers; 1: writers; 2: writers with builders. */
#include "ref.h"
#include "vf_lib.h"
#include "shape.h"
#if KIND == 0
#include "tree.h"
#endif
#ifndef DEPTH
#define DEPTH 4
#endif

/* the model: what is open, how many elements (twice for maps) or bytes remain */
enum { O_ARRAY, O_MAP, O_STR, O_BIN, O_EXT };
static struct { uint8_t type; bool built; bool odd; uint64_t left; } st[8];
static int top = -1;
static bool deviated;
static bool container(void) { return top >= 0 && (st[top].type == O_ARRAY || st[top].type == O_MAP); }
static bool may_element(void) { return top < 0 || (container() && (st[top].built || st[top].left > 0)); }
static void element(void) {
    if (!may_element()) { deviated = true; return; }
    if (top < 0) return;
    if (st[top].built) st[top].odd = st[top].type == O_MAP && !st[top].odd;
    else --st[top].left;
}
static void open_(uint8_t type, uint64_t n, bool built) {
    if (deviated) return;
    ++top; st[top].type = type; st[top].built = built; st[top].odd = false; st[top].left = type == O_MAP ? n * 2 : n;
}
static void close_(uint8_t type, bool built) {
    if (top < 0 || st[top].type != type || st[top].left != 0 || st[top].odd || st[top].built != built) deviated = true;
    else --top;
}
static void bytes_(uint64_t n) {
    if (top < 0 || container() || st[top].left < n) deviated = true;
    else st[top].left -= n;
}
static unsigned handler;
static uint8_t pick[DEPTH + 1];

#if KIND >= 3
/* one container of a symbolic count or length, k elements or bytes, its end */
static void on_rerror(mpack_reader_t* x, mpack_error_t e) { (void)x; (void)e; ++handler; }
static void on_werror(mpack_writer_t* x, mpack_error_t e) { (void)x; (void)e; ++handler; }
static void flush(mpack_writer_t* x, const char* p, size_t n) { (void)x; (void)p; (void)n; }
int main(void) {
    uint32_t sel = sym_u32(), n = sym_u32();
    for (unsigned j = 0; j < 25; ++j) {
        unsigned type = j / 5, k = j % 5;
        if (sel != j || type < FIRST || type > LAST || (KIND == 3 && type <= O_MAP && k > 2)) continue;  /* k: elements done, one more for maps and bytes */
        uint64_t want = type == O_MAP ? 2 * (uint64_t)n : n;
#if KIND == 3
        static const uint8_t lead[5] = {0xdd, 0xdf, 0xdb, 0xc6, 0xc9};
        uint8_t b[24] = {lead[type], (uint8_t)(n >> 24), (uint8_t)(n >> 16), (uint8_t)(n >> 8), (uint8_t)n, 7, 7, 7, 7, 7, 7, 7, 7, 7};
        mpack_reader_t r;
        mpack_reader_init_data(&r, (const char*)b, 16);
        mpack_reader_set_error_handler(&r, on_rerror);
        mpack_tag_t t = mpack_read_tag(&r);
        CHECK(mpack_tag_type(&t) == (type == O_ARRAY ? mpack_type_array : type == O_MAP ? mpack_type_map : type == O_STR ? mpack_type_str : type == O_BIN ? mpack_type_bin : mpack_type_ext), "type");
        if (type <= O_MAP) for (unsigned i = 0; i < k; ++i) mpack_expect_u8(&r);
        else mpack_skip_bytes(&r, k);
        CHECK(mpack_reader_error(&r) == (k > want ? mpack_error_bug : mpack_ok), "more than declared");
        if (type == O_ARRAY) mpack_done_array(&r);
        else if (type == O_MAP) mpack_done_map(&r);
        else if (type == O_STR) mpack_done_str(&r);
        else if (type == O_BIN) mpack_done_bin(&r);
        else mpack_done_ext(&r);
        CHECK(mpack_reader_error(&r) == (k != want ? mpack_error_bug : mpack_ok), "exactly what was declared");
        CHECK(mpack_reader_destroy(&r) == (k != want ? mpack_error_bug : mpack_ok), "at the end");
#else
        static char out[64];
        mpack_writer_t w;
        mpack_writer_init(&w, out, sizeof(out));
        mpack_writer_set_flush(&w, flush);
        mpack_writer_set_error_handler(&w, on_werror);
        if (type == O_ARRAY) mpack_start_array(&w, n);
        else if (type == O_MAP) mpack_start_map(&w, n);
        else if (type == O_STR) mpack_start_str(&w, n);
        else if (type == O_BIN) mpack_start_bin(&w, n);
        else mpack_start_ext(&w, 5, n);
        if (type <= O_MAP) for (unsigned i = 0; i < k; ++i) mpack_write_u8(&w, 7);
        else mpack_write_bytes(&w, "abcdefgh", k);
        CHECK(mpack_writer_error(&w) == (k > want ? mpack_error_bug : mpack_ok), "more than declared");
        if (type == O_ARRAY) mpack_finish_array(&w);
        else if (type == O_MAP) mpack_finish_map(&w);
        else if (type == O_STR) mpack_finish_str(&w);
        else if (type == O_BIN) mpack_finish_bin(&w);
        else mpack_finish_ext(&w);
        CHECK(mpack_writer_error(&w) == (k != want ? mpack_error_bug : mpack_ok), "exactly what was declared");
        CHECK(mpack_writer_destroy(&w) == (k != want ? mpack_error_bug : mpack_ok), "at the end");
#endif
        CHECK(handler == (unsigned)(k != want), "reported once");
        CHECK(vf_live == 0, "nothing leaks");
        END(c17);
        STOPV();
    }
    ASSUME(0);
    return 0;
}
#elif KIND == 0
static mpack_reader_t r;
static void on_error(mpack_reader_t* x, mpack_error_t e) { (void)x; (void)e; ++handler; }
static const uint8_t* P; static size_t N, pos;
static void level(unsigned d);
static void after(unsigned d) {
    mpack_error_t e = mpack_reader_error(&r);
    CHECK(e == (deviated ? mpack_error_bug : mpack_ok), "a call is a bug error exactly when it deviates from what is open");
    CHECK(handler == (unsigned)deviated, "reported once");
    CHECK(e != mpack_ok || top >= 0 || mpack_reader_remaining(&r, NULL) == N - pos, "tracking does not change what is consumed");
    if (deviated) { CHECK(mpack_reader_destroy(&r) == mpack_error_bug, "the error remains"); CHECK(vf_live == 0, "nothing leaks"); END(c17); STOPV(); }
    level(d + 1);
}
#define OPS 18
static void op(unsigned k, unsigned d) {
    static char o[8];
    if (k == 0 || k == 1) { /* the next element */
        if (pos >= N) STOPV();
        ref_tag_t t = ref_decode(P + pos, N - pos);
        bool ok = may_element();
        if (k == 1) { /* peeking changes nothing */
            mpack_tag_t g = mpack_peek_tag(&r);
            if (!ok) deviated = true; else CHECK((ref_type_t)t.type != REF_NIL || mpack_tag_type(&g) == mpack_type_nil, "peeked");
            after(d);
            return;
        }
        mpack_read_tag(&r);
        element();
        if (!deviated) {
            pos += t.size;
            if (t.type == REF_ARRAY) open_(O_ARRAY, t.len, false);
            else if (t.type == REF_MAP) open_(O_MAP, t.len, false);
            else if (t.type == REF_STR) open_(O_STR, t.len, false);
            else if (t.type == REF_BIN) open_(O_BIN, t.len, false);
            else if (t.type == REF_EXT) open_(O_EXT, t.len, false);
        }
        after(d);
    } else if (k >= 2 && k <= 4) { /* 0, 1 or 2 bytes */
        size_t n = k - 2;
        if (N - pos < n) STOPV();
        bytes_(n); if (!deviated) pos += n;
        mpack_read_bytes(&r, o, n);
        after(d);
    } else if (k == 5 || k == 6) {
        size_t n = k - 4;
        if (N - pos < n) STOPV();
        bytes_(n); if (!deviated) pos += n;
        if (k == 5) mpack_skip_bytes(&r, n); else { const char* p = mpack_read_bytes_inplace(&r, n); CHECK((p == NULL) == deviated, "in place"); }
        after(d);
    } else if (k == 7 || k == 8) { /* the whole of a string */
        size_t n = k - 6;
        if (N - pos < n) STOPV();
        bytes_(n); if (!deviated && (st[top].type != O_STR || st[top].left != 0)) deviated = true;
        if (!deviated) pos += n;
        if (k == 7) mpack_read_utf8_inplace(&r, n); else mpack_read_cstr(&r, o, 8, n);
        after(d);
    } else if (k == 9) { close_(O_ARRAY, false); mpack_done_array(&r); after(d); }
    else if (k == 10) { close_(O_MAP, false); mpack_done_map(&r); after(d); }
    else if (k == 11) { close_(O_STR, false); mpack_done_str(&r); after(d); }
    else if (k == 12) { close_(O_BIN, false); mpack_done_bin(&r); after(d); }
    else if (k == 13) { close_(O_EXT, false); mpack_done_ext(&r); after(d); }
    else if (k == 14) { close_(O_MAP, false); mpack_done_type(&r, mpack_type_map); after(d); }
    else if (k == 15) { /* an expected number: an element */
        if (pos >= N || ref_decode(P + pos, N - pos).type != REF_UINT) STOPV();
        element(); if (!deviated) pos += ref_decode(P + pos, N - pos).size;
        mpack_expect_u64(&r);
        after(d);
    } else if (k == 16) { /* discarding an element that is complete (containers: of the fix forms) */
        if (pos >= N || (P[pos] >= 0xdc && P[pos] <= 0xdf)) STOPV();
        for (size_t z = 1; z <= N - pos; ++z) {
            ref_obj_t ob = ref_object(P + pos, N - pos);
            if (!ob.ok || ob.size != z) continue;
            element(); if (!deviated) pos += z;
            mpack_discard(&r);
            after(d);
            STOPV();
        }
        STOPV();
    } else { /* the end */
        mpack_error_t e = mpack_reader_destroy(&r);
        if (top >= 0) deviated = true;
        CHECK(e == (deviated ? mpack_error_bug : mpack_ok), "destruction reports what is still open");
        CHECK(handler == (unsigned)deviated, "reported once");
        CHECK(vf_live == 0, "nothing leaks");
        END(c17);
    }
}
static void level(unsigned d) {
    for (unsigned k = 0; k < OPS; ++k) {
        if (pick[d] != k || (d == DEPTH && k != OPS - 1) || (VF_TWIN && d > 1 && k != OPS - 1)) continue;
        op(k, d);
        STOPV();
    }
    ASSUME(0);
}
static void run(uint8_t* p, size_t n) {
    P = p; N = n;
    for (unsigned i = 0; i <= DEPTH; ++i) pick[i] = sym_u8();
    mpack_reader_init_data(&r, (const char*)p, n);
    mpack_reader_set_error_handler(&r, on_error);
    level(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
#else
static mpack_writer_t w;
static void on_error(mpack_writer_t* x, mpack_error_t e) { (void)x; (void)e; ++handler; }
static char* out; static size_t out_n;
static void flush(mpack_writer_t* x, const char* p, size_t n) { (void)x; (void)p; (void)n; }
static char fixed[96];
static void level(unsigned d);
static void over(void) {
    mpack_error_t e = mpack_writer_destroy(&w);
    if (top >= 0) deviated = true;
    CHECK(e == (deviated ? mpack_error_bug : mpack_ok), "destruction reports what is still open");
    CHECK(handler == (unsigned)deviated, "reported once");
    vf_free(out);
    CHECK(vf_live == 0, "nothing leaks");
    END(c17);
}
static void after(unsigned d) {
    CHECK(mpack_writer_error(&w) == (deviated ? mpack_error_bug : mpack_ok), "a call is a bug error exactly when it deviates from what is open");
    CHECK(handler == (unsigned)deviated, "reported once");
    if (deviated) { over(); STOPV(); }
    level(d + 1);
}
#if KIND == 1
#define OPS 21
#else
#define OPS 14
#endif
static void op(unsigned k, unsigned d) {
    static const char b[4] = {'a', 'b', 'c', 'd'};
#if KIND == 1
    switch (k) {
        case 0: case 1: case 2: element(); open_(O_ARRAY, k, false); mpack_start_array(&w, k); break;
        case 3: case 4: element(); open_(O_MAP, k - 3, false); mpack_start_map(&w, k - 3); break;
        case 5: case 6: element(); open_(O_STR, (k - 5) * 2, false); mpack_start_str(&w, (k - 5) * 2); break;
        case 7: element(); open_(O_BIN, 2, false); mpack_start_bin(&w, 2); break;
        case 8: element(); open_(O_EXT, 1, false); mpack_start_ext(&w, 5, 1); break;
        case 9: element(); mpack_write_u8(&w, 5); break;
        case 10: element(); mpack_write_cstr(&w, "ab"); break;
        case 11: case 12: bytes_(k - 10); mpack_write_bytes(&w, b, k - 10); break;
        case 13: close_(O_ARRAY, false); mpack_finish_array(&w); break;
        case 14: close_(O_MAP, false); mpack_finish_map(&w); break;
        case 15: close_(O_STR, false); mpack_finish_str(&w); break;
        case 16: close_(O_BIN, false); mpack_finish_bin(&w); break;
        case 17: close_(O_EXT, false); mpack_finish_ext(&w); break;
        case 18: if (top >= 0) deviated = true; mpack_writer_flush_message(&w); break;
        case 19: element(); open_(O_MAP, 1, false); mpack_write_tag(&w, mpack_tag_make_map(1)); break;
        default: over(); return;
    }
#else
    switch (k) {
        case 0: element(); open_(O_ARRAY, 0, true); mpack_build_array(&w); break;
        case 1: element(); open_(O_MAP, 0, true); mpack_build_map(&w); break;
        case 2: close_(O_ARRAY, true); mpack_complete_array(&w); break;
        case 3: close_(O_MAP, true); mpack_complete_map(&w); break;
        case 4: element(); open_(O_ARRAY, 1, false); mpack_start_array(&w, 1); break;
        case 5: close_(O_ARRAY, false); mpack_finish_array(&w); break;
        case 6: element(); mpack_write_nil(&w); break;
        case 7: element(); open_(O_STR, 1, false); mpack_start_str(&w, 1); break;
        case 8: bytes_(1); mpack_write_bytes(&w, b, 1); break;
        case 9: close_(O_STR, false); mpack_finish_str(&w); break;
        case 10: element(); open_(O_MAP, 1, false); mpack_start_map(&w, 1); break;
        case 11: close_(O_MAP, false); mpack_finish_map(&w); break;
        case 12: element(); mpack_write_double(&w, 1.5); break;
        default: over(); return;
    }
#endif
    after(d);
}
static void level(unsigned d) {
    for (unsigned k = 0; k < OPS; ++k) {
        if (pick[d] != k || (d == DEPTH && k != OPS - 1) || (VF_TWIN && d > 1 && k != OPS - 1)) continue;
        if (d == 0 && (k < FIRST || k > LAST)) continue;
        op(k, d);
        STOPV();
    }
    ASSUME(0);
}
int main(void) {
    for (unsigned i = 0; i <= DEPTH; ++i) pick[i] = sym_u8();
#if KIND == 1
    mpack_writer_init(&w, fixed, sizeof(fixed));
    mpack_writer_set_flush(&w, flush);
#else
    mpack_writer_init_growable(&w, &out, &out_n);
#endif
    mpack_writer_set_error_handler(&w, on_error);
    level(0);
    return 0;
}
#endif
