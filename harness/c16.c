/* C16: every block the library allocates is released exactly once, whichever
 * allocation or stream call fails, wherever the work is abandoned, and when the
 * error handler never returns (JUMP: it destroys the object, like a longjmp or
 * exception that unwinds to the destruction, and the failing call is never
 * resumed). Double frees and uses after free are pointer checks. */
#define W_CUTS 1
#include "wdoc.h"
#include "tree.h"
#include "shape.h"
#ifndef VF_CBMC
#include <stdlib.h>
#endif
#ifndef JUMP
#define JUMP 0
#endif
#ifdef VF_CBMC
#define NEVER_RETURN() do { END(c16); __CPROVER_assume(0); } while (0)
#else
#define NEVER_RETURN() do { END(c16); _Exit(0); } while (0)
#endif

static char* kept[12];      /* blocks handed to the caller */
static unsigned nkept, handler, io_calls;
static bool destroying;
static unsigned io_at;
static void keep(void* p) { if (p != NULL) { ASSUME(nkept < 12); kept[nkept++] = (char*)p; } }
static void finish(void);
static void ended(void) {
    for (unsigned i = 0; i < nkept; ++i) vf_free(kept[i]);
    CHECK(vf_live == 0, "every block has been released");
    CHECK(handler <= 1, "the error handler is called once");
}
static void failed(void) {
    ++handler;
#if JUMP
    if (destroying) return;
    finish();
    NEVER_RETURN();
#endif
}

#if KIND == 0 /* writers */
static mpack_writer_t w;
static char* data; static size_t size;
static void on_error(mpack_writer_t* x, mpack_error_t e) { (void)x; (void)e; failed(); }
static void flush(mpack_writer_t* x, const char* p, size_t n) { (void)p; (void)n; if (++io_calls == io_at) mpack_writer_flag_error(x, mpack_error_io); }
static char* buf;
static void finish(void) {
    destroying = true;
    mpack_error_t e = mpack_writer_destroy(&w);
#if GROW
    CHECK((data != NULL) == (e == mpack_ok), "a buffer is handed over exactly when there is no error");
#endif
    keep(data); keep(buf);
    ended();
}
static void at(const uint8_t* p, size_t n, unsigned fail, unsigned cut) {
    w_cut = cut; vf_fail_at = fail;
#if GROW
    mpack_writer_init_growable(&w, &data, &size);
#else
    vf_fail_at = 0;
    buf = (char*)vf_malloc(32); vf_fail_at = fail ? fail + 1 : 0; io_at = IOFAIL;
    mpack_writer_init(&w, buf, 32);
    mpack_writer_set_flush(&w, flush);
#endif
    mpack_writer_set_error_handler(&w, on_error);
    emit(&w, p, n, STYLE, BUILDS);
    finish();
}
#define CUTLO 0
#ifndef CUTS
#define CUTS 0, 2, 5, 99
#endif
#elif KIND == 1 /* readers */
static mpack_reader_t r;
static const uint8_t* src; static size_t src_n, src_pos;
static void on_error(mpack_reader_t* x, mpack_error_t e) { (void)x; (void)e; failed(); }
static size_t fill(mpack_reader_t* x, char* b, size_t n) {
    if (++io_calls == io_at) { if (IOFLAG) mpack_reader_flag_error(x, mpack_error_io); return 0; }
    size_t c = src_n - src_pos; if (c > n) c = n; if (c > 3) c = 3;
    for (size_t i = 0; i < c; ++i) b[i] = (char)src[src_pos + i];
    src_pos += c; return c;
}
static char* buf;
static void finish(void) { destroying = true; mpack_reader_destroy(&r); keep(buf); ended(); }
static char rbuf[64];
static void at(const uint8_t* p, size_t n, unsigned fail, unsigned cut) {
    vf_fail_at = fail; io_at = IOFAIL;
    vf_malloc_cap = 1024;
#if STREAM
    src = p; src_n = n;
    mpack_reader_init(&r, rbuf, 33, 0);
    mpack_reader_set_fill(&r, fill);
#else
    mpack_reader_init_data(&r, (const char*)p, n);
#endif
    mpack_reader_set_error_handler(&r, on_error);
    size_t left[4]; bool map[4]; int d = -1;
    for (unsigned k = 0; k < 12 && k < cut; ++k) {
        mpack_tag_t t = mpack_peek_tag(&r);
        if (mpack_reader_error(&r) != mpack_ok) break;
        size_t got; uint32_t cnt;
        int8_t et;
        if (d >= 0) --left[d];
        switch (mpack_tag_type(&t)) {
            case mpack_type_str:
                if (STYLE == 0) keep(mpack_expect_cstr_alloc(&r, 24));
                else if (STYLE == 1) keep(mpack_expect_utf8_cstr_alloc(&r, 24));
                else { mpack_read_tag(&r); if (mpack_reader_error(&r) == mpack_ok) { keep(mpack_read_bytes_alloc(&r, t.v.l)); mpack_done_str(&r); } }
                break;
            case mpack_type_bin:
                if (STYLE == 0) keep(mpack_expect_bin_alloc(&r, 24, &got));
                else { mpack_read_tag(&r); if (mpack_reader_error(&r) == mpack_ok) { keep(mpack_read_bytes_alloc(&r, t.v.l)); mpack_done_bin(&r); } }
                break;
            case mpack_type_ext:
                keep(mpack_expect_ext_alloc(&r, &et, 24, &got));
                break;
            case mpack_type_array: case mpack_type_map:
                if (mpack_tag_type(&t) == mpack_type_map) { cnt = 0; mpack_expect_map(&r); cnt = mpack_tag_map_count(&t); }
                else if (STYLE == 2) { mpack_read_tag(&r); cnt = mpack_tag_array_count(&t); }
                else keep(mpack_expect_array_alloc(&r, uint64_t, 9, &cnt));
                if (mpack_reader_error(&r) != mpack_ok) break;
                cnt = mpack_tag_type(&t) == mpack_type_map ? mpack_tag_map_count(&t) : mpack_tag_array_count(&t);
                ++d; ASSUME(d < 4);
                map[d] = mpack_tag_type(&t) == mpack_type_map;
                left[d] = map[d] ? (size_t)cnt * 2 : cnt;
                break;
            default: mpack_read_tag(&r);
        }
        while (d >= 0 && left[d] == 0) { if (map[d]) mpack_done_map(&r); else mpack_done_array(&r); --d; }
        if (mpack_reader_error(&r) != mpack_ok || d < 0) break;
    }
    if (cut == 98) mpack_reader_flag_error(&r, mpack_error_data);
    finish();
}
#ifndef CUTS
#define CUTS 1, 3, 98, 99
#endif
#else /* trees */
static mpack_tree_t t;
static const uint8_t* src; static size_t src_n, src_pos;
static void on_error(mpack_tree_t* x, mpack_error_t e) { (void)x; (void)e; failed(); }
static size_t rd(mpack_tree_t* x, char* b, size_t n) {
    if (++io_calls == io_at) { if (IOFLAG) mpack_tree_flag_error(x, mpack_error_io); return 0; }
    size_t c = src_n - src_pos; if (c > n) c = n; if (c > 3) c = 3;
    for (size_t i = 0; i < c; ++i) b[i] = (char)src[src_pos + i];
    src_pos += c; return c;
}
static void finish(void) { destroying = true; mpack_tree_destroy(&t); ended(); }
static void at(const uint8_t* p, size_t n, unsigned fail, unsigned cut) {
    uint8_t two[96]; size_t m = 0;
    for (size_t i = 0; i < n; ++i) two[m++] = p[i];
    two[m++] = 0x92; two[m++] = 0xa2; two[m++] = 0x41; two[m++] = 0x42; two[m++] = 0xc4; two[m++] = 1; two[m++] = 9;
    vf_fail_at = fail; io_at = IOFAIL;
    vf_malloc_cap = 1024;
#if STREAM
    src = two; src_n = m;
    mpack_tree_init_stream(&t, rd, NULL, 64, 64);
#else
    mpack_tree_init_data(&t, (const char*)two, m);
#endif
    mpack_tree_set_error_handler(&t, on_error);
    for (int msg = 0; msg < 2; ++msg) {
        bool ok;
#if POLL
        ok = false;
        for (unsigned k = 0; k < 24 && k < cut && !ok && mpack_tree_error(&t) == mpack_ok; ++k) ok = mpack_tree_try_parse(&t);
#else
        mpack_tree_parse(&t); ok = mpack_tree_error(&t) == mpack_ok;
#endif
        if (!ok || cut <= (unsigned)msg) break;
        mpack_node_t root = mpack_tree_root(&t);
        size_t c = mpack_node_type(root) == mpack_type_array ? mpack_node_array_length(root) : 0;
        for (size_t i = 0; i < 3; ++i) {
            if (c > 0 && i >= c) break;
            mpack_node_t x = c ? mpack_node_array_at(root, i) : root;
            if (mpack_tree_error(&t) != mpack_ok) break;
            mpack_type_t ty = mpack_node_type(x);
            if (ty == mpack_type_str) { if (i % 2) keep(mpack_node_cstr_alloc(x, 24)); else keep(mpack_node_utf8_cstr_alloc(x, 24)); }
            else if (ty == mpack_type_bin || ty == mpack_type_ext) keep(mpack_node_data_alloc(x, 24));
            if (c == 0) break;
        }
    }
    finish();
}
#ifndef CUTS
#define CUTS 0, 1, 99
#endif
#endif

static void run(uint8_t* p, size_t n) {
    static const uint8_t cuts[] = {CUTS}, fails[] = {FAILS};
    uint8_t s = sym_u8();
    for (unsigned c = 0; c < sizeof(cuts); ++c)
        for (unsigned f = 0; f < sizeof(fails); ++f) {
            if (s != c * 16 + f) continue;
            at(p, n, fails[f], cuts[c]);
            END(c16);
            STOPV();
        }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
