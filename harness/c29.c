/* C29: reading and writing files. KIND 0: readers; 1: writers; 2: trees. The
 * file is a model of the C file functions in which any call can fail and the
 * file can be cut anywhere. OWN: 0 a FILE kept by the caller, 1 a FILE handed
 * over, 2 a file name. */
#define TREE_COPY 1
#include "wdoc.h"
#include "tree.h"
#include "shape.h"
#include "vf_stdio.c.inc"
static const unsigned owns[] = {OWNS};
static const unsigned fails[] = {FAILS};
#ifndef CUTS
#define CUTS 0
#endif
#ifndef PART
#define PART 0
#endif
#ifndef FROM
#define FROM 0
#endif
#ifndef CHUNK
#define CHUNK 0
#endif
#ifndef MFAIL
#define MFAIL 0
#endif
static unsigned own;
static void prepare(unsigned f) {
    if (FROM) f_fail_from = f; else f_fail_at = f;
    f_part = PART; f_chunk = CHUNK;
    vf_fail_at = MFAIL;
    if (own < 2) f_opened = 1;
}
static void closed(void) {
    CHECK(f_opened <= 1 && f_closed == (own ? f_opened : 0), "the file is closed exactly once when the library owns it");
    CHECK(vf_live == 0, "nothing leaks");
}

#if KIND == 0
#ifndef STYLE
#define STYLE 0 /* 0 bytes are read, 1 in place, 2 skipped, 3 each element discarded, 4 allocated */
#endif
/* reads messages until all n bytes are used */
static void consume(mpack_reader_t* r, const uint8_t* p, size_t n) {
    static char buf[128];
    size_t pos = 0;
    while (pos < n) {
        ref_tag_t t = ref_decode(p + pos, n - pos);
#if STYLE == 3
        ref_obj_t ob = ref_object(p + pos, n - pos);
        mpack_discard(r);
        if (mpack_reader_error(r) != mpack_ok) return;
        if (t.status != REF_OK) { CHECK(0, "reserved or truncated elements are errors"); return; }
        pos += ob.size;
        if (!ob.ok) { CHECK(0, "missing bytes are an error"); return; }
#else
        mpack_tag_t tag = mpack_read_tag(r);
        if (mpack_reader_error(r) != mpack_ok) return;
        CHECK(t.status == REF_OK && ref_tag_is(tag, &t), "the element of the file");
        pos += t.size;
        if (t.type == REF_STR || t.type == REF_BIN || t.type == REF_EXT) {
            const char* d = NULL;
            uint32_t len = t.len;
#if STYLE == 0
            if (len <= sizeof(buf)) { mpack_read_bytes(r, buf, len); d = buf; } else mpack_skip_bytes(r, len);
#elif STYLE == 1
            if (mpack_should_read_bytes_inplace(r, len)) d = mpack_read_bytes_inplace(r, len);
            else { mpack_read_bytes(r, buf, len); d = buf; }
#elif STYLE == 2
            mpack_skip_bytes(r, len);
#else
            char* a = len ? mpack_read_bytes_alloc(r, len) : NULL;
            d = a;
#endif
            if (mpack_reader_error(r) == mpack_ok) {
                CHECK(len <= n - pos, "missing bytes are an error");
                if (d) for (size_t i = 0; i < len; ++i) CHECK((uint8_t)d[i] == p[pos + i], "the bytes of the file");
            }
#if STYLE == 4
            if (a) vf_free(a);
#endif
            if (mpack_reader_error(r) != mpack_ok) return;
            if (t.type == REF_STR) mpack_done_str(r); else if (t.type == REF_BIN) mpack_done_bin(r); else mpack_done_ext(r);
            pos += len;
        }
#endif
    }
}
static void at(const uint8_t* p, size_t n, size_t cut, unsigned f) {
    mpack_reader_t r;
    prepare(f);
    for (size_t i = 0; i < cut; ++i) f_data[i] = p[i];
    f_size = cut;
    f_unseekable = UNSEEKABLE;
    if (own == 2) mpack_reader_init_filename(&r, "f");
    else mpack_reader_init_stdfile(&r, THE_FILE, own == 1);
    consume(&r, p, n);
    mpack_error_t before = mpack_reader_error(&r);
    mpack_error_t e = mpack_reader_destroy(&r);
    closed();
    bool whole = cut == n && ref_object(p, n).ok;
    if (f_failed == 0 && whole && vf_malloc_failures == 0) CHECK(e == mpack_ok, "a complete file is read without error");
    CHECK(whole || before != mpack_ok, "a file that is too short is an error");
    CHECK(!(f_failed & (IO_OPEN | IO_CLOSE)) || e != mpack_ok, "a failure to open or close is an error");
    CHECK(!(f_failed & IO_READ) || PART || e != mpack_ok, "a failing read is an error");
    CHECK(before == mpack_ok || e == before, "the first error remains");
    END(c29);
}
static void run(uint8_t* p, size_t n) {
    uint32_t sf = sym_u32(), so = sym_u32(), sc = sym_u32();
    for (unsigned o = 0; o < sizeof(owns) / sizeof(owns[0]); ++o)
        for (unsigned i = 0; i < sizeof(fails) / sizeof(fails[0]); ++i)
            for (size_t cut = CUTS ? 0 : n; cut <= n; ++cut) {
                if (so != o || sf != i || sc != cut || (VF_TWIN && (o || i > 1 || (cut > 2 && cut != n)))) continue;
                own = owns[o];
                at(p, n, cut, fails[i]);
                STOPV();
            }
    ASSUME(0);
}
#elif KIND == 1
#ifndef STYLE
#define STYLE 0
#endif
static unsigned handler;
static void on_error(mpack_writer_t* w, mpack_error_t e) { (void)w; (void)e; ++handler; }
static void run(uint8_t* p, size_t n) {
    uint32_t sf = sym_u32(), so = sym_u32();
    for (unsigned o = 0; o < sizeof(owns) / sizeof(owns[0]); ++o)
        for (unsigned i = 0; i < sizeof(fails) / sizeof(fails[0]); ++i) {
            if (so != o || sf != i || (VF_TWIN && (o || i))) continue;
            own = owns[o];
            mpack_writer_t w;
            prepare(fails[i]);
            if (own == 2) mpack_writer_init_filename(&w, "f");
            else mpack_writer_init_stdfile(&w, THE_FILE, own == 1);
            mpack_writer_set_error_handler(&w, on_error);
            emit(&w, p, n, STYLE, BUILDS);
            mpack_error_t before = mpack_writer_error(&w);
            mpack_error_t e = mpack_writer_destroy(&w);
            closed();
            CHECK(f_failed == 0 || e != mpack_ok, "a failure to open, write or close is an error");
            CHECK(vf_malloc_failures == 0 || e != mpack_ok, "a failure to allocate is an error");
            if (f_failed == 0 && vf_malloc_failures == 0) CHECK(e == mpack_ok && f_size == n && handler == 0, "everything is written without error");
            else CHECK(f_size <= n, "nothing else is written");
            CHECK(e == mpack_ok || f_failed == 0 || (f_failed & IO_OPEN) || handler == 1, "reported once");
            CHECK(before == mpack_ok || e == before, "the first error remains");
            for (size_t k = 0; k < f_size; ++k) CHECK(f_data[k] == p[k], "the file has the bytes written, in order");
            END(c29);
            STOPV();
        }
    ASSUME(0);
}
#else
static void run(uint8_t* p, size_t n) {
    uint32_t sf = sym_u32(), so = sym_u32(), sc = sym_u32(), sm = sym_u32();
    for (unsigned o = 0; o < sizeof(owns) / sizeof(owns[0]); ++o)
        for (unsigned i = 0; i < sizeof(fails) / sizeof(fails[0]); ++i)
            for (size_t cut = CUTS ? 0 : n; cut <= n; ++cut)
                for (unsigned m = 0; m < 5; ++m) {
                    if (so != o || sf != i || sc != cut || sm != m || ((fails[i] || CUTS || MFAIL) && m) || (VF_TWIN && (o || i > 1 || m || (cut > 2 && cut != n)))) continue;
                    own = owns[o];
                    size_t max = m == 0 ? 0 : m == 1 ? cut : m == 2 ? (size_t)((~0ul >> 1) + 1) : m == 3 ? (size_t)-1 : cut - 1;
                    if (m == 4 && cut < 2) STOPV();
                    if (m == 1 && cut == 0) STOPV();
                    mpack_tree_t t;
                    prepare(fails[i]);
                    for (size_t k = 0; k < cut; ++k) f_data[k] = p[k];
                    f_size = cut;
                    f_unseekable = UNSEEKABLE;
                    if (own == 2) mpack_tree_init_filename(&t, "f", max);
                    else mpack_tree_init_stdfile(&t, THE_FILE, max, own == 1);
                    CHECK(f_opened == f_closed || (own == 0), "a file of the library's own is not kept open");
                    mpack_tree_parse(&t);
                    bool fine = mpack_tree_error(&t) == mpack_ok;
                    if (fine) {
                        CHECK(cut == n, "a file that is too short is an error");
                        CHECK(m < 2, "limits are enforced");
                        CHECK(tree_walk(mpack_tree_root(&t), p, n, 16) == mpack_tree_size(&t) && mpack_tree_error(&t) == mpack_ok, "the message of the file");
                    }
                    if (m == 4 && !UNSEEKABLE) CHECK(!fine && mpack_tree_error(&t) == mpack_error_too_big, "a file larger than the maximum is too big");
                    if (m == 2 || m == 3) CHECK(mpack_tree_error(&t) == mpack_error_bug, "an impossible maximum is a bug");
                    if (f_failed == 0 && cut == n && m < 2 && vf_malloc_failures == 0 && !UNSEEKABLE) CHECK(fine, "a complete file is parsed without error");
                    CHECK(!(f_failed & ~(unsigned)IO_CLOSE) || PART || !fine, "a failing open, read or seek is an error");
                    CHECK(!UNSEEKABLE || !fine, "a file whose size is unknown is an error");
                    mpack_tree_destroy(&t);
                    closed();
                    END(c29);
                    STOPV();
                }
    ASSUME(0);
}
#endif
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
