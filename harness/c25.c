/* C25: debug printing. KIND 0: descriptions of tags; 1: printing into a buffer,
 * of data and of nodes; 2: the print buffer itself; 3: files; 4: nodes of a tree
 * in error. Every output buffer is a block of exactly its stated size, every
 * input too, so that one byte beyond either is a violation. */
#include "wdoc.h"
#include "tree.h"
#include "shape.h"
#if KIND == 0
#define VF_DIGITS 1
#endif
#include "vf_print.c.inc"
static bool terminated(const char* s, size_t n) {
    for (size_t i = 0; i < n; ++i) if (s[i] == 0) return true;
    return false;
}
static char* block(size_t n) {
    char* b = (char*)vf_malloc(n);
    for (size_t i = 0; i < n; ++i) b[i] = (char)0x5a;
    return b;
}
#ifndef FLEN
#define FLEN 8
#endif
#ifndef SIZES
#define SIZES 1
#endif
static const uint16_t sizes[] = {SIZES};
enum { NSIZES = sizeof(sizes) / sizeof(sizes[0]) };

#if KIND == 0
/* OPS: 0 describe, 1 pseudo-JSON */
int main(void) {
    uint32_t st = sym_u32(), ss = sym_u32(), sp = sym_u32(), sd = sym_u32();
    static const uint8_t digits[] = {DIGITS}, prefixes[] = {0, 1, 12, 13};
    static const unsigned types[] = {TYPES};
    for (unsigned ti = 0; ti < sizeof(types) / sizeof(types[0]); ++ti)
        for (unsigned si = 0; si < NSIZES; ++si)
            for (unsigned pi = 0; pi < 4; ++pi)
            for (unsigned dg = 0; dg < 2 * sizeof(digits); ++dg) {
                unsigned ty = types[ti];
                size_t pn = prefixes[pi];
                if (st != ti || ss != si || sp != pi || sd != dg || (VF_TWIN && (ti || si || pi || dg))) continue;
                vf_digits[0] = digits[dg / 2];
                vf_neg[0] = dg & 1;
                if (ty == 10) { vf_digits[1] = vf_digits[0]; vf_digits[0] = dg & 1 ? 3 : 1; }
                else if ((dg & 1) && ty != 3) STOP();
                if (dg && (ty < 3 || ty == 5 || ty == 6)) STOP();
                bool data = ty == 7 || ty == 10;
                if (pn && (!data || !JSON)) STOP();
                size_t size = sizes[si];
                mpack_tag_t t;
                switch (ty) {
                    case 0: t = mpack_tag_make_nil(); t.type = mpack_type_missing; break;
                    case 1: t = mpack_tag_make_nil(); break;
                    case 2: t = mpack_tag_make_bool(sym_bool()); break;
                    case 3: t = mpack_tag_make_int((int64_t)sym_u64()); break;
                    case 4: t = mpack_tag_make_uint(sym_u64()); break;
                    case 5: t = mpack_tag_make_float(1.5f); vf_flen = FLEN; break;
                    case 6: t = mpack_tag_make_double(-2.5); vf_flen = FLEN; break;
                    case 7: t = mpack_tag_make_bin(sym_u32()); break;
                    case 8: t = mpack_tag_make_str(sym_u32()); break;
                    case 9: t = mpack_tag_make_array(sym_u32()); break;
                    case 10: t = mpack_tag_make_ext((int8_t)sym_u8(), sym_u32()); break;
                    default: t = mpack_tag_make_map(sym_u32()); break;
                }
                if (data) ASSUME(t.v.l >= pn);
                char* b = block(size);
                char* p = NULL;
                if (pn) { p = (char*)vf_malloc(pn); for (size_t i = 0; i < pn; ++i) p[i] = (char)sym_u8(); }
                if (JSON) mpack_tag_debug_pseudo_json(t, b, size, p, pn);
                else mpack_tag_debug_describe(t, b, size);
                CHECK(terminated(b, size), "the text is terminated within the size given");
                CHECK(vf_breaks == 0, "no internal error");
                vf_free(b); vf_free(p);
                END(c25);
                STOP();
            }
    ASSUME(0);
    return 0;
}
#elif KIND == 2
static uint8_t got[64];
static size_t got_n;
static int mark;
static void sink(void* c, const char* d, size_t n) {
    CHECK(c == &mark, "the callback has its context");
    CHECK(n <= sizeof(got) - got_n, "no more is printed than was given");
    for (size_t i = 0; i < n; ++i) got[got_n++] = (uint8_t)d[i];
}
static const uint8_t counts[] = {0, 1, 2, 4, 9};
int main(void) {
    uint32_t s0 = sym_u32(), s1 = sym_u32(), s2 = sym_u32(), s3 = sym_u32();
    for (unsigned k = 0; k < NSIZES; ++k)
        for (unsigned a = 0; a < 5; ++a)
            for (unsigned b = 0; b < 5; ++b)
                for (unsigned c = 0; c < 5; ++c) {
                    if (s0 != k || s1 != a || s2 != b || s3 != c || (VF_TWIN && (k || a > 1 || b > 1 || c > 1))) continue;
                    mpack_print_t pr;
                    char* buf = block(sizes[k]);
                    pr.buffer = buf; pr.size = sizes[k]; pr.count = 0; pr.callback = CALLBACK ? sink : NULL; pr.context = &mark;
                    uint8_t all[33];
                    size_t n = 0;
                    const uint8_t cs[3] = {counts[a], counts[b], counts[c]};
                    for (int q = 0; q < 3; ++q) {
                        char* in = cs[q] ? (char*)vf_malloc(cs[q]) : (char*)all;
                        for (size_t i = 0; i < cs[q]; ++i) { all[n] = sym_u8(); in[i] = (char)all[n++]; }
                        mpack_print_append(&pr, in, cs[q]);
                        if (cs[q]) vf_free(in);
                    }
                    mpack_print_flush(&pr);
                    if (CALLBACK) {
                        CHECK(got_n == n, "everything is printed");
                        for (size_t i = 0; i < n; ++i) CHECK(got[i] == all[i], "in order");
                    } else {
                        CHECK(pr.count == (n < pr.size ? n : pr.size), "as much as fits is printed");
                        for (size_t i = 0; i < pr.count; ++i) CHECK((uint8_t)buf[i] == all[i], "in order");
                    }
                    vf_free(buf);
                    END(c25);
                    STOP();
                }
    ASSUME(0);
    return 0;
}
#else
#ifndef FULL
#define FULL 512
#endif
#ifndef SYMBOLIC
/* concrete bytes keep every position concrete; shapes_printy has the symbolic ones */
#undef Y
#define Y 0xe7
#define C 0x80
#endif
static char full[FULL];
static size_t full_n;
#if KIND == 3
#include "vf_stdio.c.inc"
#endif
static size_t cb_n;
static int mark;
static void sink(void* c, const char* d, size_t n) {
    CHECK(c == &mark, "the callback has its context");
    for (size_t i = 0; i < n; ++i) { CHECK(cb_n < full_n && full[cb_n] == d[i], "the callback has the text of the buffer"); ++cb_n; }
}
#if KIND != 3
static char* exact(const uint8_t* p, size_t n) {
    char* d = (char*)vf_malloc(n);
    for (size_t i = 0; i < n; ++i) d[i] = (char)p[i];
    return d;
}
/* HOW 0: data; 1: node */
static void run(uint8_t* p, size_t n) {
    uint32_t ss = sym_u32(), sc = sym_u32();
    ref_obj_t ob = ref_object(p, n);
    for (size_t cut = CUTS ? 0 : n; cut <= n; ++cut)
        for (unsigned si = 0; si <= NSIZES + 1; ++si) {
            if (ss != si || sc != cut || (VF_TWIN && (si > 1 || (cut > 1 && cut != n)))) continue;
            if (HOW && (!ob.ok || cut != n)) STOPV();
#ifdef SYMBOLIC /* the text may contain zero bytes */
            if (si == NSIZES) STOPV();
#endif
            char* d = exact(p, cut);
            mpack_tree_t t;
            mpack_node_t root;
            if (HOW) {
                mpack_tree_init_data(&t, d, cut);
                mpack_tree_parse(&t);
                CHECK(mpack_tree_error(&t) == mpack_ok, "the message is valid");
                root = mpack_tree_root(&t);
                if (KIND == 4) mpack_tree_flag_error(&t, mpack_error_io);
            }
#define PRINT(b, z) do { if (HOW) mpack_node_print_to_buffer(root, (b), (z)); else mpack_print_data_to_buffer(d, cut, (b), (z)); } while (0)
            PRINT(full, sizeof(full));
            CHECK(terminated(full, sizeof(full)), "the text is terminated");
            while (full_n < FULL && full[full_n]) ++full_n; /* (the strings of the messages have no zero bytes) */
            CHECK(full_n < sizeof(full) - 1, "the whole text fits");
            if (si < NSIZES) {
                size_t z = sizes[si];
                if (z > full_n + 2) STOPV();
                char* b = block(z);
                PRINT(b, z);
                CHECK(terminated(b, z), "the text is terminated within the size given");
                for (size_t i = 0; i + 1 < z; ++i) CHECK(i > full_n || b[i] == full[i], "a buffer too small has the start of the text");
                vf_free(b);
            } else if (si == NSIZES) {
                if (HOW) mpack_node_print_to_callback(root, sink, &mark); else mpack_print_data_to_callback(d, cut, sink, &mark);
                CHECK(cb_n == full_n, "the callback has the whole text");
            } else {
                if (!HOW || KIND == 4) STOPV();
                static char other[FULL];
                mpack_print_data_to_buffer(d, cut, other, sizeof(other));
                for (size_t i = 0; i <= full_n; ++i) CHECK(other[i] == full[i], "a node prints as its data does");
            }
            if (HOW) mpack_tree_destroy(&t);
            vf_free(d);
            CHECK(vf_live == 0 && (vf_breaks == 0), "nothing leaks");
            END(c25);
            STOPV();
        }
    ASSUME(0);
}
#else
/* 0: data to a file; 1: node to a file; 2: a file to a callback */
static void run(uint8_t* p, size_t n) {
    uint32_t ss = sym_u32();
    ref_obj_t ob = ref_object(p, n);
    ASSUME(ob.ok && ob.size == n);
    for (unsigned si = 0; si < 3; ++si) {
        if (ss != si) continue;
        f_opened = 1;
        if (si == 2) {
            mpack_print_data_to_buffer((const char*)p, n, full, sizeof(full));
            while (full_n < FULL && full[full_n]) ++full_n;
            for (size_t k = 0; k < n; ++k) f_data[k] = p[k];
            f_size = n;
            mpack_print_stdfile_to_callback(THE_FILE, sink, &mark);
            CHECK(cb_n == full_n, "the callback has the text of the file");
        } else {
            mpack_print_t pr;
            if (si == 0) mpack_print_data_to_file((const char*)p, n, THE_FILE);
            else {
                mpack_tree_t t;
                mpack_tree_init_data(&t, (const char*)p, n);
                mpack_tree_parse(&t);
                mpack_node_print_to_file(mpack_tree_root(&t), THE_FILE);
                mpack_tree_destroy(&t);
            }
            mpack_print_data_to_buffer((const char*)p, n, full, sizeof(full));
            while (full_n < FULL && full[full_n]) ++full_n;
            /* the same text, indented by two levels, and a newline */
            size_t q = 0;
            for (size_t i = 0; i <= full_n; ++i) {
                if (i == 0 || full[i - 1] == '\n') for (int k = 0; k < 8; ++k) CHECK(q < f_size && f_data[q++] == ' ', "indented by two levels");
                if (i < full_n) CHECK(q < f_size && f_data[q++] == (uint8_t)full[i], "the file has the text");
            }
            CHECK(q + 1 == f_size && f_data[q] == '\n', "and a newline");
            (void)pr;
        }
        CHECK(f_closed == 0 && vf_live == 0, "the file stays open");
        END(c25);
        STOPV();
    }
    ASSUME(0);
}
#endif
int main(void) {
    uint32_t sel = sym_u32();
    vf_flen = FLEN;
#include SHAPES
    ASSUME(0);
    return 0;
}
#endif
