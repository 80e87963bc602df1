/* C28: byte-order primitives, and the library's own memory functions. */
#include "ref.h"
#include "vf_lib.h"
#include "mpack-writer.h"
#define L 8

int main(void) {
    uint8_t a[24], b[24];
    for (int i = 0; i < 24; ++i) b[i] = a[i] = sym_u8();
    uint8_t op = sym_u8();
#if PART == 0
    unsigned off = sym_u8();
    ASSUME(off < 8);
    uint64_t v = sym_u64();
    char* p = (char*)a + off;
    size_t n = 0;
    uint64_t got = 0;
    switch (op) {
        case 0: mpack_store_u8(p, (uint8_t)v); n = 1; got = mpack_load_u8(p); break;
        case 1: mpack_store_u16(p, (uint16_t)v); n = 2; got = mpack_load_u16(p); break;
        case 2: mpack_store_u32(p, (uint32_t)v); n = 4; got = mpack_load_u32(p); break;
        case 3: mpack_store_u64(p, v); n = 8; got = mpack_load_u64(p); break;
        case 4: mpack_store_i8(p, (int8_t)v); n = 1; got = (uint64_t)(uint8_t)mpack_load_i8(p); break;
        case 5: mpack_store_i16(p, (int16_t)v); n = 2; got = (uint64_t)(uint16_t)mpack_load_i16(p); break;
        case 6: mpack_store_i32(p, (int32_t)v); n = 4; got = (uint64_t)(uint32_t)mpack_load_i32(p); break;
        case 7: mpack_store_i64(p, (int64_t)v); n = 8; got = (uint64_t)mpack_load_i64(p); break;
        case 8: { union { uint32_t u; float f; } x, y; x.u = (uint32_t)v; ASSUME(x.f == x.f); mpack_store_float(p, x.f); n = 4; y.f = mpack_load_float(p); got = y.u; break; }
        case 9: { union { uint64_t u; double f; } x, y; x.u = v; ASSUME(x.f == x.f); mpack_store_double(p, x.f); n = 8; y.f = mpack_load_double(p); got = y.u; break; }
        default: ASSUME(0);
    }
    CHECK(got == (n == 8 ? v : v & (((uint64_t)1 << (8 * n)) - 1)), "a load returns what was stored");
    for (unsigned i = 0; i < 24; ++i) {
        if (i >= off && i < off + n) CHECK(a[i] == (uint8_t)(v >> (8 * (n - 1 - (i - off)))), "big-endian bytes");
        else CHECK(a[i] == b[i], "only the bytes of the value are written");
    }
    /* loads of bytes that were never stored as a value */
    const char* q = (const char*)b + off;
    CHECK(mpack_load_u16(q) == ref_be(b + off, 2) && mpack_load_u32(q) == ref_be(b + off, 4) &&
          mpack_load_u64(q) == ref_be(b + off, 8) && mpack_load_u8(q) == b[off], "big-endian loads");
#else
    /* the library is built without builtins and without the standard library */
    unsigned s = sym_u8(), d = sym_u8(), n = sym_u8();
    ASSUME(s <= L && d <= L && n <= L);
    switch (op) {
        case 0: {
            CHECK(mpack_memmove(a + d, a + s, n) == a + d, "memmove returns its destination");
            for (unsigned i = 0; i < 24; ++i)
                CHECK(a[i] == (i >= d && i < d + n ? b[s + (i - d)] : b[i]), "memmove copies, overlapping or not");
            break;
        }
        case 1: {
            uint8_t c[24];
            for (int i = 0; i < 24; ++i) c[i] = (uint8_t)i;
            CHECK(mpack_memcpy(c + d, a + s, n) == c + d, "memcpy returns its destination");
            for (unsigned i = 0; i < 24; ++i) CHECK(c[i] == (i >= d && i < d + n ? b[s + (i - d)] : (uint8_t)i), "memcpy copies");
            break;
        }
        case 2: {
            int v = (int)sym_u32();
            CHECK(mpack_memset(a + d, v, n) == a + d, "memset returns its destination");
            for (unsigned i = 0; i < 24; ++i) CHECK(a[i] == (i >= d && i < d + n ? (uint8_t)v : b[i]), "memset fills");
            break;
        }
        case 3: {
            int r = mpack_memcmp(a + s, b + d, n), w = 0;
            for (unsigned i = 0; i < L; ++i)
                if (w == 0 && i < n && a[s + i] != b[d + i]) w = a[s + i] < b[d + i] ? -1 : 1;
            CHECK((r < 0) == (w < 0) && (r > 0) == (w > 0), "memcmp compares unsigned bytes");
            break;
        }
        case 4: {
            a[23] = 0;
            ASSUME(s + L < 24);
            bool nul = false;
            for (unsigned i = 0; i < L; ++i) if (a[s + i] == 0) nul = true;
            ASSUME(nul);
            size_t r = mpack_strlen((const char*)a + s);
            CHECK(r < L && a[s + r] == 0, "strlen ends at a NUL");
            for (unsigned i = 0; i < L; ++i) if (i < r) CHECK(a[s + i] != 0, "strlen ends at the first NUL");
            break;
        }
        case 5: {
            /* realloc substitute: contents kept, old block freed */
            unsigned n2 = sym_u8();
            ASSUME(n >= 1 && n2 >= n && n2 <= L);
            char* p = (char*)vf_malloc(n);
            for (unsigned i = 0; i < L; ++i) if (i < n) p[i] = (char)b[i];
            vf_malloc_mode = 1;
            char* q = (char*)mpack_realloc(p, n, n2);
            CHECK(vf_live == 1, "exactly one block is live after realloc");
            char* r = q ? q : p;
            for (unsigned i = 0; i < L; ++i) if (i < n) CHECK(r[i] == (char)b[i], "realloc keeps the contents");
            vf_free(r);
            break;
        }
        default: ASSUME(0);
    }
#endif
    END(c28);
    return 0;
}
