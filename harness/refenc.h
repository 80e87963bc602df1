/* Reference encoder: the shortest MessagePack encoding of a value, from the
 * specification. Each function writes at out and returns the size. */
#ifndef REFENC_H
#define REFENC_H 1
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

static inline size_t ref_put(uint8_t* out, uint8_t lead, uint64_t v, size_t n) {
    out[0] = lead;
    for (size_t k = 0; k < 8; ++k)
        if (k < n) out[1 + k] = (uint8_t)(v >> (8 * (n - 1 - k)));
    return 1 + n;
}
static inline size_t ref_enc_uint(uint8_t* o, uint64_t v) {
    if (v <= 0x7f) { o[0] = (uint8_t)v; return 1; }
    if (v <= 0xff) return ref_put(o, 0xcc, v, 1);
    if (v <= 0xffff) return ref_put(o, 0xcd, v, 2);
    if (v <= 0xffffffffu) return ref_put(o, 0xce, v, 4);
    return ref_put(o, 0xcf, v, 8);
}
static inline size_t ref_enc_int(uint8_t* o, int64_t v) {
    if (v >= 0) return ref_enc_uint(o, (uint64_t)v);
    if (v >= -32) { o[0] = (uint8_t)(256 + v); return 1; }
    if (v >= -128) return ref_put(o, 0xd0, (uint64_t)v, 1);
    if (v >= -32768) return ref_put(o, 0xd1, (uint64_t)v, 2);
    if (v >= -2147483647 - 1) return ref_put(o, 0xd2, (uint64_t)v, 4);
    return ref_put(o, 0xd3, (uint64_t)v, 8);
}
static inline size_t ref_enc_array(uint8_t* o, uint32_t n) {
    if (n <= 15) { o[0] = (uint8_t)(0x90 + n); return 1; }
    if (n <= 0xffff) return ref_put(o, 0xdc, n, 2);
    return ref_put(o, 0xdd, n, 4);
}
static inline size_t ref_enc_map(uint8_t* o, uint32_t n) {
    if (n <= 15) { o[0] = (uint8_t)(0x80 + n); return 1; }
    if (n <= 0xffff) return ref_put(o, 0xde, n, 2);
    return ref_put(o, 0xdf, n, 4);
}
static inline size_t ref_enc_str(uint8_t* o, uint32_t n, bool v4) {
    if (n <= 31) { o[0] = (uint8_t)(0xa0 + n); return 1; }
    if (n <= 0xff && !v4) return ref_put(o, 0xd9, n, 1);
    if (n <= 0xffff) return ref_put(o, 0xda, n, 2);
    return ref_put(o, 0xdb, n, 4);
}
static inline size_t ref_enc_bin(uint8_t* o, uint32_t n, bool v4) {
    if (v4) return ref_enc_str(o, n, true);
    if (n <= 0xff) return ref_put(o, 0xc4, n, 1);
    if (n <= 0xffff) return ref_put(o, 0xc5, n, 2);
    return ref_put(o, 0xc6, n, 4);
}
static inline size_t ref_enc_ext(uint8_t* o, int8_t type, uint32_t n) {
    size_t s;
    if (n == 1 || n == 2 || n == 4 || n == 8 || n == 16) {
        o[0] = (uint8_t)(n == 1 ? 0xd4 : n == 2 ? 0xd5 : n == 4 ? 0xd6 : n == 8 ? 0xd7 : 0xd8);
        s = 1;
    } else if (n <= 0xff) s = ref_put(o, 0xc7, n, 1);
    else if (n <= 0xffff) s = ref_put(o, 0xc8, n, 2);
    else s = ref_put(o, 0xc9, n, 4);
    o[s] = (uint8_t)type;
    return s + 1;
}
static inline size_t ref_enc_timestamp(uint8_t* o, int64_t sec, uint32_t nsec) {
    if (sec >= 0 && (uint64_t)sec <= 0xffffffffu && nsec == 0) {
        o[0] = 0xd6; o[1] = 0xff; /* fixext 4, type -1 */
        for (size_t k = 0; k < 4; ++k) o[2 + k] = (uint8_t)((uint64_t)sec >> (8 * (3 - k)));
        return 6;
    }
    if (sec >= 0 && (uint64_t)sec < ((uint64_t)1 << 34)) {
        uint64_t v = ((uint64_t)nsec << 34) | (uint64_t)sec;
        o[0] = 0xd7; o[1] = 0xff;
        for (size_t k = 0; k < 8; ++k) o[2 + k] = (uint8_t)(v >> (8 * (7 - k)));
        return 10;
    }
    o[0] = 0xc7; o[1] = 12; o[2] = 0xff;
    for (size_t k = 0; k < 4; ++k) o[3 + k] = (uint8_t)(nsec >> (8 * (3 - k)));
    for (size_t k = 0; k < 8; ++k) o[7 + k] = (uint8_t)((uint64_t)sec >> (8 * (7 - k)));
    return 15;
}
#endif
