/* Reference model of MessagePack, written from the specification
 * (docs/protocol.md and msgpack/spec.md), independent of MPack's code. */
#ifndef REF_H
#define REF_H 1
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include "mpack.h"
#include "vf.h"

typedef enum { REF_NIL, REF_BOOL, REF_UINT, REF_INT, REF_FLOAT, REF_DOUBLE,
               REF_STR, REF_BIN, REF_EXT, REF_ARRAY, REF_MAP } ref_type_t;
typedef enum { REF_OK, REF_TRUNCATED, REF_RESERVED } ref_status_t;

typedef struct {
    ref_status_t status;
    ref_type_t type;
    size_t size;     /* header bytes */
    bool b;
    uint64_t u;      /* unsigned value, or float/double bits */
    int64_t i;
    uint32_t len;    /* bytes (str/bin/ext), elements (array), pairs (map) */
    int8_t exttype;
} ref_tag_t;

static inline uint64_t ref_be(const uint8_t* p, size_t n) {
    uint64_t v = 0;
    if (n == 1) return p[0];
    if (n == 2) return ((uint64_t)p[0] << 8) | p[1];
    for (size_t k = 0; k < 4; ++k) v = (v << 8) | p[k];
    if (n == 4) return v;
    for (size_t k = 4; k < 8; ++k) v = (v << 8) | p[k];
    return v;
}

/* Decodes the header at p with n bytes available. */
static inline ref_tag_t ref_decode(const uint8_t* p, size_t n) {
    ref_tag_t t;
    t.status = REF_OK; t.type = REF_NIL; t.size = 1; t.b = false; t.u = 0; t.i = 0; t.len = 0; t.exttype = 0;
    if (n == 0) { t.status = REF_TRUNCATED; t.size = 0; return t; }
    uint8_t c = p[0];
    size_t arg = 0;      /* size of the big-endian argument */
    bool ext = false;

    if (c <= 0x7f)      { t.type = REF_UINT; t.u = c; return t; }
    if (c >= 0xe0)      { t.type = REF_INT; t.i = (int64_t)c - 256; return t; }
    if (c <= 0x8f)      { t.type = REF_MAP; t.len = c & 15u; return t; }
    if (c <= 0x9f)      { t.type = REF_ARRAY; t.len = c & 15u; return t; }
    if (c <= 0xbf)      { t.type = REF_STR; t.len = c & 31u; return t; }
    switch (c) {
        case 0xc0: return t;
        case 0xc1: t.status = REF_RESERVED; t.size = 0; return t;
        case 0xc2: t.type = REF_BOOL; t.b = false; return t;
        case 0xc3: t.type = REF_BOOL; t.b = true; return t;
        case 0xc4: t.type = REF_BIN; arg = 1; break;
        case 0xc5: t.type = REF_BIN; arg = 2; break;
        case 0xc6: t.type = REF_BIN; arg = 4; break;
        case 0xc7: t.type = REF_EXT; arg = 1; ext = true; break;
        case 0xc8: t.type = REF_EXT; arg = 2; ext = true; break;
        case 0xc9: t.type = REF_EXT; arg = 4; ext = true; break;
        case 0xca: t.type = REF_FLOAT; arg = 4; break;
        case 0xcb: t.type = REF_DOUBLE; arg = 8; break;
        case 0xcc: t.type = REF_UINT; arg = 1; break;
        case 0xcd: t.type = REF_UINT; arg = 2; break;
        case 0xce: t.type = REF_UINT; arg = 4; break;
        case 0xcf: t.type = REF_UINT; arg = 8; break;
        case 0xd0: t.type = REF_INT; arg = 1; break;
        case 0xd1: t.type = REF_INT; arg = 2; break;
        case 0xd2: t.type = REF_INT; arg = 4; break;
        case 0xd3: t.type = REF_INT; arg = 8; break;
        case 0xd4: t.type = REF_EXT; t.len = 1; ext = true; break;
        case 0xd5: t.type = REF_EXT; t.len = 2; ext = true; break;
        case 0xd6: t.type = REF_EXT; t.len = 4; ext = true; break;
        case 0xd7: t.type = REF_EXT; t.len = 8; ext = true; break;
        case 0xd8: t.type = REF_EXT; t.len = 16; ext = true; break;
        case 0xd9: t.type = REF_STR; arg = 1; break;
        case 0xda: t.type = REF_STR; arg = 2; break;
        case 0xdb: t.type = REF_STR; arg = 4; break;
        case 0xdc: t.type = REF_ARRAY; arg = 2; break;
        case 0xdd: t.type = REF_ARRAY; arg = 4; break;
        case 0xde: t.type = REF_MAP; arg = 2; break;
        default:   t.type = REF_MAP; arg = 4; break; /* 0xdf */
    }
    t.size = 1 + arg + (ext ? 1 : 0);
    if (n < t.size) { t.status = REF_TRUNCATED; return t; }
    if (ext) t.exttype = (int8_t)p[1 + arg];
    if (arg != 0) {
        uint64_t v = ref_be(p + 1, arg);
        switch (t.type) {
            case REF_UINT: case REF_FLOAT: case REF_DOUBLE: t.u = v; break;
            case REF_INT:
                t.i = arg == 1 ? (int64_t)(int8_t)v : arg == 2 ? (int64_t)(int16_t)v : arg == 4 ? (int64_t)(int32_t)v : (int64_t)v;
                break;
            default: t.len = (uint32_t)v; break;
        }
    }
    return t;
}

static inline uint32_t ref_float_bits(float f) { union { float f; uint32_t u; } v; v.f = f; return v.u; }
static inline uint64_t ref_double_bits(double d) { union { double d; uint64_t u; } v; v.d = d; return v.u; }

/* Does an MPack tag denote exactly what the reference decoded? */
static inline bool ref_tag_is(mpack_tag_t tag, const ref_tag_t* r) {
    switch (r->type) {
        case REF_NIL:    return mpack_tag_type(&tag) == mpack_type_nil;
        case REF_BOOL:   return mpack_tag_type(&tag) == mpack_type_bool && mpack_tag_bool_value(&tag) == r->b;
        case REF_UINT:   return mpack_tag_type(&tag) == mpack_type_uint && mpack_tag_uint_value(&tag) == r->u;
        case REF_INT:    return mpack_tag_type(&tag) == mpack_type_int && mpack_tag_int_value(&tag) == r->i;
        case REF_FLOAT:  return mpack_tag_type(&tag) == mpack_type_float &&
#if MPACK_FLOAT
            ref_float_bits(mpack_tag_float_value(&tag)) == (uint32_t)r->u;
#else
            mpack_tag_raw_float_value(&tag) == (uint32_t)r->u;
#endif
        case REF_DOUBLE: return mpack_tag_type(&tag) == mpack_type_double &&
#if MPACK_DOUBLE
            ref_double_bits(mpack_tag_double_value(&tag)) == r->u;
#else
            mpack_tag_raw_double_value(&tag) == r->u;
#endif
        case REF_STR:    return mpack_tag_type(&tag) == mpack_type_str && mpack_tag_str_length(&tag) == r->len && mpack_tag_bytes(&tag) == r->len;
        case REF_BIN:    return mpack_tag_type(&tag) == mpack_type_bin && mpack_tag_bin_length(&tag) == r->len && mpack_tag_bytes(&tag) == r->len;
        case REF_ARRAY:  return mpack_tag_type(&tag) == mpack_type_array && mpack_tag_array_count(&tag) == r->len;
        case REF_MAP:    return mpack_tag_type(&tag) == mpack_type_map && mpack_tag_map_count(&tag) == r->len;
#if MPACK_EXTENSIONS
        case REF_EXT:    return mpack_tag_type(&tag) == mpack_type_ext && mpack_tag_ext_length(&tag) == r->len &&
                                mpack_tag_ext_exttype(&tag) == r->exttype && mpack_tag_bytes(&tag) == r->len;
#endif
        default: return false;
    }
}

/* RFC 3629 well-formedness, from the ABNF in section 4. */
static inline bool ref_utf8(const uint8_t* s, size_t n, bool allow_nul) {
    size_t i = 0;
    for (size_t k = 0; k < n; ++k) {
        if (i >= n) break;
        uint8_t c = s[i];
        if (c <= 0x7f) {
            if (c == 0 && !allow_nul) return false;
            i += 1;
        } else if (c >= 0xc2 && c <= 0xdf) {
            if (n - i < 2 || (s[i+1] & 0xc0) != 0x80) return false;
            i += 2;
        } else if (c >= 0xe0 && c <= 0xef) {
            if (n - i < 3) return false;
            uint8_t lo = c == 0xe0 ? 0xa0 : 0x80, hi = c == 0xed ? 0x9f : 0xbf;
            if (s[i+1] < lo || s[i+1] > hi || (s[i+2] & 0xc0) != 0x80) return false;
            i += 3;
        } else if (c >= 0xf0 && c <= 0xf4) {
            if (n - i < 4) return false;
            uint8_t lo = c == 0xf0 ? 0x90 : 0x80, hi = c == 0xf4 ? 0x8f : 0xbf;
            if (s[i+1] < lo || s[i+1] > hi || (s[i+2] & 0xc0) != 0x80 || (s[i+3] & 0xc0) != 0x80) return false;
            i += 4;
        } else {
            return false;
        }
    }
    return true;
}
#endif
