/* Drives the writer from a document: the document is a canonical (shortest
 * form) message; emit() walks it with the reference decoder and calls the
 * write functions, so the document's own bytes are the expected output. */
#ifndef WDOC_H
#define WDOC_H 1
#include "ref.h"
#include "vf_lib.h"

#define W_DEPTH 5
/* style: 0 plain functions, 1 start/bytes/finish in two pieces and tags, 2 narrow integer types and text functions
 * builds: bit c set when the c-th container is built with automatic counting */
#ifndef W_STOP_ON_ERROR
#define W_STOP_ON_ERROR 0
#endif

static inline float w_float(uint32_t u) { union { uint32_t u; float f; } v; v.u = u; return v.f; }
static inline double w_double(uint64_t u) { union { uint64_t u; double d; } v; v.u = u; return v.d; }

static inline void w_scalar(mpack_writer_t* w, const ref_tag_t* t, unsigned style) {
    switch (t->type) {
        case REF_NIL: if (style == 1) mpack_write_tag(w, mpack_tag_make_nil()); else mpack_write_nil(w); break;
        case REF_BOOL: if (style == 0) mpack_write_bool(w, t->b); else if (style == 1) mpack_write_tag(w, mpack_tag_make_bool(t->b)); else if (t->b) mpack_write_true(w); else mpack_write_false(w); break;
        case REF_UINT:
            if (style == 0) mpack_write_u64(w, t->u);
            else if (style == 1) mpack_write_tag(w, mpack_tag_make_uint(t->u));
            else if (t->u <= 0xff) mpack_write_u8(w, (uint8_t)t->u);
            else if (t->u <= 0xffff) mpack_write_u16(w, (uint16_t)t->u);
            else if (t->u <= 0xffffffffu) mpack_write_u32(w, (uint32_t)t->u);
            else mpack_write_uint(w, t->u);
            break;
        case REF_INT:
            if (style == 0) mpack_write_i64(w, t->i);
            else if (style == 1) mpack_write_tag(w, mpack_tag_make_int(t->i));
            else if (t->i >= -128) mpack_write_i8(w, (int8_t)t->i);
            else if (t->i >= -32768) mpack_write_i16(w, (int16_t)t->i);
            else if (t->i >= -2147483647 - 1) mpack_write_i32(w, (int32_t)t->i);
            else mpack_write_int(w, t->i);
            break;
#if MPACK_FLOAT
        case REF_FLOAT: if (style == 1) mpack_write_tag(w, mpack_tag_make_float(w_float((uint32_t)t->u))); else mpack_write_float(w, w_float((uint32_t)t->u)); break;
#else
        case REF_FLOAT: mpack_write_raw_float(w, (uint32_t)t->u); break;
#endif
#if MPACK_DOUBLE
        case REF_DOUBLE: if (style == 1) mpack_write_tag(w, mpack_tag_make_double(w_double(t->u))); else mpack_write_double(w, w_double(t->u)); break;
#else
        case REF_DOUBLE: mpack_write_raw_double(w, t->u); break;
#endif
        default: break;
    }
}
static inline void w_pieces(mpack_writer_t* w, const char* d, uint32_t n) {
    uint32_t k = n / 2;
    if (k) mpack_write_bytes(w, d, k);
    if (n - k || n == 0) mpack_write_bytes(w, d + k, n - k);
}
static inline void w_data(mpack_writer_t* w, const ref_tag_t* t, const char* d, unsigned style) {
    switch (t->type) {
        case REF_STR:
            if (style != 1) mpack_write_str(w, d, t->len);
            else { mpack_start_str(w, t->len); w_pieces(w, d, t->len); mpack_finish_str(w); }
            break;
        case REF_BIN:
            if (style != 1) mpack_write_bin(w, d, t->len);
            else { mpack_write_tag(w, mpack_tag_make_bin(t->len)); w_pieces(w, d, t->len); mpack_finish_bin(w); }
            break;
#if MPACK_EXTENSIONS
        case REF_EXT:
            if (style != 1) mpack_write_ext(w, t->exttype, d, t->len);
            else { mpack_start_ext(w, t->exttype, t->len); w_pieces(w, d, t->len); mpack_finish_ext(w); }
            break;
#endif
        default: break;
    }
}

#ifdef W_CUTS
static unsigned w_cut; /* abandon the document after this many elements */
#endif
/* Writes the documents in p[0..n). Returns when all is written. */
static inline void emit(mpack_writer_t* w, const uint8_t* p, size_t n, unsigned style, unsigned builds) {
    size_t left[W_DEPTH];
    bool map[W_DEPTH], built[W_DEPTH];
    int d = -1;
    unsigned c = 0;
    size_t pos = 0;
    while (pos < n) {
        if (W_STOP_ON_ERROR && mpack_writer_error(w) != mpack_ok) return;
#ifdef W_CUTS
        if (w_cut-- == 0) return;
#endif
        ref_tag_t t = ref_decode(p + pos, n - pos);
        pos += t.size;
        if (d >= 0) --left[d];
        if (t.type == REF_ARRAY || t.type == REF_MAP) {
            ++d;
            map[d] = t.type == REF_MAP;
            left[d] = map[d] ? (size_t)t.len * 2 : t.len;
            built[d] = ((builds >> c++) & 1) != 0;
#if MPACK_BUILDER
            if (built[d]) { if (map[d]) mpack_build_map(w); else mpack_build_array(w); }
            else
#endif
            if (style == 1) mpack_write_tag(w, map[d] ? mpack_tag_make_map(t.len) : mpack_tag_make_array(t.len));
            else if (map[d]) mpack_start_map(w, t.len);
            else mpack_start_array(w, t.len);
        } else if (t.type == REF_STR || t.type == REF_BIN || t.type == REF_EXT) {
            w_data(w, &t, (const char*)p + pos, style);
            pos += t.len;
        } else w_scalar(w, &t, style);
        while (d >= 0 && left[d] == 0) {
#if MPACK_BUILDER
            if (built[d]) { if (map[d]) mpack_complete_map(w); else mpack_complete_array(w); }
            else
#endif
            if (map[d]) mpack_finish_map(w); else mpack_finish_array(w);
            --d;
        }
    }
}
#endif
