/* C04: documents written with the writer are read back by the reader and by
 * the tree parser as the same structure and values. */
#define TREE_COPY 1
#include "wdoc.h"
#include "tree.h"
#include "shape.h"

#define CAP 400
static uint8_t sink[CAP];
static size_t sink_n;
static void flush(mpack_writer_t* w, const char* p, size_t count) {
    CHECK(mpack_writer_error(w) == mpack_ok && count <= CAP - sink_n, "flush");
    for (size_t i = 0; i < count; ++i) sink[sink_n + i] = (uint8_t)p[i];
    sink_n += count;
}
static const uint8_t* src;
static size_t src_n, src_pos;
static size_t fill(mpack_reader_t* r, char* b, size_t c) {
    (void)r;
    size_t k = src_n - src_pos;
    if (k > 7) k = 7;
    if (k > c) k = c;
    for (size_t i = 0; i < k; ++i) b[i] = (char)src[src_pos + i];
    src_pos += k;
    return k;
}
static size_t tree_fill(mpack_tree_t* t, char* b, size_t c) {
    (void)t;
    size_t k = src_n - src_pos;
    if (k > 40) k = 40;
    if (k > c) k = c;
    for (size_t i = 0; i < k; ++i) b[i] = (char)src[src_pos + i];
    src_pos += k;
    return k;
}

/* reads the whole of b[0..n) with the incremental reader against the document */
static void read_back(const uint8_t* b, size_t n, const uint8_t* doc, size_t len) {
    mpack_reader_t r;
    char rb[32];
#if STREAM
    src = b; src_n = n; src_pos = 0;
    mpack_reader_init(&r, rb, sizeof(rb), 0);
    mpack_reader_set_fill(&r, fill);
#else
    (void)rb;
    mpack_reader_init_data(&r, (const char*)b, n);
#endif
    size_t pos = 0, left[8];
    bool map[8];
    int d = -1;
    for (size_t k = 0; k < len; ++k) {
        if (pos >= len) break;
        ref_tag_t t = ref_decode(doc + pos, len - pos);
        pos += t.size;
        if (d >= 0) --left[d];
        mpack_tag_t tag = mpack_read_tag(&r);
        CHECK(mpack_reader_error(&r) == mpack_ok, "reads back without error");
        CHECK(ref_tag_is(tag, &t), "the same element");
        if (t.type == REF_STR || t.type == REF_BIN || t.type == REF_EXT) {
            char q[80];
            mpack_read_bytes(&r, q, t.len);
            CHECK(mpack_reader_error(&r) == mpack_ok, "reads back without error");
            for (size_t i = 0; i < t.len; ++i) CHECK((uint8_t)q[i] == doc[pos + i], "the same bytes");
            pos += t.len;
            if (t.type == REF_STR) mpack_done_str(&r); else if (t.type == REF_BIN) mpack_done_bin(&r);
#if MPACK_EXTENSIONS
            else mpack_done_ext(&r);
#endif
        } else if (t.type == REF_ARRAY || t.type == REF_MAP) {
            ++d;
            map[d] = t.type == REF_MAP;
            left[d] = map[d] ? (size_t)t.len * 2 : t.len;
        }
        for (; d >= 0 && left[d] == 0; --d) { if (map[d]) mpack_done_map(&r); else mpack_done_array(&r); }
    }
    CHECK(mpack_reader_remaining(&r, NULL) == 0 && (!STREAM || src_pos == src_n), "consumes exactly the bytes written");
    CHECK(mpack_reader_destroy(&r) == mpack_ok, "no error");
}
static void parse_back(const uint8_t* b, size_t n, const uint8_t* doc, size_t len) {
    mpack_tree_t tree;
#if STREAM
    src = b; src_n = n; src_pos = 0;
    mpack_tree_init_stream(&tree, tree_fill, NULL, 1000, 100);
#else
    mpack_tree_init_data(&tree, (const char*)b, n);
#endif
    mpack_tree_parse(&tree);
    CHECK(mpack_tree_error(&tree) == mpack_ok, "parses back without error");
    CHECK(mpack_tree_size(&tree) == n, "the tree is as long as the bytes written");
    size_t used = tree_walk(mpack_tree_root(&tree), doc, len, 64);
    CHECK(used == len, "the same structure");
    CHECK(mpack_tree_error(&tree) == mpack_ok, "no error reading the tree");
    CHECK(mpack_tree_destroy(&tree) == mpack_ok, "no error");
}
static void run(uint8_t* p, size_t n) {
    uint8_t* b;
    size_t m;
    mpack_writer_t w;
#if SINK == 0
    char* buf = (char*)vf_malloc(CAP);
    mpack_writer_init(&w, buf, CAP);
#elif SINK == 1
    char* buf = (char*)vf_malloc(32);
    mpack_writer_init(&w, buf, 32);
    mpack_writer_set_flush(&w, flush);
#else
    char* data = NULL;
    size_t size = 0;
    mpack_writer_init_growable(&w, &data, &size);
#endif
    emit(&w, p, n, STYLE, BUILDS);
    CHECK(mpack_writer_error(&w) == mpack_ok, "written without error");
#if SINK == 0
    m = mpack_writer_buffer_used(&w);
#endif
    CHECK(mpack_writer_destroy(&w) == mpack_ok, "written without error");
#if SINK == 0
    b = (uint8_t*)buf;
#elif SINK == 1
    b = sink; m = sink_n;
#else
    b = (uint8_t*)data; m = size;
#endif
    uint8_t k = sym_u8();
    if (k == 0) { read_back(b, m, p, n); }
    else if (k == 1) { parse_back(b, m, p, n); }
    else ASSUME(0);
#if SINK == 2
    vf_free(data);
#else
    vf_free(buf);
#endif
    CHECK(vf_live == 0, "nothing left allocated");
    END(c04);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
