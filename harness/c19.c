/* C19: copying a string, binary or extension into a caller's buffer. */
#include "ref.h"
#include "vf_lib.h"
#include "shape.h"

/* SRC 0: memory, 1: memory with the last byte missing, 2: stream, 3: stream ending one byte early */
#if PART != 2
static const uint8_t* src;
static size_t src_n, src_pos, chunk;
static size_t fill(mpack_reader_t* r, char* b, size_t c) {
    (void)r;
    size_t k = src_n - src_pos;
    if (k > chunk) k = chunk;
    if (k > c) k = c;
    for (size_t i = 0; i < k; ++i) b[i] = (char)src[src_pos + i];
    src_pos += k;
    return k;
}

#endif
enum { CSTR = 1, UTF8 = 2 };
/* what each operation is about */
static bool nul_free(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) if (p[i] == 0) return false; return true; }

static void at(uint8_t* p, size_t n, unsigned op, size_t sz, const ref_tag_t* t) {
    const uint8_t* pay = p + t->size;
    size_t len = t->len, got = 0;
    char* buf = (char*)vf_malloc(sz);
    if (sz) buf[0] = 'x';
    mpack_error_t e;
    unsigned kind = 0;
    bool isstr = t->type == REF_STR, isdata = isstr || t->type == REF_BIN || t->type == REF_EXT;
    bool type_ok, returns = true;
    bool cut = (SRC & 1) != 0;
    size_t have = cut && n ? n - 1 : n;
    int8_t et = 55;
#if PART == 2
    mpack_tree_t tree;
    uint8_t* m = (uint8_t*)vf_malloc(n);
    for (size_t i = 0; i < n; ++i) m[i] = p[i];
    mpack_tree_init_data(&tree, (const char*)m, n);
    mpack_tree_parse(&tree);
    if (mpack_tree_error(&tree) != mpack_ok) { mpack_tree_destroy(&tree); STOPV(); }
    mpack_node_t node = mpack_tree_root(&tree);
    switch (op) {
        case 0: got = mpack_node_copy_data(node, buf, sz); type_ok = isdata; break;
        case 1: got = mpack_node_copy_utf8(node, buf, sz); kind = UTF8; type_ok = isstr; break;
        case 2: if (sz == 0) STOPV(); mpack_node_copy_cstr(node, buf, sz); kind = CSTR; type_ok = isstr; returns = false; break;
        default: if (sz == 0) STOPV(); mpack_node_copy_utf8_cstr(node, buf, sz); kind = CSTR | UTF8; type_ok = isstr; returns = false; break;
    }
    e = mpack_tree_error(&tree);
    CHECK(mpack_node_error(node) == e, "the error is the tree's");
    cut = false;
#else
    mpack_reader_t r;
    uint8_t* m = NULL; /* exactly as large as the data */
    static char rbuf[32];
    if (SRC >= 2) {
        src = p; src_n = have; src_pos = 0;
        mpack_reader_init(&r, rbuf, sizeof(rbuf), 0);
        mpack_reader_set_fill(&r, fill);
    } else {
        m = (uint8_t*)vf_malloc(have);
        for (size_t i = 0; i < have; ++i) m[i] = p[i];
        mpack_reader_init_data(&r, (const char*)m, have);
    }
    if (have < t->size) STOPV();
#if PART == 0
    if (!isdata || len > 300) STOPV();
    mpack_read_tag(&r);
    type_ok = true;
    returns = false;
    switch (op) {
        case 0: if (sz < len) STOPV(); mpack_read_bytes(&r, buf, len); break;
        case 1: if (sz < len) STOPV(); kind = UTF8; mpack_read_utf8(&r, buf, len); break;
        case 2: if (sz == 0) STOPV(); kind = CSTR; mpack_read_cstr(&r, buf, sz, len); break;
        default: if (sz == 0) STOPV(); kind = CSTR | UTF8; mpack_read_utf8_cstr(&r, buf, sz, len); break;
    }
#else
    switch (op) {
        case 0: got = mpack_expect_str_buf(&r, buf, sz); type_ok = isstr; break;
        case 1: got = mpack_expect_utf8(&r, buf, sz); kind = UTF8; type_ok = isstr; break;
        case 2: if (sz == 0) STOPV(); mpack_expect_cstr(&r, buf, sz); kind = CSTR; type_ok = isstr; returns = false; break;
        case 3: if (sz == 0) STOPV(); mpack_expect_utf8_cstr(&r, buf, sz); kind = CSTR | UTF8; type_ok = isstr; returns = false; break;
        case 4: got = mpack_expect_bin_buf(&r, buf, sz); type_ok = t->type == REF_BIN; break;
        case 5: mpack_expect_bin_size_buf(&r, buf, (uint32_t)sz); type_ok = t->type == REF_BIN && len == sz; returns = false; break;
        default: got = mpack_expect_ext_buf(&r, &et, buf, sz); type_ok = t->type == REF_EXT; break;
    }
#endif
    e = mpack_reader_error(&r);
#endif
    bool cstr = (kind & CSTR) != 0;
    bool fits = cstr ? len <= sz - 1 : len <= sz;
    bool content = kind == UTF8 ? ref_utf8(pay, len <= n ? len : 0, true) : kind == (CSTR | UTF8) ? ref_utf8(pay, len <= n ? len : 0, false) : cstr ? nul_free(pay, len <= n ? len : 0) : true;
    bool complete = t->size + len <= have;
    if (t->status == REF_RESERVED) type_ok = false;
    if (type_ok && fits && complete && content) {
        CHECK(e == mpack_ok, "no error when the data fits and is valid");
        if (returns) CHECK(got == len, "returns the length");
        for (size_t i = 0; i < len; ++i) CHECK((uint8_t)buf[i] == pay[i], "delivers exactly the element's bytes");
        if (cstr) CHECK(buf[len] == '\0', "terminated");
        if (PART == 1 && op == 6) CHECK(et == t->exttype, "extension type");
    } else {
        CHECK(e != mpack_ok, "an error is flagged");
        if (returns) CHECK(got == 0, "nothing is returned with an error");
        if (cstr) CHECK(buf[0] == '\0', "an empty terminated string is left with an error");
        if (type_ok) CHECK((e == mpack_error_too_big) == !fits, "too big exactly when the data does not fit");
        else CHECK(e != mpack_error_too_big || !isdata, "too big only when the data does not fit");
        if (PART == 1 && op == 6) CHECK(et == 0, "no extension type with an error");
    }
#if PART == 2
    mpack_tree_destroy(&tree);
#else
    mpack_reader_destroy(&r);
#endif
    vf_free(m);
    vf_free(buf);
    CHECK(vf_live == 0, "nothing is leaked");
}

static void run(uint8_t* p, size_t n) {
    ref_tag_t t = ref_decode(p, n);
    unsigned k = sym_u8();
    size_t len = t.len <= 6 ? t.len : 1;
#if PART != 2
    chunk = CHUNK;
#endif
    for (unsigned op = OPLO; op <= OPHI; ++op)
        for (size_t sz = 0; sz <= len + 2; ++sz) {
            if (k != op * 16 + sz) continue;
            /* the sizes around the boundaries */
            if (sz > 1 && sz != len && sz != len + 1) STOPV();
            /* the checks of the contents are about strings that fit */
            at(p, n, op, sz, &t);
            END(c19);
            STOPV();
        }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
