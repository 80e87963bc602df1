/* C30: functions that allocate what they return. */
#include "ref.h"
#include "vf_lib.h"
#include "shape.h"

#if !NODE
static const uint8_t* src;
static size_t src_n, src_pos;
static size_t fill(mpack_reader_t* r, char* b, size_t c) {
    (void)r;
    size_t k = src_n - src_pos;
    if (k > 2) k = 2;
    if (k > c) k = c;
    for (size_t i = 0; i < k; ++i) b[i] = (char)src[src_pos + i];
    src_pos += k;
    return k;
}
static unsigned handler;
static void on_error(mpack_reader_t* r, mpack_error_t e) { (void)e; ++handler; CHECK(mpack_reader_error(r) == e, "handler is given the error"); }
typedef struct { char c[1]; } e1_t;
typedef struct { char c[3]; } e3_t;
typedef struct { char c[8]; } e8_t;
typedef struct { char c[80]; } e80_t;
#endif
static bool nul_free(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) if (p[i] == 0) return false; return true; }

static void at(uint8_t* p, size_t n, size_t max, bool nomem) {
    ref_tag_t t = ref_decode(p, n);
    if (t.status == REF_TRUNCATED) STOPV();
    bool ok = t.status == REF_OK;
    const uint8_t* pay = p + t.size;
    size_t len = t.len;
    bool str = ok && t.type == REF_STR, data = str || (ok && (t.type == REF_BIN || t.type == REF_EXT));
    bool want = false, term = false, null_ok = false;
    uint64_t limit = max;
    char* got = NULL;
    size_t size = 77;
    mpack_error_t e;
    bool complete = (uint64_t)t.size + len <= n;
    size_t safe = complete ? len : 0;
    uint8_t* m = (uint8_t*)vf_malloc(n);
    for (size_t i = 0; i < n; ++i) m[i] = p[i];
#if NODE
    mpack_node_data_t pool[4];
    mpack_tree_t tree;
    mpack_tree_init_pool(&tree, (const char*)m, n, pool, 4);
    mpack_tree_parse(&tree);
    if (mpack_tree_error(&tree) != mpack_ok) { mpack_tree_destroy(&tree); STOPV(); }
    mpack_node_t node = mpack_tree_root(&tree);
#else
    mpack_reader_t r;
    static char rbuf[32];
#if STREAM
    src = m; src_n = n; src_pos = 0;
    mpack_reader_init(&r, rbuf, sizeof(rbuf), 0);
    mpack_reader_set_fill(&r, fill);
#else
    mpack_reader_init_data(&r, (const char*)m, n);
#endif
    mpack_reader_set_error_handler(&r, on_error);
#endif
    vf_malloc_max = 0;
#ifdef CAP
    vf_malloc_cap = CAP;
#endif
    if (nomem) vf_fail_from = vf_malloc_calls + 1;
    unsigned fail0 = vf_malloc_failures;
#if OP <= 1
    if (max == 0) STOPV();
#endif
#if OP == 0
#if NODE
    got = mpack_node_cstr_alloc(node, max);
#else
    got = mpack_expect_cstr_alloc(&r, max);
#endif
    want = str && complete && len <= max - 1 && nul_free(pay, safe); term = true;
#elif OP == 1
#if NODE
    got = mpack_node_utf8_cstr_alloc(node, max);
#else
    got = mpack_expect_utf8_cstr_alloc(&r, max);
#endif
    want = str && complete && len <= max - 1 && ref_utf8(pay, safe, false); term = true;
#elif OP == 2
#if NODE
    got = mpack_node_data_alloc(node, max); size = len;
    want = data && len <= max;
#else
    got = mpack_expect_bin_alloc(&r, max, &size);
    want = ok && t.type == REF_BIN && complete && len <= max; null_ok = want && len == 0;
    CHECK(size == (got != NULL ? len : 0), "size of what is returned");
#endif
#elif OP == 3
    int8_t et = 55;
    got = mpack_expect_ext_alloc(&r, &et, max, &size);
    want = ok && t.type == REF_EXT && complete && len <= max; null_ok = want && len == 0;
    CHECK(size == (got != NULL ? len : 0), "size of what is returned");
    if (mpack_reader_error(&r) == mpack_ok) CHECK(et == t.exttype, "extension type");
    else CHECK(et == 0, "no extension type with an error");
#elif OP == 4
    mpack_tag_t tag = mpack_read_tag(&r);
    if (!data) STOPV();
    CHECK(mpack_tag_bytes(&tag) == len, "length");
    got = mpack_read_bytes_alloc(&r, len);
    want = complete; null_ok = want && len == 0; limit = len;
#endif
#if OP <= 4
#if NODE
    e = mpack_tree_error(&tree);
#else
    e = mpack_reader_error(&r);
    CHECK(handler == (e != mpack_ok), "handler called once for an error");
#endif
    if (vf_malloc_failures != fail0) want = false;
    CHECK(vf_malloc_max <= limit, "never asks for more than the maximum");
    CHECK((e == mpack_ok) == want, "error exactly when the content is not delivered");
    if (want) {
        CHECK(got != NULL || null_ok, "content is returned");
        if (got) for (size_t i = 0; i < safe; ++i) CHECK((uint8_t)got[i] == pay[i], "exact copy");
        if (term) CHECK(got[len] == '\0', "terminated");
    } else CHECK(got == NULL, "nothing is returned with an error");
    if (vf_malloc_failures != fail0) CHECK(e == mpack_error_memory, "a failed allocation is a memory error");
#else
    /* arrays: room for the declared number of elements of 1, 3, 8 and 80 bytes */
    uint32_t count = 77;
    uint64_t es = ESIZE;
    bool arr = ok && t.type == REF_ARRAY && t.len <= max, nil = OP == 6 && ok && t.type == REF_NIL;
    uint32_t mc = max > 0xffffffffu ? 0xffffffffu : (uint32_t)max;
#define ET_(x) e##x##_t
#define ET(x) ET_(x)
#if OP == 5
    got = (char*)mpack_expect_array_alloc(&r, ET(ESIZE), mc, &count);
#else
    got = (char*)mpack_expect_array_or_nil_alloc(&r, ET(ESIZE), mc, &count);
#endif
    e = mpack_reader_error(&r);
    CHECK(handler == (e != mpack_ok), "handler called once for an error");
    CHECK(vf_malloc_max <= (uint64_t)mc * es, "never asks for more than the maximum");
    want = (arr || nil) && vf_malloc_failures == fail0;
    if (want && (uint64_t)t.len * es > SIZE_MAX) want = false;
    CHECK((e == mpack_ok) == want, "error exactly when the array is not accepted");
    if (e == mpack_ok) {
        uint32_t c = nil ? 0 : t.len;
        CHECK(count == c && (got != NULL) == (c != 0), "declared element count");
        if (c) CHECK(vf_malloc_max >= (uint64_t)c * es, "room for all elements");
        if (c) { got[0] = 1; got[(size_t)(c * es) - 1] = 1; }
    } else CHECK(got == NULL && count == 0, "nothing is returned with an error");
#endif
    vf_free(got);
#if NODE
    mpack_tree_destroy(&tree);
#else
    mpack_reader_destroy(&r);
#endif
    vf_free(m);
    CHECK(vf_live == 0, "nothing is leaked");
}
static void run(uint8_t* p, size_t n) {
    unsigned k = sym_u8();
    ref_tag_t t = ref_decode(p, n);
    size_t l = t.len;
    size_t maxes[7] = {l == SIZE_MAX ? l : l + 1, l, l ? l - 1 : 0, l < 0xfffffff0u ? l + 3 : l, SIZE_MAX, 0xffffffffu, 1};
    for (unsigned c = 0; c < 8; ++c) {
        if (k != c) continue;
        at(p, n, c == 7 ? maxes[4] : maxes[c], c == 7);
        END(c30);
        STOPV();
    }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
