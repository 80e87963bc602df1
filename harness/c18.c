/* C18: UTF-8 acceptance, all functions that check it. */
#include "ref.h"
#include "vf_lib.h"
#ifndef N
#define N 5
#endif

static void run(size_t n, uint8_t op) {
    uint8_t msg[N + 1];     /* fixstr + bytes, end-aligned strings */
    for (int i = 0; i <= N; ++i) msg[i] = sym_u8();
    uint8_t* m = msg + (N - n);
    m[0] = (uint8_t)(0xa0 + n);
    const uint8_t* s = m + 1;
    bool ok = ref_utf8(s, n, true), okz = ref_utf8(s, n, false);
    bool nonul = true;
    for (unsigned i = 0; i < N; ++i) if (i < n && s[i] == 0) nonul = false;
    char out[N + 1];
    size_t olen = n;
    bool z = false;   /* C-string form: NUL rejected, terminator written */
    bool want = ok, copied = true, terminated = false;
    mpack_error_t e;
#if PART == 0
    mpack_reader_t r;
    mpack_reader_init_data(&r, (const char*)m, n + 1);
    const char* q = out;
    switch (op) {
        case 0: { mpack_expect_str(&r); mpack_read_utf8(&r, out, n); break; }
        case 1: { mpack_expect_str(&r); q = mpack_read_utf8_inplace(&r, n); break; }
        case 2: { mpack_expect_str(&r); mpack_read_utf8_cstr(&r, out, sizeof(out), n); z = true; break; }
        case 3: olen = mpack_expect_utf8(&r, out, N); break;
        case 4: mpack_expect_utf8_cstr(&r, out, sizeof(out)); z = true; break;
        case 5: { char* p = mpack_expect_utf8_cstr_alloc(&r, N + 1); z = true; q = p;
            CHECK((p != NULL) == okz, "allocated exactly on success");
            if (p) { for (unsigned i = 0; i <= N; ++i) if (i <= n) out[i] = p[i]; q = out; vf_free(p); } break; }
        case 6: { mpack_expect_str(&r); mpack_read_cstr(&r, out, sizeof(out), n); z = true; want = nonul; break; }
        case 7: mpack_expect_cstr(&r, out, sizeof(out)); z = true; want = nonul; break;
        default: ASSUME(0);
    }
    if (z && (op == 2 || op == 4 || op == 5)) want = okz;
    e = mpack_reader_error(&r);
    mpack_reader_destroy(&r);
#else
    mpack_tree_t tree;
    mpack_node_data_t pool[2];
    mpack_tree_init_pool(&tree, (const char*)m, n + 1, pool, 2);
    mpack_tree_parse(&tree);
    mpack_node_t node = mpack_tree_root(&tree);
    const char* q = out;
    switch (op) {
        case 0: olen = mpack_node_copy_utf8(node, out, N); break;
        case 1: mpack_node_copy_utf8_cstr(node, out, sizeof(out)); z = true; want = okz; break;
        case 2: { char* p = mpack_node_utf8_cstr_alloc(node, N + 1); z = true; want = okz;
            CHECK((p != NULL) == okz, "allocated exactly on success");
            if (p) { for (unsigned i = 0; i <= N; ++i) if (i <= n) out[i] = p[i]; vf_free(p); } break; }
        case 3: mpack_node_check_utf8(node); copied = false; break;
        case 4: mpack_node_check_utf8_cstr(node); want = okz; copied = false; break;
        case 5: mpack_node_copy_cstr(node, out, sizeof(out)); z = true; want = nonul; break;
        case 6: { char* p = mpack_node_cstr_alloc(node, N + 1); z = true; want = nonul;
            CHECK((p != NULL) == nonul, "allocated exactly on success");
            if (p) { for (unsigned i = 0; i <= N; ++i) if (i <= n) out[i] = p[i]; vf_free(p); } break; }
        default: ASSUME(0);
    }
    e = mpack_tree_error(&tree);
    mpack_tree_destroy(&tree);
#endif
    CHECK((e == mpack_ok) == want, "accepted exactly when well-formed");
    CHECK(e == mpack_ok || e == mpack_error_type, "the error is a type error");
    if (e == mpack_ok) {
        CHECK(olen == n, "length returned");
        if (copied) for (unsigned i = 0; i < N; ++i) if (i < n) CHECK((uint8_t)q[i] == s[i], "bytes delivered unchanged");
        if (z) CHECK(out[n] == 0, "terminated");
    } else if (z && q == out) {
        CHECK(out[0] == 0 || op == 2 || op == 5 || op == 6, "empty string on error");
    }
    CHECK(vf_live == 0, "no allocation left");
    END(c18);
}

int main(void) {
    size_t n = sym_range(0, N);
    uint8_t op = sym_u8();
    for (unsigned i = 0; i <= N; ++i)
        for (unsigned o = 0; o < (PART == 0 ? 8 : 7); ++o)
            if (n == i && op == o) { run(i, (uint8_t)o); return 0; }
    ASSUME(0);
    return 0;
}
