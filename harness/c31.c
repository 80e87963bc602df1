/* C31: builds without double: shortening an encoded double to a float. The
 * library is compiled with MPACK_DOUBLE=0; the oracle is the solver's IEEE-754
 * semantics of float-to-double conversion in this harness. */
#include "ref.h"
#include "vf_lib.h"

static double as_d(uint64_t u) { union { uint64_t u; double d; } v; v.u = u; return v.d; }

int main(void) {
    uint8_t buf[9];
    buf[0] = 0xcb;
    for (int i = 1; i < 9; ++i) buf[i] = sym_u8();
    uint64_t d = ref_be(buf + 1, 8);
    float f;
    uint8_t how = sym_u8();
    if (how == 0) {
        mpack_reader_t r;
        mpack_reader_init_data(&r, (const char*)buf, 9);
        f = mpack_expect_float(&r);
        CHECK(mpack_reader_destroy(&r) == mpack_ok, "a double is accepted as a float");
    } else if (how == 1) {
        mpack_tree_t tree;
        mpack_node_data_t pool[2];
        mpack_tree_init_pool(&tree, (const char*)buf, 9, pool, 2);
        mpack_tree_parse(&tree);
        f = mpack_node_float(mpack_tree_root(&tree));
        CHECK(mpack_tree_destroy(&tree) == mpack_ok, "a double node is accepted as a float");
    } else { ASSUME(0); return 0; }
    uint32_t fb = ref_float_bits(f);
    bool fnan = (fb & 0x7fffffffu) > 0x7f800000u, finf = (fb & 0x7fffffffu) == 0x7f800000u, fzero = (fb & 0x7fffffffu) == 0;
    uint64_t mag = d & ~((uint64_t)1 << 63);
    const uint64_t INF = (uint64_t)0x7ff << 52;
    CHECK((fb >> 31) == (uint32_t)(d >> 63), "sign is kept");
    CHECK(fnan == (mag > INF), "NaN exactly for NaN");
    if (mag <= INF) {
        const uint64_t MAX = (uint64_t)(1023 + 128) << 52, MIN = (uint64_t)(1023 - 126) << 52; /* 2^128, 2^-126 */
        CHECK(finf == (mag >= MAX), "infinity exactly for infinity and magnitudes of 2^128 and above");
        CHECK(fzero == (mag < MIN), "zero exactly below the smallest normal float");
        if (mag >= MIN && mag < MAX)
            CHECK((double)f == as_d(d & ~(((uint64_t)1 << 29) - 1)), "the value truncated to a float significand");
    }
    END(c31);
    return 0;
}
