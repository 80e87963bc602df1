/* C22: timestamps. PART 0: written and read back; PART 1: arbitrary extension elements. */
#include "ref.h"
#include "vf_lib.h"
#include "shape.h"

#define NSMAX 999999999u

/* reads the element with every timestamp reader: 0 tag + read_timestamp, 1 expect, 2 truncated, 3..5 node accessors */
typedef struct { bool ok; int64_t s; uint32_t ns; mpack_error_t e; } rd_t;
static rd_t rd(const uint8_t* p, size_t n, unsigned how, const ref_tag_t* t, bool have_ns) {
    rd_t o; o.ok = false; o.s = 0; o.ns = 0; o.e = mpack_ok;
    (void)t; (void)have_ns;
    if (how <= 2) {
        mpack_reader_t r;
        mpack_reader_init_data(&r, (const char*)p, n);
        if (how == 0) {
            mpack_tag_t tag = mpack_read_tag(&r);
            mpack_timestamp_t ts; ts.seconds = 0; ts.nanoseconds = 0;
            if (mpack_tag_type(&tag) == mpack_type_ext && mpack_tag_ext_exttype(&tag) == MPACK_EXTTYPE_TIMESTAMP)
                ts = mpack_read_timestamp(&r, mpack_tag_ext_length(&tag));
            else mpack_reader_flag_error(&r, mpack_error_type);
            o.s = ts.seconds; o.ns = ts.nanoseconds;
        } else if (how == 1) { mpack_timestamp_t ts = mpack_expect_timestamp(&r); o.s = ts.seconds; o.ns = ts.nanoseconds; }
        else o.s = mpack_expect_timestamp_truncate(&r);
        o.e = mpack_reader_error(&r);
        if (o.e == mpack_ok) CHECK(mpack_reader_remaining(&r, NULL) == 0, "the whole element is consumed");
        mpack_reader_destroy(&r);
    } else {
        mpack_node_data_t pool[2];
        mpack_tree_t tree;
        mpack_tree_init_pool(&tree, (const char*)p, n, pool, 2);
        mpack_tree_parse(&tree);
        if (mpack_tree_error(&tree) == mpack_ok) {
            mpack_node_t node = mpack_tree_root(&tree);
            if (how == 3) { mpack_timestamp_t ts = mpack_node_timestamp(node); o.s = ts.seconds; o.ns = ts.nanoseconds; }
            else if (how == 4) o.s = mpack_node_timestamp_seconds(node);
            else o.ns = mpack_node_timestamp_nanoseconds(node);
        }
        o.e = mpack_tree_error(&tree);
        mpack_tree_destroy(&tree);
    }
    o.ok = o.e == mpack_ok;
    return o;
}
#if PART == 0
int main(void) {
    int64_t s = (int64_t)sym_u64();
    uint32_t ns = sym_u32();
    uint8_t out[16];
    mpack_writer_t w;
    mpack_writer_init(&w, (char*)out, sizeof(out));
    if (HOW == 0) mpack_write_timestamp(&w, s, ns);
    else if (HOW == 1) { mpack_timestamp_t ts; ts.seconds = s; ts.nanoseconds = ns; mpack_write_timestamp_struct(&w, ts); }
    else { ns = 0; mpack_write_timestamp_seconds(&w, s); }
    size_t used = mpack_writer_buffer_used(&w);
    if (ns > NSMAX) {
        CHECK(mpack_writer_error(&w) != mpack_ok, "invalid nanoseconds are an error");
        CHECK(mpack_writer_destroy(&w) != mpack_ok, "final error");
        END(bad);
        STOP();
    }
    CHECK(mpack_writer_error(&w) == mpack_ok, "no error for a valid timestamp");
    uint8_t want[16];
    size_t n;
    if (s >= 0 && s <= 0xffffffffLL && ns == 0) {
        want[0] = 0xd6; want[1] = 0xff; n = 6;
        for (size_t i = 0; i < 4; ++i) want[2 + i] = (uint8_t)((uint64_t)s >> (24 - 8 * i));
    } else if (s >= 0 && s <= 0x3ffffffffLL) {
        want[0] = 0xd7; want[1] = 0xff; n = 10;
        uint64_t v = ((uint64_t)ns << 34) | (uint64_t)s;
        for (size_t i = 0; i < 8; ++i) want[2 + i] = (uint8_t)(v >> (56 - 8 * i));
    } else {
        want[0] = 0xc7; want[1] = 12; want[2] = 0xff; n = 15;
        for (size_t i = 0; i < 4; ++i) want[3 + i] = (uint8_t)(ns >> (24 - 8 * i));
        for (size_t i = 0; i < 8; ++i) want[7 + i] = (uint8_t)((uint64_t)s >> (56 - 8 * i));
    }
    CHECK(used == n, "shortest form");
    for (size_t i = 0; i < 15; ++i) if (i < n) CHECK(out[i] == want[i], "bytes of the specified form");
    CHECK(mpack_writer_destroy(&w) == mpack_ok, "destroyed without error");
    /* read it back from its reference bytes, one case per form */
    static const size_t forms[3] = {6, 10, 15};
    for (size_t f = 0; f < 3; ++f) {
        if (n != forms[f]) continue;
        uint8_t b[15];
        for (size_t i = 0; i < forms[f]; ++i) b[i] = out[i];
        b[0] = f == 0 ? 0xd6 : f == 1 ? 0xd7 : 0xc7;
        if (f == 2) { b[1] = 12; b[2] = 0xff; } else b[1] = 0xff;
        for (unsigned how = 0; how < 6; ++how) {
            rd_t o = rd(b, forms[f], how, NULL, true);
            CHECK(o.ok, "reads back without error");
            if (how != 5) CHECK(o.s == s, "seconds read back");
            if (how != 2 && how != 4) CHECK(o.ns == ns, "nanoseconds read back");
        }
        END(c22);
        STOP();
    }
    return 0;
}
#else
static void run(uint8_t* p, size_t n) {
    unsigned k = sym_u8();
    ref_tag_t t = ref_decode(p, n);
    for (unsigned how = 0; how < 6; ++how) {
        if (k != how) continue;
        bool valid = t.status == REF_OK && t.type == REF_EXT && t.exttype == -1 && (t.len == 4 || t.len == 8 || t.len == 12) && t.size + t.len <= n;
        int64_t s = 0;
        uint32_t ns = 0;
        const uint8_t* d = p + t.size;
        if (t.len == 4 && t.size + 4 <= n) s = (int64_t)ref_be(d, 4);
        else if (t.len == 8 && t.size + 8 <= n) { uint64_t v = ref_be(d, 8); s = (int64_t)(v % ((uint64_t)1 << 34)); ns = (uint32_t)(v / ((uint64_t)1 << 34)); }
        else if (t.len == 12 && t.size + 12 <= n) { ns = (uint32_t)ref_be(d, 4); s = (int64_t)ref_be(d + 4, 8); }
        if (ns > NSMAX) valid = false;
        rd_t o = rd(p, n, how, &t, true);
        if (valid) {
            CHECK(o.ok, "a valid timestamp is accepted");
            if (how != 5) CHECK(o.s == s, "seconds");
            if (how != 2 && how != 4) CHECK(o.ns == ns, "nanoseconds");
        } else {
            CHECK(!o.ok, "anything else is an error");
            CHECK(o.s == 0 && o.ns == 0, "zero result with an error");
        }
        END(c22);
        STOPV();
    }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
#endif
