/* C21: tag comparison over every pair and triple of tags. */
#include "ref.h"
#include "vf_lib.h"

typedef struct { int kind; uint64_t u; int64_t i; uint32_t n; int8_t et; bool b; } desc_t;

static mpack_tag_t make(desc_t* d) {
    d->u = sym_u64(); d->n = sym_u32(); d->et = (int8_t)sym_u8(); d->b = sym_bool();
    d->i = (int64_t)d->u;
    d->kind = sym_u8();
    switch (d->kind) {
        case 0: return mpack_tag_make_nil();
        case 1: return mpack_tag_make_bool(d->b);
        case 2: return mpack_tag_make_uint(d->u);
        case 3: return mpack_tag_make_int(d->i);
        case 4: { union { uint32_t u; float f; } v; v.u = d->n; return mpack_tag_make_float(v.f); }
        case 5: { union { uint64_t u; double f; } v; v.u = d->u; return mpack_tag_make_double(v.f); }
        case 6: return mpack_tag_make_array(d->n);
        case 7: return mpack_tag_make_map(d->n);
        case 8: return mpack_tag_make_str(d->n);
        case 9: return mpack_tag_make_bin(d->n);
        case 10: return mpack_tag_make_ext(d->et, d->n);
        default: ASSUME(0); return mpack_tag_make_nil();
    }
}
/* do two descriptions denote the same value? (floats by representation) */
static bool same(const desc_t* a, const desc_t* b) {
    bool ai = a->kind == 2 || a->kind == 3, bi = b->kind == 2 || b->kind == 3;
    if (ai && bi) {
        bool an = a->kind == 3 && a->i < 0, bn = b->kind == 3 && b->i < 0;
        return an == bn && a->u == b->u;
    }
    if (a->kind != b->kind) return false;
    switch (a->kind) {
        case 0: return true;
        case 1: return a->b == b->b;
        case 4: return a->n == b->n;
        case 5: return a->u == b->u;
        case 10: return a->n == b->n && a->et == b->et;
        default: return a->n == b->n;
    }
}
static int sgn(int x) { return (x > 0) - (x < 0); }

int main(void) {
    desc_t da, db, dc;
    mpack_tag_t a = make(&da), b = make(&db), c = make(&dc);
    int ab = sgn(mpack_tag_cmp(a, b)), ba = sgn(mpack_tag_cmp(b, a)), bc = sgn(mpack_tag_cmp(b, c)), ac = sgn(mpack_tag_cmp(a, c));
    CHECK(mpack_tag_cmp(a, a) == 0, "reflexive");
    CHECK(ab == -ba, "antisymmetric");
    CHECK(!(ab <= 0 && bc <= 0) || ac <= 0, "transitive");
    CHECK(!(ab < 0 && bc <= 0) || ac < 0, "transitive, strictly");
    CHECK((ab == 0) == same(&da, &db), "zero exactly for equal values");
    CHECK(mpack_tag_equal(a, b) == (ab == 0), "equality is a zero comparison");
    /* integers are ordered by value */
    if ((da.kind == 2 || da.kind == 3) && (db.kind == 2 || db.kind == 3)) {
        bool an = da.kind == 3 && da.i < 0, bn = db.kind == 3 && db.i < 0;
        if (an == bn) CHECK((ab < 0) == (an ? da.i < db.i : da.u < db.u), "integers of equal sign are ordered by value");
    }
    /* accessors give back what was stored */
    if (da.kind == 10) CHECK(mpack_tag_ext_exttype(&a) == da.et && mpack_tag_ext_length(&a) == da.n, "ext tag fields");
    END(c21);
    return 0;
}
