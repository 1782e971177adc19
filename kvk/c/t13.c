#include "types.h"
#include "kc.h"
#ifdef __CPROVER
/* assumed contract of libm: x * 2^e, exact (the scalings used here never leave float's normal range) */
static double p2(int e) { union { uint64_t u; double d; } x; x.u = (uint64_t)(e + 1023) << 52; return x.d; }
float ldexpf(float x, int e) { return (float)((double)x * p2(e)); }
#endif
typedef struct { uint32_t m, e; int bias; int ieee; } F;
static uint32_t top(F f) { return 1u << (f.m + f.e); }
static int isnan_p(F f, uint32_t p) { uint32_t a = p & (top(f) - 1); return f.ieee ? a > ((1u << f.e) - 1) << f.m : a == top(f) - 1; }
static int isinf_p(F f, uint32_t p) { return f.ieee && (p & (top(f) - 1)) == ((1u << f.e) - 1) << f.m; }
static double bits_d(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static uint64_t d_bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
/* magnitude of pattern a as the format defines it (the ladder goes on past the largest finite one) */
static double mag(F f, uint32_t a) { uint32_t e = a >> f.m, m = a & ((1u << f.m) - 1); if (e == 0) return (double)m * bits_d((uint64_t)(1 - f.bias - (int)f.m + 1023) << 52); return bits_d(((uint64_t)((int)e - f.bias + 1023) << 52) | ((uint64_t)m << (52 - f.m))); }
static void widens(F f, uint32_t p, float g) { if (isnan_p(f, p)) { CHECK(g != g, "a NaN pattern widens to a number"); return; } uint32_t a = p & (top(f) - 1); double w = isinf_p(f, p) ? (double)INFINITY : mag(f, a); CHECK(d_bits((double)g) == d_bits(p >= top(f) ? -w : w), "the pattern does not widen to the value the format assigns to it"); }
static void nearest(F f, float x, uint32_t p) {
    if (x != x) { CHECK(isnan_p(f, p), "NaN lost"); return; }
    uint32_t b; memcpy(&b, &x, 4);
    CHECK((p >= top(f)) == (b >> 31), "wrong side of zero");
    uint32_t a = p & (top(f) - 1); double v = (double)x; if (b >> 31) v = -v; uint32_t last = f.ieee ? (((1u << f.e) - 1) << f.m) - 1 : top(f) - 2;
    if (a > last) { CHECK(a == last + 1, "overflow pattern"); double half = (mag(f, last) + mag(f, last + 1)) / 2.0; CHECK(v > half || (v == half && last % 2 == 1), "overflow below the largest finite value"); return; }
    double w = mag(f, a); CHECK(v < (double)INFINITY, "infinity becomes finite");
    if (v > w) { double mid = (w + mag(f, a + 1)) / 2.0; CHECK(v < mid || (v == mid && a % 2 == 0), "a nearer value lies above"); }
    if (v < w) { double mid = (w + mag(f, a - 1)) / 2.0; CHECK(v > mid || (v == mid && a % 2 == 0), "a nearer value lies below"); }
}
static void back(F f, uint32_t p, uint32_t q) { CHECK(p == q || (isnan_p(f, p) && isnan_p(f, q)), "re-narrowing gives another pattern"); }
#define FMT(T, T2, M, E, B, I) static const F fm_##T = {M, E, B, I}; \
 void widen_##T(void) { IN(T2, p); float g = T##_to_float(p); widens(fm_##T, p, g); } \
 void narrow_##T(void) { IN(float, x); nearest(fm_##T, x, float_to_##T(x)); } \
 void again_##T(void) { IN(T2, p); back(fm_##T, p, float_to_##T(T##_to_float(p))); } \
 void cmp_##T(void) { IN(T2, a); IN(T2, b); float x = T##_to_float(a), y = T##_to_float(b); \
   CHECK(T##_lt(a, b) == (x < y) && T##_le(a, b) == (x <= y) && T##_gt(a, b) == (x > y) && T##_ge(a, b) == (x >= y) && T##_eq(a, b) == (x == y), "a comparison differs from that of the values"); } \
 void sign_##T(void) { IN(T2, a); ASSUME(!isnan_p(fm_##T, a)); CHECK(T##_neg(a) == (a ^ top(fm_##T)), "neg is not the pattern of the opposite value"); CHECK(T##_abs(a) == (a & (top(fm_##T) - 1)), "abs is not the pattern of the magnitude"); } \
 void pick_##T(void) { IN(T2, a); IN(T2, b); ASSUME(!isnan_p(fm_##T, a) && !isnan_p(fm_##T, b)); int32_t p = a & (top(fm_##T) - 1), q = b & (top(fm_##T) - 1); if (a >= top(fm_##T)) p = -p; if (b >= top(fm_##T)) q = -q; T2 mx = T##_max(a, b), mn = T##_min(a, b); \
   CHECK(p == q ? (mx == a || mx == b) : mx == (p > q ? a : b), "max is not the pattern of the larger value"); CHECK(p == q ? (mn == a || mn == b) : mn == (p < q ? a : b), "min is not the pattern of the smaller value"); }
FMT(f8e4m3, uint8_t, 3, 4, 7, 0)
FMT(f8e5m2, uint8_t, 2, 5, 15, 1)
FMT(f16, uint16_t, 10, 5, 15, 1)
FMT(bf16, uint16_t, 7, 8, 127, 1)
