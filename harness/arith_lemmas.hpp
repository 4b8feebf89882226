// Ghost lemmas about 64-bit arithmetic on 32-bit quantities.  A use checks the lemma's
// hypothesis and may then rely on its conclusion; every lemma has a proof job
// (entry lemma_*) that discharges hypothesis => conclusion for all values.
#pragma once
#include "vf.hpp"
namespace lem {
enum Mode { Use, Prove };
inline void hyp(Mode m, bool c) {
    if(m == Use)
        vf_assert(c, "lemma-hypothesis");
    else
        vf_assume(c);
}
inline void concl(Mode m, bool c, const char* name) {
    if(m == Use)
        vf_assume(c);
    else
        vf_assert(c, name);
}
inline bool s32(int64_t x) {
    return (x >= -(1LL << 31)) & (x <= (1LL << 31));
}
inline bool u32(uint64_t x) {
    return x <= 0xffffffffULL;
}
// x <= z: x*y <= z*y for y >= 0, x*y >= z*y for y <= 0
inline void mulMono(Mode m, int64_t x, int64_t z, int64_t y) {
    hyp(m, s32(x) & s32(y) & s32(z));
    const int64_t p = x * y, q = z * y;
    concl(m, !((x <= z) & (y >= 0)) | (p <= q), "lemma/product-monotone");
    concl(m, !((x <= z) & (y <= 0)) | (p >= q), "lemma/product-antitone");
}
inline void mulMonoU(Mode m, uint64_t x, uint64_t z, uint64_t y) {
    hyp(m, u32(x) & u32(y) & u32(z));
    const uint64_t p = x * y, q = z * y;
    concl(m, !(x <= z) | (p <= q), "lemma/unsigned-product-monotone");
}
// numerators: a <= c
inline void sdivNum(Mode m, int64_t a, int64_t c, int64_t d) {
    hyp(m, s32(a) & s32(c) & s32(d) & (d != 0));
    const int64_t p = a / d, q = c / d;
    concl(m, !((a <= c) & (d > 0)) | (p <= q), "lemma/quotient-monotone");
    concl(m, !((a <= c) & (d < 0)) | (p >= q), "lemma/quotient-antitone");
}
// denominators of one sign, |d| <= |e|
inline void sdivDen(Mode m, int64_t a, int64_t d, int64_t e) {
    hyp(m, s32(a) & s32(d) & s32(e) & (d != 0) & (e != 0));
    const int64_t p = a / d, q = a / e;
    const bool pos = (d > 0) & (d <= e), neg = (d < 0) & (e <= d);
    concl(m, !(pos & (a >= 0)) | ((0 <= q) & (q <= p)), "lemma/denominator-1");
    concl(m, !(pos & (a <= 0)) | ((p <= q) & (q <= 0)), "lemma/denominator-2");
    concl(m, !(neg & (a >= 0)) | ((p <= q) & (q <= 0)), "lemma/denominator-3");
    concl(m, !(neg & (a <= 0)) | ((0 <= q) & (q <= p)), "lemma/denominator-4");
}
inline void udivMono(Mode m, uint64_t a, uint64_t c, uint64_t d, uint64_t e) {
    hyp(m, u32(a) & u32(c) & u32(d) & u32(e) & (d != 0));
    const uint64_t p = a / (e ? e : 1), q = c / d;
    concl(m, !((a <= c) & (d <= e)) | (p <= q), "lemma/unsigned-quotient");
}
// the low bits of a product depend on the low bits of the factors; mask = 2^k - 1
inline void mulLow(Mode m, uint32_t a, uint32_t s, uint32_t b, uint32_t t, uint32_t mask) {
    hyp(m, (mask & (mask + 1)) == 0);
    hyp(m, ((a ^ s) & mask) == 0);
    hyp(m, ((b ^ t) & mask) == 0);
    concl(m, (((a * b) ^ (s * t)) & mask) == 0, "lemma/product-low-bits");
}
// a 64-bit product that fits 32 bits is the 32-bit product
inline void mulFits(Mode m, uint32_t a, uint32_t b) {
    const int64_t p = static_cast<int64_t>(static_cast<int32_t>(a)) * static_cast<int32_t>(b);
    const uint64_t q = static_cast<uint64_t>(a) * b;
    const uint32_t r = a * b;
    concl(m, static_cast<uint32_t>(p) == r, "lemma/signed-product-truncates");
    concl(m, static_cast<uint32_t>(q) == r, "lemma/unsigned-product-truncates");
    concl(m, !((p >= INT32_MIN) & (p <= INT32_MAX)) | (p == static_cast<int32_t>(r)), "lemma/signed-product-fits");
    concl(m, !(q <= 0xffffffffULL) | (q == r), "lemma/unsigned-product-fits");
}
// a product over a box lies between its corners
inline void mulCorners(Mode m, int64_t x0, int64_t x1, int64_t y0, int64_t y1, int64_t a, int64_t b) {
    hyp(m, s32(x0) & s32(x1) & s32(y0) & s32(y1));
    hyp(m, (x0 <= a) & (a <= x1));
    hyp(m, (y0 <= b) & (b <= y1));
    const int64_t p = a * b, s1 = x0 * y0, s2 = x0 * y1, s3 = x1 * y0, s4 = x1 * y1;
    concl(m, (s1 <= p) | (s2 <= p) | (s3 <= p) | (s4 <= p), "lemma/product-above-least-corner");
    concl(m, (s1 >= p) | (s2 >= p) | (s3 >= p) | (s4 >= p), "lemma/product-below-greatest-corner");
    const int64_t B = 1LL << 62;
    concl(m, (s1 <= B) & (s2 <= B) & (s3 <= B) & (s4 <= B) & (s1 >= -B) & (s2 >= -B) & (s3 >= -B) & (s4 >= -B),
          "lemma/product-magnitude");
}
inline void mulCornersU(Mode m, uint64_t x0, uint64_t x1, uint64_t y0, uint64_t y1, uint64_t a, uint64_t b) {
    hyp(m, u32(x0) & u32(x1) & u32(y0) & u32(y1));
    hyp(m, (x0 <= a) & (a <= x1));
    hyp(m, (y0 <= b) & (b <= y1));
    concl(m, (x0 * y0 <= a * b) & (a * b <= x1 * y1), "lemma/unsigned-product-between-corners");
}
// divisors of one sign
inline void sdivCorners(Mode m, int64_t x0, int64_t x1, int64_t y0, int64_t y1, int64_t a, int64_t b) {
    hyp(m, s32(x0) & s32(x1) & s32(y0) & s32(y1));
    hyp(m, (x0 <= a) & (a <= x1));
    hyp(m, (y0 <= b) & (b <= y1) & ((y0 > 0) | (y1 < 0)));
    const int64_t p = a / b, s1 = x0 / y0, s2 = x0 / y1, s3 = x1 / y0, s4 = x1 / y1;
    concl(m, (s1 <= p) | (s2 <= p) | (s3 <= p) | (s4 <= p), "lemma/quotient-above-least-corner");
    concl(m, (s1 >= p) | (s2 >= p) | (s3 >= p) | (s4 >= p), "lemma/quotient-below-greatest-corner");
    const int64_t B = 1LL << 31;
    concl(m, (s1 <= B) & (s2 <= B) & (s3 <= B) & (s4 <= B) & (s1 >= -B) & (s2 >= -B) & (s3 >= -B) & (s4 >= -B),
          "lemma/quotient-magnitude");
}
}  // namespace lem
