#include "arith_lemmas.hpp"
using namespace lem;
static int64_t S(const char* n) {
    return static_cast<int32_t>(vf_sym(n, 32));
}
VF_ENTRY void lemma_mulMono() {
    mulMono(Prove, S("x"), S("z"), S("y"));
}
VF_ENTRY void lemma_mulMonoU() {
    mulMonoU(Prove, vf_sym("x", 32), vf_sym("z", 32), vf_sym("y", 32));
}
VF_ENTRY void lemma_sdivNum() {
    sdivNum(Prove, S("a"), S("c"), S("d"));
}
VF_ENTRY void lemma_sdivDen() {
    const int64_t a = S("a"), d = S("d"), e = S("e");
    // magnitudes: quotients of non-negative numbers, then the signs
    const uint64_t ma = a < 0 ? -a : a, md = d < 0 ? -d : d, me = e < 0 ? -e : e;
    vf_assume((d != 0) & (e != 0));
    vf_assume(((d > 0) & (d <= e)) | ((d < 0) & (e <= d)));
    vf_assert(md <= me, "lemma/denominator/magnitudes");
    udivMono(Use, ma, ma, md, me);
    const int64_t p = a / d, q = a / e;
    if(a >= 0) {
        if(d > 0) {
            vf_assert((p == static_cast<int64_t>(ma / md)) & (q == static_cast<int64_t>(ma / me)), "lemma/denominator/pp");
        } else {
            vf_assert((p == -static_cast<int64_t>(ma / md)) & (q == -static_cast<int64_t>(ma / me)), "lemma/denominator/pn");
        }
    } else {
        if(d > 0) {
            vf_assert((p == -static_cast<int64_t>(ma / md)) & (q == -static_cast<int64_t>(ma / me)), "lemma/denominator/np");
        } else {
            vf_assert((p == static_cast<int64_t>(ma / md)) & (q == static_cast<int64_t>(ma / me)), "lemma/denominator/nn");
        }
    }
    sdivDen(Prove, a, d, e);
}
VF_ENTRY void lemma_udivMono() {
    udivMono(Prove, vf_sym("a", 32), vf_sym("c", 32), vf_sym("d", 32), vf_sym("e", 32));
}

// k = number of low bits; every a with the low bits of s is s + (p << k)
VF_ENTRY void lemma_mulLow(uint64_t k) {
    const uint32_t mask = k >= 32 ? 0xffffffffU : (1U << k) - 1;
    {
        const uint32_t a = vf_sym("a", 32), s = vf_sym("s", 32);
        vf_assume(((a ^ s) & mask) == 0);
        const uint32_t p = k >= 32 ? 0 : (a - s) >> k;
        vf_assert(a == s + (k >= 32 ? 0 : p << k), "lemma/product-low-bits/decomposition");
    }
    const uint32_t s = vf_sym("s", 32), t = vf_sym("t", 32), p = vf_sym("p", 32), q = vf_sym("q", 32);
    const uint32_t a = s + (k >= 32 ? 0 : p << k), b = t + (k >= 32 ? 0 : q << k);
    // (a*b - s*t) is a multiple of 2^k, hence they agree on the low k bits
    const uint32_t d = a * b - s * t;
    const uint32_t w = s * q + t * p + (k >= 32 ? 0 : (p * q) << k);
    vf_assert(d == (k >= 32 ? 0 : w << k), "lemma/product-low-bits/multiple");
    const uint32_t u = vf_sym("u", 32), v = vf_sym("v", 32), z = vf_sym("w", 32);
    vf_assume(u - v == (k >= 32 ? 0 : z << k));
    vf_assert(((u ^ v) & mask) == 0, "lemma/product-low-bits");
}

VF_ENTRY void lemma_mulCorners() {
    const int64_t x0 = S("x0"), x1 = S("x1"), y0 = S("y0"), y1 = S("y1"), a = S("a"), b = S("b");
    vf_assume((x0 <= a) & (a <= x1) & (y0 <= b) & (b <= y1));
    // a*b lies between x0*b and x1*b; each of those between its two corners
    auto sign = [](int64_t v) { return v >= 0; };
    const bool sb = sign(b), s0 = sign(x0), s1 = sign(x1);
    if(sb && s0 && s1) vf_cover("+++");
    mulMono(Use, x0, a, b);
    mulMono(Use, a, x1, b);
    mulMono(Use, y0, b, x0);
    mulMono(Use, b, y1, x0);
    mulMono(Use, y0, b, x1);
    mulMono(Use, b, y1, x1);
    mulCorners(Prove, x0, x1, y0, y1, a, b);
}
VF_ENTRY void lemma_mulCornersU() {
    mulCornersU(Prove, vf_sym("x0", 32), vf_sym("x1", 32), vf_sym("y0", 32), vf_sym("y1", 32), vf_sym("a", 32), vf_sym("b", 32));
}
VF_ENTRY void lemma_sdivCorners() {
    const int64_t x0 = S("x0"), x1 = S("x1"), y0 = S("y0"), y1 = S("y1"), a = S("a"), b = S("b");
    vf_assume((x0 <= a) & (a <= x1) & (y0 <= b) & (b <= y1) & ((y0 > 0) | (y1 < 0)));
    if(x0 >= 0) vf_cover("x0");
    if(x1 >= 0) vf_cover("x1");
    if(y0 >= 0) vf_cover("y0");
    sdivNum(Use, x0, a, b);
    sdivNum(Use, a, x1, b);
    sdivDen(Use, x0, y0, b);
    sdivDen(Use, x0, b, y0);
    sdivDen(Use, x0, y1, b);
    sdivDen(Use, x0, b, y1);
    sdivDen(Use, x1, y0, b);
    sdivDen(Use, x1, b, y0);
    sdivDen(Use, x1, y1, b);
    sdivDen(Use, x1, b, y1);
    sdivCorners(Prove, x0, x1, y0, y1, a, b);
}
VF_ENTRY void lemma_mulFits() {
    vf_cover("mulFits");
    mulFits(Prove, vf_sym("a", 32), vf_sym("b", 32));
}
