#include "vf.hpp"
using namespace vf;
template <size_t W> void root(const Z& v) {
    C.operand("v", v); Z s; mpz_sqrt(s.get_mpz_t(), v.get_mpz_t()); if(s * s == v) FEAT("perfect square"); if((s + 1) * (s + 1) == v + 1) FEAT("square minus one"); if(mpz_tstbit(v.get_mpz_t(), W - 1)) FEAT("top bit set");
    VEQ("squareRoot", val(mk<W>(v).squareRoot()), s);
}
template <size_t W> void run() {
    for(size_t k = 0; k <= W + 70; ++k) if(C.begin()) { C.opHash(k); C.note = "k=" + std::to_string(k); VEQ("power2", val(Aeu<W>::power2(k)), k < W ? pow2(k) : Z(0)); }
    for(size_t k: {SIZE_MAX, SIZE_MAX - 31, size_t(1) << 32, (size_t(1) << 32) + 3, size_t(1) << 63, size_t(0xffffffff)}) if(C.begin()) { C.opHash(k); C.note = "k=" + std::to_string(k); VEQ("power2", val(Aeu<W>::power2(k)), Z(0)); }
    if constexpr (W <= 160) for(unsigned i = 0; i < 3000; ++i) if(C.begin()) { const Z v = i; root<W>(v); }
    for(unsigned i = 0; i < 20; ++i) if(C.begin()) { const Z v = i; root<W>(v); }
    for(unsigned i = 0; i < (W <= 2048 ? 6 : 1); ++i) if(C.begin()) { const Z v = pow2(W) - 1 - i; root<W>(v); }
    const size_t step = W <= 256 ? 1 : W <= 544 ? 5 : W <= 1056 ? 67 : W <= 2048 ? 311 : 2000;
    for(size_t k = W % step; k < W; k += step) for(int d = -1; d <= 1; ++d) if(C.begin()) { const Z v = mod2(pow2(k) + d, W); root<W>(v); }
    constexpr u64 N = W <= 160 ? 6000 : W <= 256 ? 2000 : W <= 416 ? 500 : W <= 544 ? 200 : W <= 1056 ? 30 : W <= 2048 ? 4 : 1;
    for(u64 i = 0, e = C.n(N); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z v = genBits(r, W); root<W>(v); }
    for(u64 i = 0, e = C.n(N); i < e; ++i) if(C.begin()) { Rng r = C.rng(); Z s = genBits(r, r.coin() ? W / 2 : 1 + r.below(W / 2)); Z v = s * s + (r.coin() ? Z(0) : r.coin() ? Z(2 * s) : Z(-1)); if(v < 0) v = 0; root<W>(v); }
}
VF_MAIN("U08", run)
