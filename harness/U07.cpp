#include "vf.hpp"
using namespace vf;
template <size_t W, size_t P> void ops(const Z& b, const Z& e, const Z& m) {
    C.operand("base", b); C.operand("power", e); C.operand("modulo", m); C.note = "power width " + std::to_string(P); C.opHash(P);
    Z want; mpz_powm(want.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t());
    if(m == 1) FEAT("modulo 1"); if(b == 0) FEAT("base 0"); if(e == 0) FEAT("power 0"); if(b >= m) FEAT("base not below modulo"); if(b % m == 0) FEAT("base divisible by modulo");
    const Aeu<W> B = mk<W>(b), M = mk<W>(m); const Aeu<P> E = mk<P>(e);
    VEQ("powm<P>(b,e,m)", val(Aeu<W>::template powm<P>(B, E, M)), want);
    VEQ("powm(b,e,m)", val(Aeu<W>::powm(B, E, M)), want);
}
inline Z genMod(Rng& r, size_t W) { const size_t h = W / 2; Z m; switch(r.below(6)) { case 0: m = pow2(h); break; case 1: m = pow2(h) - 1 - r.below(3); break; case 2: m = 1 + r.below(12); break; case 3: m = pow2(r.below(h + 1)); break; default: m = genBits(r, 1 + r.below(h)); } if(m < 1) m = 1; return m; }      // (m-1)^2 < 2^W
template <size_t W, size_t P> void series(u64 n, size_t maxPow) {
    for(u64 i = 0; i < n; ++i) if(C.begin()) { Rng r = C.rng(); const Z m = genMod(r, W); Z b; switch(r.below(7)) { case 0: b = mod2(Z(m), W); break; case 1: b = m - 1; break; case 2: b = mod2(m + 1, W); break; case 3: b = mod2(m * (1 + r.below(5)), W); break; case 4: b = r.below(3); break; default: b = genBits(r, W); }
        Z e; const size_t pl = std::min(P, maxPow); switch(r.below(6)) { case 0: e = r.below(4); break; case 1: e = pow2(r.below(pl)); break; case 2: e = mod2(pow2(32 * (1 + r.below((pl + 31) / 32))) - 1 + r.below(2), pl); break; default: e = genBits(r, 1 + r.below(pl)); }
        ops<W, P>(b, e, m); }
}
template <size_t W> void run() {
    if constexpr (W <= 160) for(unsigned m = 1; m < 9; ++m) for(unsigned b = 0; b < 11; ++b) for(unsigned e = 0; e < 9; ++e) if(C.begin()) { const Z x = b, y = e, z = m; ops<W, W>(x, y, z); C.nops = 0; ops<W, 256>(x, y, z); }
    for(unsigned b = 0; b < 4; ++b) for(unsigned e = 0; e < 3; ++e) for(unsigned m = 1; m < 4; ++m) if(C.begin()) { const Z x = b, y = e, z = m; ops<W, 96>(x, y, z); }
    constexpr u64 N = W <= 96 ? 500 : W <= 160 ? 250 : W <= 256 ? 60 : W <= 416 ? 24 : W <= 544 ? 10 : W <= 1056 ? 4 : W <= 2048 ? 2 : 1;
    constexpr size_t L = W <= 544 ? 100000 : W <= 1056 ? 400 : W <= 2048 ? 100 : 40;
    series<W, W>(C.n(N * 2), L); series<W, 96>(C.n(N), L); series<W, 256>(C.n(N), L); series<W, W + 32>(C.n(N), L); series<W, 2 * W>(C.n(N), L); if constexpr (W > 96) series<W, W - 32>(C.n(N), L); series<W, 1024>(C.n(N / 4 + 1), L);
    // the precision of the power may exceed the base's by far: bits in its top blocks count
    if constexpr (W <= 160) for(u64 i = 0, e = C.n(8); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z m = genMod(r, W), b = genBits(r, W); Z p = pow2(2048 - 1 - r.below(32)) + genBits(r, 2000); ops<W, 2048>(b, p, m); }
}
VF_MAIN("U07", run)
