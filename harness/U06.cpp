#include "vf.hpp"
using namespace vf;
template <size_t W> void ops(const Z& a, const Z& b, Rng& r) {
    C.operand("a", a); C.operand("b", b); const Aeu<W> A = mk<W>(a), B = mk<W>(b); Z g, l; mpz_gcd(g.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); mpz_lcm(l.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
    if(a == 0 || b == 0) FEAT("a zero operand"); if(a == b) FEAT("equal operands"); if(g == 1) FEAT("coprime"); else if(g == a || g == b) FEAT("one divides the other"); else FEAT("proper common divisor"); if(a < b) FEAT("first below second");
    VEQ("gcd(a,b)", val(Aeu<W>::gcd(A, B)), g);
    Aeu<W> x = mk<W>(genBits(r, W)), y = mk<W>(genBits(r, W));
    VEQ("gcd(a,b,x,y)", val(Aeu<W>::gcd(A, B, x, y)), g);
    VEQ("a*x+b*y mod 2^N", mod2(a * val(x) + b * val(y), W), g);
    if(mpz_sizeinbase(l.get_mpz_t(), 2) <= W) { FEAT("lcm fits"); VEQ("lcm(a,b)", val(Aeu<W>::lcm(A, B)), l); }
}
template <size_t W> void run() {
    constexpr u64 N = W <= 96 ? 8000 : W <= 160 ? 3000 : W <= 256 ? 900 : W <= 416 ? 200 : W <= 544 ? 80 : W <= 1056 ? 8 : 1;
    constexpr size_t L = W <= 1056 ? W : 256;           // operand length bound keeping long Euclid chains affordable at large widths
    auto len = [](Rng& r) { return W <= 1056 || r.coin() ? size_t(1 + r.below(L)) : size_t(1 + r.below(96)); };
    if constexpr (W == 96) { static const u32 d[] = {0, 1, 0x80000000u, 0xffffffffu}; for(int i = 0; i < 64; ++i) for(int j = 0; j < 64; ++j) if(C.begin()) { Rng r = C.rng(); u32 x[3] = {d[i % 4], d[i / 4 % 4], d[i / 16]}, y[3] = {d[j % 4], d[j / 4 % 4], d[j / 16]}; const Z a = fromLimbs(x, 3), b = fromLimbs(y, 3); ops<W>(a, b, r); } }
    for(unsigned i = 0; i < 24; ++i) for(unsigned j = 0; j < 24; ++j) if(C.begin()) { Rng r = C.rng(); const Z a = i, b = j; ops<W>(a, b, r); }
    for(u64 i = 0, e = C.n(N); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = genBits(r, L), b = gen2(r, a, L); ops<W>(a, b, r); }
    for(u64 i = 0, e = C.n(N); i < e; ++i) if(C.begin()) {          // common factor by construction, both orders
        Rng r = C.rng(); const size_t gl = 1 + r.below(L - 2), rest = L - gl; Z g = genBits(r, gl); const Z a = g * genBits(r, r.below(rest) + 1), b = g * genBits(r, r.below(rest) + 1); if(r.coin()) ops<W>(a, b, r); else ops<W>(b, a, r); }
    for(u64 i = 0, e = C.n(N / 4 + 2); i < e; ++i) if(C.begin()) {  // worst Euclid chains: consecutive Fibonacci-like numbers, small quotients
        Rng r = C.rng(); Z x = 1 + r.below(5), y = x + r.below(5); const size_t lim = len(r); while(mpz_sizeinbase(y.get_mpz_t(), 2) < lim) { Z t = x + y * (r.coin(6) ? 1 + r.below(4) : 1); x = y; y = t; } x = mod2(x, L); y = mod2(y, L); ops<W>(x, y, r); if(r.coin(3)) { C.nops = 0; ops<W>(y, x, r); } }
    for(u64 i = 0, e = C.n(N / 4 + 8); i < e; ++i) if(C.begin()) { // degenerate shapes
        Rng r = C.rng(); const Z a = r.coin() ? genBits(r, W) : Z(pow2(W) - 1 - r.below(3)); Z b; switch(r.below(6)) { case 0: b = 0; break; case 1: b = 1; break; case 2: b = a; break; case 3: b = 2; break; case 4: b = W <= 416 ? a + 1 : a; break; default: b = a >> 1 << 1 == a ? Z(a >> 1) : a; }
        b = mod2(b, W); ops<W>(a, b, r); C.nops = 0; ops<W>(b, a, r); }
    for(u64 i = 0, e = C.n(N / 8 + 4); i < e; ++i) if(C.begin()) {  // lcm exactly at the edge of N bits
        Rng r = C.rng(); const size_t k = 1 + r.below(std::min<size_t>(W - 1, W <= 544 ? W : 64)); Z a = (r.coin() ? Z(pow2(k) - 1) : Z(genBits(r, k) | 1)), b = W - k <= 600 ? Z(pow2(W - k) - 1) : pow2(r.below(W - k)); if(a == 0) a = 1; ops<W>(a, b, r); }
}
VF_MAIN("U06", run)
