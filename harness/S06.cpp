#include "vf.hpp"
using namespace vf;
inline Z place(const Z& a, size_t pos, size_t len, u64 v) { Z m = (pow2(len) - 1) << pos, t; mpz_com(t.get_mpz_t(), m.get_mpz_t()); return (a & t) | (Z((unsigned long)v) << pos); }
template <size_t W> void observers(const Z& z, const Aesi<W>& A) {
    const Z m = abs(z); const size_t bl = m == 0 ? 0 : mpz_sizeinbase(m.get_mpz_t(), 2);
    VEQ("bitCount", Z(A.bitCount()), Z(bl)); VEQ("byteCount", Z(A.byteCount()), Z((bl + 7) / 8)); VEQ("filledBlocksNumber", Z(A.filledBlocksNumber()), Z((bl + 31) / 32));
    VBOOL("isOdd", A.isOdd(), mpz_odd_p(m.get_mpz_t()) != 0); VBOOL("isEven", A.isEven(), mpz_odd_p(m.get_mpz_t()) == 0); VEQ("getBitness", Z(A.getBitness()), Z(W)); VEQ("totalBlocksNumber", Z(A.totalBlocksNumber()), Z(W / 32)); VEQ("unsignedCast", val(A.unsignedCast()), m);
    VBOOL("isZero", A.isZero(), z == 0); VBOOL("isPositive", A.isPositive(), z > 0); VBOOL("isNegative", A.isNegative(), z < 0);
}
template <size_t W> void one(const Z& z, size_t i, Rng& r) {
    const Z m = abs(z); C.operand("a", z); C.note = "index=" + std::to_string(i); C.opHash(i); const bool inBit = i < W, inByte = i < W / 8, inBlock = i < W / 32; if(!inBit) FEAT("bit index out of range"); if(!inByte) FEAT("byte index out of range"); if(!inBlock) FEAT("block index out of range");
    const Aesi<W> A = mks<W>(z); const auto sg = [&](const Z& x) { return z < 0 ? Z(-x) : x; };
    VBOOL("getBit", A.getBit(i), inBit && mpz_tstbit(m.get_mpz_t(), i)); VEQ("getByte", Z(unsigned(A.getByte(i))), inByte ? mod2(m >> (8 * i), 8) : Z(0)); VEQ("getBlock", Z(A.getBlock(i)), inBlock ? mod2(m >> (32 * i), 32) : Z(0));
    if(z == 0) return;
    struct { u32 before[2]; Aesi<W> a; u32 after[2]; } x; const u32 g = r.coin() ? 0xffffffffu : 0u; const auto arm = [&] { x.before[0] = x.before[1] = x.after[0] = x.after[1] = g; x.a = A; asm volatile("" : : "r"(&x) : "memory"); }; const auto intact = [&] { asm volatile("" : : "r"(&x) : "memory"); return x.before[0] == g && x.before[1] == g && x.after[0] == g && x.after[1] == g; };
    for(bool b: {false, true}) { const Z w = inBit ? place(m, i, 1, b) : m; if(w == 0) continue; arm(); VEQ("setBit", (x.a.setBit(i, b), val(x.a)), sg(w)); VOK("setBit keeps neighbours", intact()); }
    for(unsigned v: {0u, 255u, unsigned(r.below(256))}) { const Z w = inByte ? place(m, 8 * i, 8, v) : m; if(w == 0) continue; arm(); VEQ("setByte", (x.a.setByte(i, (unsigned char)v), val(x.a)), sg(w)); VOK("setByte keeps neighbours", intact()); }
    for(u32 v: {0u, 0xffffffffu, u32(r.next())}) { const Z w = inBlock ? place(m, 32 * i, 32, v) : m; if(w == 0) continue; arm(); VEQ("setBlock", (x.a.setBlock(i, v), val(x.a)), sg(w)); VOK("setBlock keeps neighbours", intact()); }
}
template <size_t W> void root(const Z& z) { C.resetOperands(); C.operand("a", z); VEQ("squareRoot", val(mks<W>(z).squareRoot()), z > 0 ? Z(sqrt(z)) : Z(0)); }
template <size_t W> void run() {
    for(size_t k = 0; k < W + 40; ++k) if(C.begin()) { C.note = "exponent " + std::to_string(k); C.opHash(k); VEQ("power2", val(Aesi<W>::power2(k)), k < W ? pow2(k) : Z(0)); }
    for(size_t k: {size_t(1) << 32, (size_t(1) << 32) + 1, SIZE_MAX, size_t(1) << 63, size_t(0xffffffffu)}) if(C.begin()) { C.note = "exponent " + std::to_string(k); C.opHash(k); VEQ("power2", val(Aesi<W>::power2(k)), Z(0)); }
    for(int i = -40; i <= 300; ++i) if(C.begin()) root<W>(Z(i));
    for(size_t k = 0; k <= W; k += W > 4096 ? 409 : W > 2048 ? 113 : W > 1024 ? 31 : 1) if(C.begin()) for(int d = -2; d <= 2; ++d) { const Z z = pow2(k) + d; if(z < pow2(W)) root<W>(z); }
    for(u64 i = 0, e = C.n(W <= 256 ? 2000 : W <= 544 ? 400 : W <= 1056 ? 60 : W <= 2048 ? 12 : 4); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z h = genBits(r, W / 2); Z z; switch(r.below(5)) { case 0: z = h * h; break; case 1: z = h * h - 1; break; case 2: z = h * h + 2 * h; break; case 3: z = pow2(W) - 1 - r.below(4); break; default: z = genBits(r, W); } if(r.coin(8)) z = -z; root<W>(z); }
    for(size_t i = 0, lim = W + 40; i < lim; ++i) for(u64 v = 0, e = C.n(W <= 544 ? 10 : W <= 2048 ? 3 : 1, 6); v < e; ++v) if(C.begin()) { Rng r = C.rng(); const Z a = v == 1 ? Z(0) : v == 2 ? Z(1 - pow2(W)) : v == 3 ? Z(-pow2(i % W)) : genSigned(r, W); one<W>(a, i, r); }
    FEAT("all indices up to N+40");
    static const size_t far[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 59, size_t(1) << 61, size_t(1) << 63, 0xffffffffu, 0x80000000u, 65536};
    for(size_t i: far) for(int v = 0; v < 4; ++v) if(C.begin()) { Rng r = C.rng(); const Z a = genSigned(r, W); one<W>(a, i, r); }
    for(size_t k = 0; k <= W; ++k) for(int d = -1; d <= 1; ++d) if(C.begin()) { Z a = mod2(pow2(k) + d, W); if(k & 1) a = -a; C.operand("a", a); observers<W>(a, mks<W>(a)); }
    for(u64 i = 0, e = C.n(W <= 1056 ? 6000 : 1500); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = genSigned(r, W), b = r.coin(6) ? Z(0) : genSigned2(r, a, W); C.operand("a", a); C.operand("b", b); observers<W>(a, mks<W>(a));
        Aesi<W> A = mks<W>(a), B = mks<W>(b); VEQ("swap.first", (A.swap(B), val(A)), b); VEQ("swap.second", val(B), a); observers<W>(b, A); B.swap(B); VEQ("swap with itself", val(B), a); }
    for(u64 i = 0, e = C.n(W <= 544 ? 60 : 15); i < e; ++i) if(C.begin()) {              // histories of setters (top block kept non-zero)
        Rng r = C.rng(); Z m = genBits(r, W); mpz_setbit(m.get_mpz_t(), W - 1); const bool neg = r.coin(); Aesi<W> x = mks<W>(neg ? Z(-m) : m); const Z start = m; C.operand("start", start);
        for(int s = 0; s < 120; ++s) { const size_t p = r.below(W + W / 8); C.opHash(p * 8 + u64(s)); C.note = "step " + std::to_string(s) + " index " + std::to_string(p);
            switch(r.below(3)) { case 0: { const bool b = r.coin(); if(p == W - 1) break; x.setBit(p, b); if(p < W) m = place(m, p, 1, b); break; }
                case 1: { const unsigned v = unsigned(r.below(256)); if(p / 8 == W / 8 - 1) break; x.setByte(p / 8, (unsigned char)v); if(p / 8 < W / 8) m = place(m, p / 8 * 8, 8, v); break; }
                default: { const u32 v = limbSpecial(r); if(p / 32 == W / 32 - 1) break; x.setBlock(p / 32, v); if(p / 32 < W / 32) m = place(m, p / 32 * 32, 32, v); break; } }
            VEQ("history of setters", val(x), neg ? Z(-m) : m); if(s % 8 == 0) observers<W>(neg ? Z(-m) : m, x); } }
}
VF_MAIN("S06", run)
