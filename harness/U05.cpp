#include "vf.hpp"
using namespace vf;
// the number sits between guard words, which must neither be written nor leak into reads
template <size_t W> struct Boxed { u32 before[4]; Aeu<W> a; u32 after[4]; void arm(u32 g) { for(int i = 0; i < 4; ++i) before[i] = after[i] = g; } bool intact(u32 g) const { for(int i = 0; i < 4; ++i) { if(const_cast<const volatile u32&>(before[i]) != g || const_cast<const volatile u32&>(after[i]) != g) return false; } return true; } };
template <size_t W> __attribute__((noinline)) void touch(Boxed<W>* b) { asm volatile("" : : "r"(b) : "memory"); }
inline Z place(const Z& a, size_t pos, size_t len, u64 v) { Z m = (pow2(len) - 1) << pos, t; mpz_com(t.get_mpz_t(), m.get_mpz_t()); return (a & t) | (Z((unsigned long)v) << pos); }
template <size_t W> void observers(const Z& a, const Aeu<W>& A) {
    const size_t bl = a == 0 ? 0 : mpz_sizeinbase(a.get_mpz_t(), 2);
    VEQ("bitCount", Z(A.bitCount()), Z(bl)); VEQ("byteCount", Z(A.byteCount()), Z((bl + 7) / 8)); VEQ("filledBlocksNumber", Z(A.filledBlocksNumber()), Z((bl + 31) / 32));
    VBOOL("isOdd", A.isOdd(), mpz_odd_p(a.get_mpz_t()) != 0); VBOOL("isEven", A.isEven(), mpz_odd_p(a.get_mpz_t()) == 0); VBOOL("isZero", A.isZero(), a == 0);
    VEQ("getBitness", Z(A.getBitness()), Z(W)); VEQ("totalBlocksNumber", Z(A.totalBlocksNumber()), Z(W / 32));
}
template <size_t W> void one(const Z& a, size_t i, Rng& r) {     // every accessor at index i
    const u32 guard = r.coin() ? 0xffffffffu : r.coin() ? 0u : 0xa5c3f1b7u; C.operand("a", a); C.note = "index=" + std::to_string(i); C.opHash(i);
    Boxed<W> x; auto put = [&] { x.arm(guard); x.a = mk<W>(a); touch(&x); };
    const bool inBit = i < W, inByte = i < W / 8, inBlock = i < W / 32; if(!inBit) FEAT("bit index out of range"); if(!inByte) FEAT("byte index out of range"); if(!inBlock) FEAT("block index out of range");
    put();
    VBOOL("getBit", x.a.getBit(i), inBit && mpz_tstbit(a.get_mpz_t(), i)); VEQ("getByte", Z(unsigned(x.a.getByte(i))), inByte ? mod2(a >> (8 * i), 8) : Z(0)); VEQ("getBlock", Z(x.a.getBlock(i)), inBlock ? mod2(a >> (32 * i), 32) : Z(0));
    for(bool b: {false, true}) { put(); VEQ("setBit", (x.a.setBit(i, b), touch(&x), val(x.a)), inBit ? place(a, i, 1, b) : a); VOK("setBit keeps neighbours", x.intact(guard)); }
    for(unsigned v: {0u, 255u, unsigned(r.below(256))}) { put(); VEQ("setByte", (x.a.setByte(i, (unsigned char)v), touch(&x), val(x.a)), inByte ? place(a, 8 * i, 8, v) : a); VOK("setByte keeps neighbours", x.intact(guard)); }
    for(u32 v: {0u, 0xffffffffu, u32(r.next())}) { put(); VEQ("setBlock", (x.a.setBlock(i, v), touch(&x), val(x.a)), inBlock ? place(a, 32 * i, 32, v) : a); VOK("setBlock keeps neighbours", x.intact(guard)); }
}
template <size_t W> void run() {
    const size_t lim = W + 40;
    for(size_t i = 0; i < lim; ++i) for(u64 v = 0, e = C.n(W <= 544 ? 10 : W <= 2048 ? 3 : 1, 6); v < e; ++v) if(C.begin()) { Rng r = C.rng(); const Z a = v == 1 ? Z(0) : v == 2 ? Z(pow2(W) - 1) : genBits(r, W); one<W>(a, i, r); }
    FEAT("all indices up to N+40");
    static const size_t far[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 59, size_t(1) << 61, size_t(1) << 62, size_t(1) << 63, 0xffffffffu, 0x80000000u, 65536, 65535};
    for(size_t i: far) for(int v = 0; v < 4; ++v) if(C.begin()) { Rng r = C.rng(); const Z a = genBits(r, W); one<W>(a, i, r); }
    for(size_t k = 0; k <= W; ++k) for(int d = -1; d <= 1; ++d) if(C.begin()) { const Z a = mod2(pow2(k) + d, W); C.operand("a", a); observers<W>(a, mk<W>(a)); }
    for(size_t k = 0; k < W / 32; ++k) for(u32 s: specials) if(C.begin()) { const Z a = mod2(Z(s) << (32 * k), W); C.operand("a", a); observers<W>(a, mk<W>(a)); }
    for(u64 i = 0, e = C.n(W <= 1056 ? 6000 : 1500); i < e; ++i) if(C.begin()) {
        Rng r = C.rng(); const Z a = genBits(r, W), b = gen2(r, a, W); C.operand("a", a); C.operand("b", b); observers<W>(a, mk<W>(a));
        Aeu<W> A = mk<W>(a), B = mk<W>(b); VEQ("swap.first", (A.swap(B), val(A)), b); VEQ("swap.second", val(B), a); B.swap(B); VEQ("swap with itself", val(B), a);
    }
    for(u64 i = 0, e = C.n(W <= 544 ? 60 : 15); i < e; ++i) if(C.begin()) {              // histories of setters against a shadow value
        Rng r = C.rng(); Z a = r.coin() ? Z(0) : genBits(r, W); Boxed<W> x; x.arm(0x5ac35ac3u); x.a = mk<W>(a); touch(&x); const Z start = a; C.operand("start", start);
        for(int s = 0; s < 120; ++s) {
            const size_t p = r.below(W + W / 8); C.opHash(p * 8 + u64(s)); C.note = "step " + std::to_string(s) + " index " + std::to_string(p);
            switch(r.below(5)) {
                case 0: { const bool b = r.coin(); x.a.setBit(p, b); if(p < W) a = place(a, p, 1, b); break; }
                case 1: { const u64 v = r.coin() ? r.below(256) : 255 * r.below(2); x.a.setByte(p / 8, (unsigned char)v); if(p / 8 < W / 8) a = place(a, p / 8 * 8, 8, v); break; }
                case 2: { const u32 v = limbSpecial(r); x.a.setBlock(p / 32, v); if(p / 32 < W / 32) a = place(a, p / 32 * 32, 32, v); break; }
                case 3: { const size_t k = r.coin() ? p : W / 32 + r.below(64); x.a.setBlock(k, 0xffffffffu); if(k < W / 32) a = place(a, 32 * k, 32, 0xffffffffu); break; }
                default: { const size_t k = W / 8 + r.below(12); x.a.setByte(k, 0xff); x.a.setBit(W + r.below(70), true); break; }
            }
            touch(&x); VEQ("history of setters", val(x.a), a); VOK("history keeps neighbours", x.intact(0x5ac35ac3u)); if(s % 8 == 0) observers<W>(a, x.a);
        }
    }
}
VF_MAIN("U05", run)
