#include "vf.hpp"
using namespace vf;
template <size_t W, typename T> void shifts(const Z& a, const Aeu<W>& A, T k) {
    const Z kz = zi(k); C.operand("k", kz); const bool in = kz < Z((unsigned long)W); const size_t s = in ? kz.get_ui() : 0;
    const Z l = in ? mod2(a << s, W) : a, g = in ? Z(a >> s) : a;
    if(!in) FEAT("shift by N or more"); else if(s % 32 == 0) FEAT("block-aligned shift"); else FEAT("unaligned shift");
    VEQ("a<<k", val(A << k), l); VEQ("a>>k", val(A >> k), g);
    { Aeu<W> t = A; VEQ("a<<=k", val(t <<= k), l); VEQ("a after <<=", val(t), l); } { Aeu<W> t = A; VEQ("a>>=k", val(t >>= k), g); VEQ("a after >>=", val(t), g); }
    --C.nops;
}
template <size_t W> void bits(const Z& a, const Z& b) {
    C.operand("a", a); C.operand("b", b); const Aeu<W> A = mk<W>(a), B = mk<W>(b);
    VEQ("~a", val(~A), mod2(-a - 1, W)); VEQ("a&b", val(A & B), a & b); VEQ("a|b", val(A | B), a | b); VEQ("a^b", val(A ^ B), a ^ b);
    { Aeu<W> t = A; VEQ("a&=b", val(t &= B), a & b); VEQ("a after &=", val(t), a & b); } { Aeu<W> t = A; VEQ("a|=b", val(t |= B), a | b); VEQ("a after |=", val(t), a | b); } { Aeu<W> t = A; VEQ("a^=b", val(t ^= B), a ^ b); VEQ("a after ^=", val(t), a ^ b); }
    { Aeu<W> t = A; VEQ("a&=a", val(t &= t), a); VEQ("a|=a", val(t |= t), a); VEQ("a^=a", val(t ^= t), Z(0)); }
}
template <size_t W, typename T> void builtin(const Z& a, T u) {
    const Z z = zi(u); C.operand("u", z); const Aeu<W> A = mk<W>(a); C.note = "u is built-in of " + std::to_string(sizeof(T) * 8) + " bits";
    VEQ("a&u", val(A & u), a & z); VEQ("a|u", val(A | u), a | z); VEQ("a^u", val(A ^ u), a ^ z); VEQ("u&a", val(u & A), a & z); VEQ("u|a", val(u | A), a | z); VEQ("u^a", val(u ^ A), a ^ z);
    { Aeu<W> t = A; VEQ("a&=u", val(t &= u), a & z); } { Aeu<W> t = A; VEQ("a|=u", val(t |= u), a | z); } { Aeu<W> t = A; VEQ("a^=u", val(t ^= u), a ^ z); }
    C.nops = 1;
}
template <size_t W> void run() {
    for(u64 i = 0, e = C.n(W <= 544 ? 30000 : W <= 2048 ? 8000 : 2000); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = genBits(r, W), b = gen2(r, a, W); bits<W>(a, b); }
    for(u64 i = 0, e = C.n(2000); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = genBits(r, W); C.operand("a", a);
#define X(T) builtin<W, T>(a, genInt<T>(r));
        VF_FOR_UNSIGNED(X)
#undef X
    }
    // every shift distance for several values, in every unsigned type that can hold it
    for(size_t k = 0; k < W + 70; ++k) for(u64 v = 0, e = C.n(W <= 544 ? 12 : W <= 2048 ? 4 : 2, 5); v < e; ++v) if(C.begin()) {
        Rng r = C.rng(); const Z a = v == 0 ? Z(pow2(W) - 1) : genBits(r, W); C.operand("a", a); const Aeu<W> A = mk<W>(a);
        shifts<W, unsigned>(a, A, unsigned(k)); shifts<W, unsigned long>(a, A, k); 
        if(k < 256) shifts<W, unsigned char>(a, A, (unsigned char)k); if(k < 65536) shifts<W, unsigned short>(a, A, (unsigned short)k); shifts<W, unsigned long long>(a, A, k);
    }
    FEAT("all shift distances below N+70");
    static const u64 far[] = {0xffffffffffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x100000020ULL, 0x8000000000000000ULL, 0xffffffffULL, 0x80000000ULL, 0x10000, 0xffff};
    for(u64 k: far) for(int v = 0; v < 4; ++v) if(C.begin()) { Rng r = C.rng(); const Z a = genBits(r, W); C.operand("a", a); const Aeu<W> A = mk<W>(a);
        shifts<W, unsigned long>(a, A, k); shifts<W, unsigned long long>(a, A, k + W); if(k <= 0xffffffffULL) shifts<W, unsigned>(a, A, unsigned(k)); if(k <= 0xffff) shifts<W, unsigned short>(a, A, (unsigned short)k); shifts<W, unsigned long>(a, A, W * (k | 1)); }
    for(size_t i = 0; i < W; i += 1 + W / 512) for(size_t k = 0; k < W; k += W > 256 ? 1 + (i * 7 + k) % (W / 24) : 1) if(C.begin()) {      // single bits: where does each bit go
        const Z a = pow2(i); C.operand("a", a); const Aeu<W> A = mk<W>(a); shifts<W, unsigned>(a, A, unsigned(k)); }
}
VF_MAIN("U03", run)
