#include "vf.hpp"
using namespace vf;
template <size_t W> void pair(const Z& a, const Z& b) {
    C.operand("a", a); C.operand("b", b); const Aesi<W> A = mks<W>(a), B = mks<W>(b); const Z s = wrapSigned(a + b, W), d = wrapSigned(a - b, W), e = wrapSigned(b - a, W);
    if(sgn(a) * sgn(b) < 0) FEAT("opposite signs"); if(a == -b) FEAT("sum cancels to zero"); if(a == b) FEAT("difference cancels to zero"); if(s != a + b || d != a - b) FEAT("magnitude overflow"); if(s == 0 && a + b != 0) FEAT("overflow to zero"); if(sgn(a) * sgn(b) == 0) FEAT("a zero operand"); if(sgn(s) && sgn(s) != sgn(a)) FEAT("sign of sum from the second operand");
    VEQ("a+b", val(A + B), s); VEQ("b+a", val(B + A), s); VEQ("a-b", val(A - B), d); VEQ("b-a", val(B - A), e);
    { Aesi<W> t = A; VEQ("a+=b", val(t += B), s); VEQ("a after +=", val(t), s); } { Aesi<W> t = A; VEQ("a-=b", val(t -= B), d); VEQ("a after -=", val(t), d); }
}
template <size_t W> void unary(const Z& a) {
    C.operand("a", a); const Aesi<W> A = mks<W>(a); const Z up = wrapSigned(a + 1, W), dn = wrapSigned(a - 1, W);
    VEQ("-a", val(-A), Z(-a)); VEQ("+a", val(+A), a); VEQ("-(-a)", val(-(-A)), a);
    { Aesi<W> t = A; VEQ("inverse", (t.inverse(), val(t)), Z(-a)); VEQ("inverse twice", (t.inverse(), val(t)), a); }
    { Aesi<W> t = A; VEQ("++a", val(++t), up); VEQ("a after ++a", val(t), up); } { Aesi<W> t = A; VEQ("--a", val(--t), dn); VEQ("a after --a", val(t), dn); }
    { Aesi<W> t = A; VEQ("a++", val(t++), a); VEQ("a after a++", val(t), up); } { Aesi<W> t = A; VEQ("a--", val(t--), a); VEQ("a after a--", val(t), dn); }
    VEQ("a+(-a)", val(A + -A), Z(0)); VEQ("a-a", val(A - A), Z(0)); VEQ("a+a", val(A + A), wrapSigned(a + a, W));
}
template <size_t W, typename T> void builtin(const Z& a, T u) {
    const Z z = zi(u); C.operand("i", z); C.note = std::string("i is ") + (std::is_signed_v<T> ? "signed" : "unsigned") + " of " + std::to_string(sizeof(T) * 8) + " bits"; const Aesi<W> A = mks<W>(a); const Z s = wrapSigned(a + z, W), d = wrapSigned(a - z, W), e = wrapSigned(z - a, W);
    VEQ("a+i", val(A + u), s); VEQ("i+a", val(u + A), s); VEQ("a-i", val(A - u), d); VEQ("i-a", val(u - A), e);
    { Aesi<W> t = A; VEQ("a+=i", val(t += u), s); } { Aesi<W> t = A; VEQ("a-=i", val(t -= u), d); }
}
template <size_t W> void run() {
    if constexpr (W == 96) { static const u32 d[] = {0, 1, 0x80000000u, 0xfffffffeu, 0xffffffffu}; auto nth = [&](int i) { u32 x[3] = {d[i % 5], d[i / 5 % 5], d[i / 25]}; return fromLimbs(x, 3); };
        for(int i = 0; i < 125; ++i) for(int j = 0; j < 125; ++j) for(int k = 0; k < 4; ++k) if(C.begin()) { Z a = nth(i), b = nth(j); if(k & 1) a = -a; if(k & 2) b = -b; pair<W>(a, b); } FEAT("exhaustive boundary-block square"); }
    for(int i = -20; i <= 20; ++i) { for(int j = -20; j <= 20; ++j) if(C.begin()) { const Z a = i, b = j; pair<W>(a, b); } if(C.begin()) { const Z a = i; unary<W>(a); } }
    for(u64 i = 0, e = C.n(W <= 512 ? 60000 : W <= 2048 ? 20000 : 5000); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = genSigned(r, W), b = genSigned2(r, a, W); pair<W>(a, b); }
    for(u64 i = 0, e = C.n(W <= 512 ? 20000 : 3000); i < e; ++i) if(C.begin()) {       // at and around the overflow of the magnitude
        Rng r = C.rng(); Z a = genBits(r, W), b = pow2(W) - a + (long(r.below(5)) - 2); if(sgn(b) < 0 || b >= pow2(W)) b = mod2(b, W); switch(r.below(3)) { case 0: a = -a; b = -b; break; case 1: b = -b; break; default: break; } pair<W>(a, b); }
    for(u64 i = 0, e = C.n(W <= 512 ? 30000 : 5000); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = genSigned(r, W); unary<W>(a); }
    for(size_t k = 0; k <= W; ++k) for(int d = -1; d <= 1; ++d) for(int s = 0; s < 2; ++s) if(C.begin()) { Z a = mod2(pow2(k) + d, W); if(s) a = -a; unary<W>(a); }
    for(u64 i = 0, e = C.n(W <= 1056 ? 8000 : 2000); i < e; ++i) {
#define X(T) if(C.begin()) { Rng r = C.rng(); const T u = genInt<T>(r); Z a = r.coin() ? genSigned(r, W) : r.coin() ? genSigned(r, 66) : Z(zi(u) * (r.coin() ? 1 : -1) + (long(r.below(3)) - 1)); C.operand("a", a); builtin<W, T>(a, u); }
        VF_FOR_INTEGRAL(X)
#undef X
    }
}
VF_MAIN("S01", run)
