#include "vf.hpp"
using namespace vf;
template <size_t W> void ops(const Z& a, const Z& b) {
    C.operand("a", a); C.operand("b", b);
    const Aeu<W> A = mk<W>(a), B = mk<W>(b);
    const Z sum = a + b, dif = a - b, pro = a * b;
    if(sgn(dif) < 0) FEAT("difference wrapped"); if(mpz_sizeinbase(sum.get_mpz_t(), 2) > W) FEAT("sum wrapped"); if(mpz_sizeinbase(pro.get_mpz_t(), 2) > W) FEAT("product wrapped");
    { size_t chain = 0; Z carries = (sum ^ a ^ b); for(size_t i = 1; i < W / 32; ++i) if(mpz_tstbit(carries.get_mpz_t(), 32 * i)) ++chain; if(chain) FEAT("carry between blocks"); if(chain == W / 32 - 1) FEAT("carry through all blocks"); }
    VEQ("a+b", val(A + B), mod2(sum, W)); VEQ("a-b", val(A - B), mod2(dif, W)); VEQ("a*b", val(A * B), mod2(pro, W));
    { Aeu<W> t = A; VEQ("a+=b", val(t += B), mod2(sum, W)); VEQ("a after +=", val(t), mod2(sum, W)); }
    { Aeu<W> t = A; VEQ("a-=b", val(t -= B), mod2(dif, W)); VEQ("a after -=", val(t), mod2(dif, W)); }
    { Aeu<W> t = A; VEQ("a*=b", val(t *= B), mod2(pro, W)); VEQ("a after *=", val(t), mod2(pro, W)); }
    VEQ("b-a", val(B - A), mod2(-dif, W)); VEQ("b*a", val(B * A), mod2(pro, W));
}
template <size_t W> void unary(const Z& a) {
    C.operand("a", a); const Aeu<W> A = mk<W>(a);
    VEQ("-a", val(-A), mod2(-a, W)); VEQ("+a", val(+A), a);
    { Aeu<W> t = A; VEQ("++a", val(++t), mod2(a + 1, W)); VEQ("a after ++a", val(t), mod2(a + 1, W)); }
    { Aeu<W> t = A; VEQ("--a", val(--t), mod2(a - 1, W)); VEQ("a after --a", val(t), mod2(a - 1, W)); }
    { Aeu<W> t = A; VEQ("a++", val(t++), a); VEQ("a after a++", val(t), mod2(a + 1, W)); }
    { Aeu<W> t = A; VEQ("a--", val(t--), a); VEQ("a after a--", val(t), mod2(a - 1, W)); }
    { Aeu<W> t = A; VEQ("a+=a", val(t += t), mod2(a + a, W)); } { Aeu<W> t = A; VEQ("a-=a", val(t -= t), Z(0)); } { Aeu<W> t = A; VEQ("a*=a", val(t *= t), mod2(a * a, W)); }
    VEQ("a+a", val(A + A), mod2(a + a, W)); VEQ("a-a", val(A - A), Z(0)); VEQ("a*a", val(A * A), mod2(a * a, W));
}
template <size_t W, typename T> void builtin(const Z& a, T u) {
    const Z z = zi(u); C.operand("u", z); const Aeu<W> A = mk<W>(a); Aeu<W> M = A; C.note = "u is built-in of " + std::to_string(sizeof(T) * 8) + " bits";
    VEQ("a+u", val(A + u), mod2(a + z, W)); VEQ("a-u", val(A - u), mod2(a - z, W)); VEQ("a*u", val(M * u), mod2(a * z, W)); VEQ("const a*u", val(A * u), mod2(a * z, W)); VEQ("a unchanged by a*u", val(M), a);
    VEQ("u+a", val(u + A), mod2(z + a, W)); VEQ("u-a", val(u - A), mod2(z - a, W)); VEQ("u*a", val(u * A), mod2(a * z, W));
    { Aeu<W> t = A; VEQ("a+=u", val(t += u), mod2(a + z, W)); } { Aeu<W> t = A; VEQ("a-=u", val(t -= u), mod2(a - z, W)); } { Aeu<W> t = A; VEQ("a*=u", val(t *= u), mod2(a * z, W)); }
    C.nops = 1;
}
template <size_t W> void run() {
    constexpr size_t n = W / 32;
    if constexpr (W == 96 || W == 128) {             // exhaustive over boundary blocks
        static const u32 d[] = {0, 1, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}; constexpr size_t k = W == 96 ? 6 : 4; static const u32 e[] = {0, 1, 0x80000000u, 0xffffffffu};
        const u32* D = W == 96 ? d : e; size_t tot = 1; for(size_t i = 0; i < n; ++i) tot *= k;
        auto nth = [&](size_t x) { u32 b[n]; for(size_t i = 0; i < n; ++i) { b[i] = D[x % k]; x /= k; } return fromLimbs(b, n); };
        for(size_t i = 0; i < tot; ++i) { const Z a = nth(i); for(size_t j = 0; j < tot; ++j) if(C.begin()) { const Z b = nth(j); ops<W>(a, b); } if(C.begin()) unary<W>(a); }
        FEAT("exhaustive boundary-block square");
    }
    for(u64 i = 0, e = C.n(W <= 512 ? 60000 : W <= 2048 ? 8000 : 1200); i < e; ++i) if(C.begin()) {
        Rng r = C.rng(); const Z a = genBits(r, W), b = gen2(r, a, W); ops<W>(a, b);
    }
    for(u64 i = 0, e = C.n(W <= 2048 ? 12000 : 2500); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = genBits(r, W); unary<W>(a); }
    for(u64 i = 0, e = C.n(W <= 512 ? 12000 : W <= 2048 ? 4000 : 800); i < e; ++i) if(C.begin()) {
        Rng r = C.rng(); const Z a = genBits(r, W); C.operand("a", a);
#define X(T) builtin<W, T>(a, genInt<T>(r));
        VF_FOR_UNSIGNED_ALL(X)
#undef X
    }
}
VF_MAIN("U01", run)
