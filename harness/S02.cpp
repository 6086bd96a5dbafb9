#include "vf.hpp"
using namespace vf;
template <size_t W> void pair(const Z& a, const Z& b) {
    C.operand("a", a); C.operand("b", b); const Aesi<W> A = mks<W>(a), B = mks<W>(b); const Z p = wrapSigned(a * b, W);
    if(p != a * b) FEAT("magnitude overflow"); if(p == 0 && a * b != 0) FEAT("overflow to zero"); if(a * b == 0) FEAT("a zero operand"); if(sgn(p) < 0) FEAT("negative product");
    VEQ("a*b", val(A * B), p); VEQ("b*a", val(B * A), p); { Aesi<W> t = A; VEQ("a*=b", val(t *= B), p); VEQ("a after *=", val(t), p); }
    VEQ("(-a)*b", val(-A * B), Z(-p));
}
template <size_t W, typename T> void builtin(const Z& a, T u) {
    const Z z = zi(u); C.operand("i", z); C.note = std::string("i is ") + (std::is_signed_v<T> ? "signed" : "unsigned") + " of " + std::to_string(sizeof(T) * 8) + " bits"; const Aesi<W> A = mks<W>(a); const Z p = wrapSigned(a * z, W);
    if(z == Z(zi(std::numeric_limits<T>::min())) && z < 0) FEAT("most negative built-in"); if(mpz_sizeinbase(z.get_mpz_t(), 2) > 32) FEAT("built-in above 32 bits");
    VEQ("a*i", val(A * u), p); VEQ("i*a", val(u * A), p); { Aesi<W> t = A; VEQ("a*=i", val(t *= u), p); VEQ("a after *=i", val(t), p); }
}
template <size_t W> void run() {
    if constexpr (W == 96) { static const u32 d[] = {0, 1, 0x80000000u, 0xfffffffeu, 0xffffffffu}; auto nth = [&](int i) { u32 x[3] = {d[i % 5], d[i / 5 % 5], d[i / 25]}; return fromLimbs(x, 3); };
        for(int i = 0; i < 125; ++i) for(int j = 0; j < 125; ++j) for(int k = 0; k < 4; ++k) if(C.begin()) { Z a = nth(i), b = nth(j); if(k & 1) a = -a; if(k & 2) b = -b; pair<W>(a, b); } FEAT("exhaustive boundary-block square"); }
    for(int i = -20; i <= 20; ++i) for(int j = -20; j <= 20; ++j) if(C.begin()) { const Z a = i, b = j; pair<W>(a, b); }
    for(u64 i = 0, e = C.n(W <= 512 ? 60000 : W <= 2048 ? 6000 : 800); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = genSigned(r, W), b = genSigned2(r, a, W); pair<W>(a, b); }
    for(u64 i = 0, e = C.n(W <= 512 ? 30000 : W <= 2048 ? 6000 : 800); i < e; ++i) if(C.begin()) {   // products around 2^N and with zero low part
        Rng r = C.rng(); const size_t k = r.below(W + 1); Z a = r.coin() ? genBits(r, k) : Z(pow2(k) - (k == W)), b = r.coin() ? genBits(r, W - k) : mod2(pow2(W - k) + (long(r.below(3)) - 1), W); if(r.coin(4)) { a = mod2(genBits(r, W) << k, W); b = mod2(genBits(r, W) << (W - k), W); } if(r.coin()) a = -a; if(r.coin()) b = -b; pair<W>(a, b); }
    for(u64 i = 0, e = C.n(W <= 1056 ? 8000 : 1000); i < e; ++i) {
#define X(T) if(C.begin()) { Rng r = C.rng(); const T u = genInt<T>(r); Z a = r.coin() ? genSigned(r, W) : r.coin() ? genSigned(r, 70) : genSigned(r, W - sizeof(T) * 8); C.operand("a", a); builtin<W, T>(a, u); }
        VF_FOR_INTEGRAL(X)
#undef X
    }
}
VF_MAIN("S02", run)
