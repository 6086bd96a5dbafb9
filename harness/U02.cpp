#include "vf.hpp"
using namespace vf;
template <size_t W> void ops(const Z& a, const Z& b, Rng& r) {
    C.operand("a", a); C.operand("b", b);
    const Aeu<W> A = mk<W>(a), B = mk<W>(b);
    Z q, m; mpz_fdiv_qr(q.get_mpz_t(), m.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
    if(m == 0) FEAT("exact division"); if(m == b - 1) FEAT("remainder = divisor-1"); if(q == 0) FEAT("dividend below divisor"); if(q == 1) FEAT("quotient 1"); if(mpz_tstbit(b.get_mpz_t(), W - 1)) FEAT("divisor with top bit"); if(mpz_sizeinbase(b.get_mpz_t(), 2) <= 32) FEAT("one-block divisor");
    { Aeu<W> Q = mk<W>(genBits(r, W)), R = mk<W>(genBits(r, W)); VEQ("divide(a,b,q,r).q", (Aeu<W>::divide(A, B, Q, R), val(Q)), q); VEQ("divide(a,b,q,r).r", val(R), m); }
    { VF_AT("divide(a,b)"); const auto p = Aeu<W>::divide(A, B); VEQ("divide(a,b).first", val(p.first), q); VEQ("divide(a,b).second", val(p.second), m); }
    VEQ("a/b", val(A / B), q); VEQ("a%b", val(A % B), m);
    { Aeu<W> t = A; VEQ("a/=b", val(t /= B), q); VEQ("a after /=", val(t), q); }
    { Aeu<W> t = A; VEQ("a%=b", val(t %= B), m); VEQ("a after %=", val(t), m); }
}
template <size_t W, typename T> void builtin(const Z& a, T u) {
    const Z z = zi(u); C.operand("u", z); const Aeu<W> A = mk<W>(a); C.note = "u is built-in of " + std::to_string(sizeof(T) * 8) + " bits";
    if(u != 0) { const Z q = a / z, m = a % z; VEQ("a/u", val(A / u), q); VEQ("a%u", val(A % u), m); { Aeu<W> t = A; VEQ("a/=u", val(t /= u), q); } { Aeu<W> t = A; VEQ("a%=u", val(t %= u), m); } }
    if(a != 0) { VEQ("u/a", val(u / A), z / a); VEQ("u%a", val(u % A), z % a); }
    C.nops = 1;
}
template <size_t W> void run() {
    constexpr size_t n = W / 32;
    if constexpr (W == 96 || W == 128) {
        static const u32 d[] = {0, 1, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}; constexpr size_t k = W == 96 ? 6 : 4; static const u32 e[] = {0, 1, 0x80000000u, 0xffffffffu};
        const u32* D = W == 96 ? d : e; size_t tot = 1; for(size_t i = 0; i < n; ++i) tot *= k;
        auto nth = [&](size_t x) { u32 b[n]; for(size_t i = 0; i < n; ++i) { b[i] = D[x % k]; x /= k; } return fromLimbs(b, n); };
        for(size_t i = 0; i < tot; ++i) { const Z a = nth(i); for(size_t j = 0; j < tot; ++j) if(C.begin()) { const Z b = nth(j); Rng r = C.rng(); if(b != 0) ops<W>(a, b, r); } }
        FEAT("exhaustive boundary-block square");
    }
    constexpr u64 N = W <= 160 ? 12000 : W <= 256 ? 5000 : W <= 416 ? 2000 : W <= 544 ? 1200 : W <= 1056 ? 350 : W <= 2048 ? 60 : W <= 4096 ? 24 : 14;
    for(u64 i = 0, e = C.n(N); i < e; ++i) if(C.begin()) {
        Rng r = C.rng(); Z a = genBits(r, W), b = gen2(r, a, W); if(b == 0) b = 1 + r.below(3);
        ops<W>(a, b, r);
    }
    for(u64 i = 0, e = C.n(N); i < e; ++i) if(C.begin()) {     // a = q*b + r by construction
        Rng r = C.rng(); const size_t bl = 1 + r.below(W); Z b = genBits(r, bl), q = genBits(r, W - bl + 1); if(b == 0) b = 1;
        Z m; switch(r.below(5)) { case 0: m = 0; break; case 1: m = b - 1; break; case 2: m = b == 1 ? 0 : 1; break; default: m = genBits(r, bl) % b; }
        Z a = q * b + m; while(mpz_sizeinbase(a.get_mpz_t(), 2) > W) { q >>= 1; a = q * b + m; }
        ops<W>(a, b, r);
    }
    for(u64 i = 0, e = C.n(N / 2 + 5); i < e; ++i) if(C.begin()) {
        Rng r = C.rng(); const Z a = genBits(r, W); C.operand("a", a);
#define X(T) builtin<W, T>(a, genInt<T>(r));
        VF_FOR_UNSIGNED(X)
#undef X
    }
    for(size_t k = 0; k < W; k += W > 1056 ? 61 : W > 256 ? 7 : 1) if(C.begin()) { Rng r = C.rng(); Z a = genBits(r, W), b = pow2(k) + (r.coin() ? 0 : r.coin() || k == 0 ? 1 : -1); ops<W>(a, b, r); }   // every divisor length
}
VF_MAIN("U02", run)
