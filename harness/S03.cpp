#include "vf.hpp"
using namespace vf;
template <size_t W> void pair(const Z& a, const Z& b, Rng& r) {
    C.operand("a", a); C.operand("b", b); const Aesi<W> A = mks<W>(a), B = mks<W>(b);
    if(b == 0) { FEAT("division by zero"); VEQ("a/0", val(A / B), Z(0)); VEQ("a%0", val(A % B), a); { Aesi<W> t = A; VEQ("a/=0", val(t /= B), Z(0)); } { Aesi<W> t = A; VEQ("a%=0", val(t %= B), a); } return; }
    Z q, m; mpz_tdiv_qr(q.get_mpz_t(), m.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
    if(m == 0) FEAT("exact division"); if(q == 0) FEAT("quotient zero"); if(sgn(a) < 0 && m != 0) FEAT("negative remainder"); if(sgn(b) < 0) FEAT("negative divisor");
    VEQ("a/b", val(A / B), q); VEQ("a%b", val(A % B), m);
    { Aesi<W> t = A; VEQ("a/=b", val(t /= B), q); VEQ("a after /=", val(t), q); } { Aesi<W> t = A; VEQ("a%=b", val(t %= B), m); VEQ("a after %=", val(t), m); }
    Aesi<W> Q = mks<W>(genSigned(r, W)), R = mks<W>(genSigned(r, W)); VEQ("divide.quotient", (Aesi<W>::divide(A, B, Q, R), val(Q)), q); VEQ("divide.remainder", val(R), m);
    VEQ("(a/b)*b+a%b", val(A / B * B + A % B), a);
}
template <size_t W, typename T> void builtin(const Z& a, T u) {
    const Z z = zi(u); C.operand("i", z); C.note = std::string("i is ") + (std::is_signed_v<T> ? "signed" : "unsigned") + " of " + std::to_string(sizeof(T) * 8) + " bits"; const Aesi<W> A = mks<W>(a);
    Z q, m; if(z != 0) mpz_tdiv_qr(q.get_mpz_t(), m.get_mpz_t(), a.get_mpz_t(), z.get_mpz_t()); else FEAT("built-in zero");
    if(z < 0 && z == zi(std::numeric_limits<T>::min())) FEAT("most negative built-in");
    VEQ("a/i", val(A / u), q); VEQ("a%i", val(A % u), m); { Aesi<W> t = A; VEQ("a/=i", val(t /= u), q); VEQ("a after /=i", val(t), q); } { Aesi<W> t = A; VEQ("a%=i", val(t %= u), m); VEQ("a after %=i", val(t), m); }
    Z q2 = 0, m2 = z; if(a != 0) mpz_tdiv_qr(q2.get_mpz_t(), m2.get_mpz_t(), z.get_mpz_t(), a.get_mpz_t()); VEQ("i/a", val(u / A), q2); VEQ("i%a", val(u % A), m2);
}
template <size_t W> void run() {
    if constexpr (W == 96) { static const u32 d[] = {0, 1, 0x80000000u, 0xffffffffu}; auto nth = [&](int i) { u32 x[3] = {d[i % 4], d[i / 4 % 4], d[i / 16]}; return fromLimbs(x, 3); };
        for(int i = 0; i < 64; ++i) for(int j = 0; j < 64; ++j) for(int k = 0; k < 4; ++k) if(C.begin()) { Rng r = C.rng(); Z a = nth(i), b = nth(j); if(k & 1) a = -a; if(k & 2) b = -b; pair<W>(a, b, r); } FEAT("exhaustive boundary-block square"); }
    for(int i = -20; i <= 20; ++i) for(int j = -20; j <= 20; ++j) if(C.begin()) { Rng r = C.rng(); const Z a = i, b = j; pair<W>(a, b, r); }
    constexpr u64 N = W <= 160 ? 12000 : W <= 256 ? 5000 : W <= 416 ? 2000 : W <= 544 ? 1200 : W <= 1056 ? 350 : W <= 2048 ? 60 : W <= 4096 ? 20 : 10;
    for(u64 i = 0, e = C.n(N); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = genSigned(r, W), b = genSigned2(r, a, W); pair<W>(a, b, r); }
    for(u64 i = 0, e = C.n(N); i < e; ++i) if(C.begin()) {     // a = q*b + m by construction
        Rng r = C.rng(); const size_t bl = 1 + r.below(W); Z b = genBits(r, bl), q = genBits(r, W - bl + 1); if(b == 0) b = 1; Z m; switch(r.below(5)) { case 0: case 1: m = 0; break; case 2: m = b - 1; break; default: m = genBits(r, bl) % b; }
        Z a = q * b + m; while(mpz_sizeinbase(a.get_mpz_t(), 2) > W) { q >>= 1; a = q * b + m; } if(r.coin()) a = -a; if(r.coin()) b = -b; pair<W>(a, b, r); }
    for(u64 i = 0, e = C.n(N / 4 + 3); i < e; ++i) {
#define X(T) if(C.begin()) { Rng r = C.rng(); const T u = genInt<T>(r); Z a; switch(r.below(4)) { case 0: a = genSigned(r, W); break; case 1: a = genSigned(r, 70); break; case 2: a = zi(u) * long(r.below(7) - 3) + (long(r.below(3)) - 1); break; default: a = zi(u) * genSigned(r, W - 64); } C.operand("a", a); builtin<W, T>(a, u); }
        VF_FOR_INTEGRAL(X)
#undef X
    }
}
VF_MAIN("S03", run)
