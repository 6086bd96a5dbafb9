#include "vf.hpp"
#include <new>
using namespace vf;
template <typename N> struct Garbage { alignas(N) unsigned char mem[sizeof(N)]; N* p; explicit Garbage(Rng& r) { const u64 m = r.below(3); for(auto& b: mem) b = m == 0 ? 0xff : m == 1 ? 0xa5 : (unsigned char)r.next(); asm volatile("" : : "r"(mem) : "memory"); p = nullptr; } };
template <typename T> std::string nameOf() { return std::string(std::is_signed_v<T> ? "signed" : "unsigned") + " of " + std::to_string(sizeof(T) * 8) + " bits"; }
template <size_t W, typename T> void from(Rng& r) {
    const T i = genInt<T>(r); const Z z = zi(i); C.resetOperands(); C.operand("i", z); C.note = nameOf<T>(); if(i == std::numeric_limits<T>::min() && z < 0) FEAT("most negative value"); if(i == std::numeric_limits<T>::max()) FEAT("greatest value");
    { Garbage<Aesi<W>> g(r); VF_AT("Aesi(i)"); Aesi<W>* p = new(g.mem) Aesi<W>(i); C.eq(val(*p), z); VBOOL("Aesi(i) == i", *p == i, true); C.eq(val(p->unsignedCast()), abs(z)); }
    { const Aesi<W> a = i; VEQ("Aesi a = i", val(a), z); } { Aesi<W> a = mks<W>(genSigned(r, W)); VEQ("Aesi a = value; a = i", (a = i, val(a)), z); }
    { const Aesi<W> a(i); VEQ("round trip", zi(T(a.template integralCast<T>())), z); }
    if constexpr (std::is_unsigned_v<T>) {
        { Garbage<Aeu<W>> g(r); VF_AT("Aeu(i)"); Aeu<W>* p = new(g.mem) Aeu<W>(i); C.eq(val(*p), z); VBOOL("Aeu(i) == i", *p == i, true); } { const Aeu<W> a = i; VEQ("Aeu a = i", val(a), z); } { Aeu<W> a = mk<W>(genBits(r, W)); VEQ("Aeu a = value; a = i", (a = i, val(a)), z); }
        const Aeu<W> a(i); VEQ("unsigned round trip", zi(T(a.template integralCast<T>())), z);
    }
}
inline Z lowBits(const Z& v, size_t bits, bool isSigned) { Z t = mod2(v, bits); if(isSigned && mpz_tstbit(t.get_mpz_t(), bits - 1)) t -= pow2(bits); return t; }
template <size_t W, typename T> void to(const Aeu<W>& A, const Aesi<W>& S, const Z& m, const Z& z) {
    C.note = "to " + nameOf<T>(); const size_t bits = sizeof(T) * 8; VEQ("Aeu.integralCast", zi(T(A.template integralCast<T>())), lowBits(m, bits, std::is_signed_v<T>)); VEQ("Aesi.integralCast", zi(T(S.template integralCast<T>())), std::is_signed_v<T> ? lowBits(z, bits, true) : lowBits(m, bits, false));
}
template <size_t W> void run() {
    for(u64 i = 0, e = C.n(W <= 1056 ? 15000 : 4000); i < e; ++i) if(C.begin()) { Rng r = C.rng();
#define X(T) from<W, T>(r);
        VF_FOR_INTEGRAL(X)
#undef X
    }
    for(u64 i = 0, e = C.n(W <= 1056 ? 20000 : 4000); i < e; ++i) if(C.begin()) { Rng r = C.rng(); Z m; switch(r.below(4)) { case 0: m = genBits(r, W); break; case 1: m = genBits(r, 66); break; case 2: { const size_t k = r.below(66); m = pow2(k) + (long(r.below(3)) - 1); break; } default: { m = (genBits(r, W) << 64) + edges64[r.below(sizeof edges64 / sizeof *edges64)]; } } m = mod2(m, W); const Z z = r.coin() ? Z(-m) : m; C.operand("value", z); if(m >= pow2(64)) FEAT("value above 64 bits"); const Aeu<W> A = mk<W>(m); const Aesi<W> S = mks<W>(z);
#define X(T) if constexpr (!std::is_same_v<T, bool>) to<W, T>(A, S, m, z);
        VF_FOR_INTEGRAL(X)
#undef X
    }
}
VF_MAIN("C05", run)
