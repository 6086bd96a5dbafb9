#include "vf.hpp"
using namespace vf;
inline int cmpOf(Comparison c) { return c == Comparison::less ? -1 : c == Comparison::greater ? 1 : 0; }
inline int ordOf(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
#define RELATIONS(L, R, s) do { const int vf_s = (s); VBOOL("==", (L) == (R), vf_s == 0); VBOOL("!=", (L) != (R), vf_s != 0); VBOOL("<", (L) < (R), vf_s < 0); VBOOL("<=", (L) <= (R), vf_s <= 0); VBOOL(">", (L) > (R), vf_s > 0); VBOOL(">=", (L) >= (R), vf_s >= 0); VEQ("<=>", Z(ordOf((L) <=> (R))), Z(vf_s)); } while(0)
template <size_t W, size_t V> void pair(const Z& a, const Z& b) {
    C.operand("a", a); C.operand("b", b); C.note = "widths " + std::to_string(W) + " and " + std::to_string(V); C.opHash(V);
    const Aesi<W> A = mks<W>(a); const Aesi<V> B = mks<V>(b); const int s = sgn(Z(a - b));
    if(s == 0) FEAT("equal"); if(a == -b && s) FEAT("opposite"); if(sgn(a) < 0 && sgn(b) < 0) FEAT("both negative"); if(W != V && s && wrapSigned(a, std::min(W, V)) == wrapSigned(b, std::min(W, V))) FEAT("differ only beyond the narrower width");
    RELATIONS(A, B, s); RELATIONS(B, A, -s); VEQ("compareTo", Z(cmpOf(A.compareTo(B))), Z(s)); VEQ("compareTo reversed", Z(cmpOf(B.compareTo(A))), Z(-s));
}
template <size_t W, typename T> void builtins(Rng& r) {
    const T u = genInt<T>(r); const Z z = zi(u); Z a = z;
    switch(r.below(9)) { case 0: break; case 1: a += 1; break; case 2: a -= 1; break; case 3: a = -a; break; case 4: { Z m = abs(a); mpz_combit(m.get_mpz_t(), r.below(W)); a = sgn(a) < 0 ? Z(-m) : m; break; } case 5: { Z m = mod2(abs(a) + (Z(limbSpecial(r)) << (32 * r.below(W / 32))), W); a = r.coin() ? Z(-m) : m; break; } case 6: a = genSigned(r, W); break; case 7: a = genSigned(r, 70); break; default: { Z m = mod2(abs(a) + pow2(32 * (1 + r.below(W / 32 - 1))), W); a = sgn(a) < 0 ? Z(-m) : m; } }
    C.nops = 0; C.operand("a", a); C.operand("i", z); C.note = std::string("i is ") + (std::is_signed_v<T> ? "signed" : "unsigned") + " of " + std::to_string(sizeof(T) * 8) + " bits";
    const Aesi<W> A = mks<W>(a); const int s = sgn(Z(a - z)); if(s == 0) FEAT("equal to built-in"); if(z < 0 && u == std::numeric_limits<T>::min()) FEAT("most negative built-in");
    RELATIONS(A, u, s); RELATIONS(u, A, -s); VEQ("compareTo(built-in)", Z(cmpOf(A.compareTo(u))), Z(s));
}
template <size_t W, size_t V> void cross(u64 count) {
    for(u64 i = 0; i < count; ++i) if(C.begin()) {
        Rng r = C.rng(); Z a = genBits(r, W); constexpr size_t m = W < V ? W : V; Z b;
        switch(r.below(6)) { case 0: b = mod2(a, V); break; case 1: b = mod2(a, m) + (V > m ? Z(limbSpecial(r)) << (32 * (m / 32 + r.below((V - m) / 32))) : Z(0)); break; case 2: b = related(r, a, V); break; case 3: b = genBits(r, V); break; case 4: b = mod2(a, m); mpz_combit(b.get_mpz_t(), r.below(V)); break; default: b = mod2(a, m) | (genBits(r, V) >> m << m); }
        b = mod2(b, V); if(r.coin(4)) a = mod2(a, m); switch(r.below(5)) { case 0: break; case 1: case 2: a = -a; b = -b; break; case 3: a = -a; break; default: b = -b; } pair<W, V>(a, b);
    }
}
template <size_t W> void run() {
    for(int i = -12; i <= 12; ++i) for(int j = -12; j <= 12; ++j) if(C.begin()) { const Z a = i, b = j; pair<W, W>(a, b); pair<W, W + 32>(a, b); }
    for(u64 i = 0, e = C.n(W <= 1056 ? 30000 : 6000); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = genSigned(r, W), b = genSigned2(r, a, W); pair<W, W>(a, b); }
    for(size_t i = 0; i < W; ++i) for(int k = 0; k < 2; ++k) if(C.begin()) { Rng r = C.rng(); Z a = genBits(r, W); Z b = a; mpz_combit(b.get_mpz_t(), i); if(k) { a = -a; b = -b; } pair<W, W>(a, b); }
    const u64 n = C.n(4000);
    cross<W, 96>(n); cross<W, 128>(n); cross<W, 160>(n); cross<W, 512>(n); cross<W, 544>(n); cross<W, 1024>(n / 2); cross<W, 4096>(n / 4); cross<W, W + 32>(n); if constexpr (W > 96) cross<W, W - 32>(n);
    for(u64 i = 0, e = C.n(12000); i < e; ++i) if(C.begin()) { Rng r = C.rng();
#define X(T) builtins<W, T>(r);
        VF_FOR_INTEGRAL(X)
#undef X
    }
}
VF_MAIN("S05", run)
