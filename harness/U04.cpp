#include "vf.hpp"
using namespace vf;
inline int cmpOf(Comparison c) { return c == Comparison::less ? -1 : c == Comparison::greater ? 1 : 0; }
inline int ordOf(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
#define RELATIONS(L, R, s) do { const int vf_s = (s); VBOOL("==", (L) == (R), vf_s == 0); VBOOL("!=", (L) != (R), vf_s != 0); VBOOL("<", (L) < (R), vf_s < 0); VBOOL("<=", (L) <= (R), vf_s <= 0); VBOOL(">", (L) > (R), vf_s > 0); VBOOL(">=", (L) >= (R), vf_s >= 0); VEQ("<=>", Z(ordOf((L) <=> (R))), Z(vf_s)); } while(0)
template <size_t W, size_t V> void pair(const Z& a, const Z& b) {
    C.operand("a", a); C.operand("b", b); C.note = "widths " + std::to_string(W) + " and " + std::to_string(V); C.opHash(V);
    const Aeu<W> A = mk<W>(a); const Aeu<V> B = mk<V>(b); const int s = sgn(Z(a - b));
    if(W == V) { const Z x = a ^ b; if(x != 0 && mpz_sizeinbase(x.get_mpz_t(), 2) <= 32) FEAT("decided in the lowest block"); } else if(s && mod2(a, std::min(W, V)) == mod2(b, std::min(W, V))) FEAT("differ only beyond the narrower width");
    if(s == 0) FEAT("equal");
    RELATIONS(A, B, s); RELATIONS(B, A, -s);
    VEQ("compareTo", Z(cmpOf(A.compareTo(B))), Z(s)); VEQ("compareTo reversed", Z(cmpOf(B.compareTo(A))), Z(-s));
}
template <size_t W, typename T> void builtin(const Z& a, T u) {
    const Z z = zi(u); C.operand("u", z); C.note = "u is built-in of " + std::to_string(sizeof(T) * 8) + " bits"; const Aeu<W> A = mk<W>(a); const int s = sgn(Z(a - z)); if(s == 0) FEAT("equal to built-in"); else if(mod2(a, sizeof(T) * 8) == z) FEAT("equal to built-in in the low part only");
    RELATIONS(A, u, s); RELATIONS(u, A, -s); VEQ("compareTo(built-in)", Z(cmpOf(A.compareTo(u))), Z(s));
}
template <size_t W, typename T> void builtins(Rng& r) {
    const T u = genInt<T>(r); Z a = zi(u);
    switch(r.below(8)) { case 0: break; case 1: a += 1; break; case 2: if(a > 0) a -= 1; break; case 3: mpz_combit(a.get_mpz_t(), r.below(W)); break; case 4: a += Z(limbSpecial(r)) << (32 * r.below(W / 32)); break; case 5: a = genBits(r, W); break; case 6: a = genBits(r, 70); break; default: a += pow2(32 * (1 + r.below(W / 32 - 1))); }
    C.nops = 0; C.operand("a", a = mod2(a, W)); builtin<W, T>(a, u);
}
template <size_t W, size_t V> void cross(u64 count) {
    for(u64 i = 0; i < count; ++i) if(C.begin()) {
        Rng r = C.rng(); const Z a = genBits(r, W); constexpr size_t m = W < V ? W : V; Z b;
        switch(r.below(6)) { case 0: b = mod2(a, V); break; case 1: b = mod2(a, m) + (V > m ? Z(limbSpecial(r)) << (32 * (m / 32 + r.below((V - m) / 32))) : Z(0)); break; case 2: b = related(r, a, V); break; case 3: b = genBits(r, V); break; case 4: b = mod2(a, m); mpz_combit(b.get_mpz_t(), r.below(V)); break; default: b = mod2(a, m) | (genBits(r, V) >> m << m); }
        b = mod2(b, V); pair<W, V>(a, b);
    }
}
template <size_t W> void run() {
    for(u64 i = 0, e = C.n(W <= 1056 ? 30000 : 6000); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = genBits(r, W), b = gen2(r, a, W); pair<W, W>(a, b); }
    if constexpr (W == 96) { static const u32 d[] = {0, 1, 0x80000000u, 0xfffffffeu, 0xffffffffu}; for(int i = 0; i < 125; ++i) for(int j = 0; j < 125; ++j) if(C.begin()) { u32 x[3] = {d[i % 5], d[i / 5 % 5], d[i / 25]}, y[3] = {d[j % 5], d[j / 5 % 5], d[j / 25]}; const Z a = fromLimbs(x, 3), b = fromLimbs(y, 3); pair<W, W>(a, b); } }
    for(size_t i = 0; i < W; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = genBits(r, W); Z b = a; mpz_combit(b.get_mpz_t(), i); pair<W, W>(a, b); }    // differ in exactly one bit, at every position
    const u64 n = C.n(4000);
    cross<W, 96>(n); cross<W, 128>(n); cross<W, 160>(n); cross<W, 512>(n); cross<W, 544>(n); cross<W, 1024>(n / 2); cross<W, 4096>(n / 4); cross<W, W + 32>(n); if constexpr (W > 96) cross<W, W - 32>(n);
    for(u64 i = 0, e = C.n(12000); i < e; ++i) if(C.begin()) { Rng r = C.rng();
#define X(T) builtins<W, T>(r);
        VF_FOR_UNSIGNED_ALL(X)
#undef X
    }
}
VF_MAIN("U04", run)
