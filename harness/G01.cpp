// Compiled in emulated CUDA mode: the individually defined relational operators and the atomic-like members against the oracle.
#include "vf.hpp"
#ifndef __CUDACC__
#error this monitor needs CUDA mode
#endif
using namespace vf;
template <size_t W, typename T> void unsignedMixed(const Aeu<W>& A, const Z& a, T i) { const Z z = zi(i); C.operand("i", z); VBOOL("u a==i", A == i, a == z); VBOOL("u a!=i", A != i, a != z); VBOOL("u a<i", A < i, a < z); VBOOL("u a<=i", A <= i, a <= z); VBOOL("u a>i", A > i, a > z); VBOOL("u a>=i", A >= i, a >= z); C.resetOperands(2); }
template <size_t W, typename T> void signedMixed(const Aesi<W>& A, const Z& a, T i) { const Z z = zi(i); C.operand("i", z); VBOOL("s a==i", A == i, a == z); VBOOL("s a!=i", A != i, a != z); VBOOL("s a<i", A < i, a < z); VBOOL("s a<=i", A <= i, a <= z); VBOOL("s a>i", A > i, a > z); VBOOL("s a>=i", A >= i, a >= z); C.resetOperands(2); }
template <class N> struct Cell { u32 before[4]; N n; u32 after[4]; };
template <class N> bool intact(const Cell<N>& c, u32 g) { for(int i = 0; i < 4; ++i) if(c.before[i] != g || c.after[i] != g) return false; return true; }
template <class N> void atomics(const N& A, const N& B, const Z& a, const Z& b, const char* setName) {
    Cell<N> x, y; for(int i = 0; i < 4; ++i) { x.before[i] = x.after[i] = 0x1badb002u; y.before[i] = y.after[i] = 0x600dcafeu; } x.n = A; y.n = B;
    VF_AT(setName); x.n.tryAtomicSet(y.n); C.eq(val(x.n), b); if(!C.stop) C.eq(val(y.n), b); x.n = A; 
    if(C.stop) return; VF_AT("tryAtomicExchange first"); x.n.tryAtomicExchange(y.n); C.eq(val(x.n), b); if(C.stop) return; VF_AT("tryAtomicExchange second"); C.eq(val(y.n), a);
    if(C.stop) return; VF_AT("tryAtomicExchange back"); x.n.tryAtomicExchange(y.n); C.eq(val(x.n), a); if(!C.stop) C.eq(val(y.n), b);
    if(C.stop) return; VF_AT("tryAtomicSet from itself"); x.n.tryAtomicSet(x.n); C.eq(val(x.n), a); if(C.stop) return; VF_AT("numbers behave after atomic members"); x.n.tryAtomicSet(y.n); N s = x.n; s += A; N t = B; t += A; if(!(s == t) || s != t || s < t || s > t) C.fail("a set number does not behave like its source");
    VOK("neighbours of atomic members intact", intact(x, 0x1badb002u) && intact(y, 0x600dcafeu));
}
template <size_t W> void unsignedCase(const Z& a, const Z& b, Rng& r) {
    C.operand("a", a); C.operand("b", b); const Aeu<W> A = mk<W>(a), B = mk<W>(b); if(a == b) FEAT("equal operands");
    VBOOL("u a==b", A == B, a == b); VBOOL("u a!=b", A != B, a != b); VBOOL("u a<b", A < B, a < b); VBOOL("u a<=b", A <= B, a <= b); VBOOL("u a>b", A > B, a > b); VBOOL("u a>=b", A >= B, a >= b); VOK("u compareTo", A.compareTo(B) == (a < b ? Comparison::less : a > b ? Comparison::greater : Comparison::equal));
    unsignedMixed<W>(A, a, genInt<unsigned char>(r)); unsignedMixed<W>(A, a, genInt<unsigned short>(r)); unsignedMixed<W>(A, a, genInt<unsigned>(r)); unsignedMixed<W>(A, a, genInt<unsigned long>(r)); unsignedMixed<W>(A, a, genInt<unsigned long long>(r));
    { unsigned long low = 0; const Z lo = mod2(a, 64); mpz_export(&low, nullptr, -1, 8, 0, 0, lo.get_mpz_t()); unsignedMixed<W>(A, a, low); unsignedMixed<W>(A, a, low + 1); unsignedMixed<W>(A, a, unsigned(low)); }
    atomics<Aeu<W>>(A, B, a, b, "u tryAtomicSet");
}
template <size_t W> void signedCase(const Z& a, const Z& b, Rng& r) {
    C.operand("a", a); C.operand("b", b); const Aesi<W> A = mks<W>(a), B = mks<W>(b);
    VBOOL("s a==b", A == B, a == b); VBOOL("s a!=b", A != B, a != b); VBOOL("s a<b", A < B, a < b); VBOOL("s a<=b", A <= B, a <= b); VBOOL("s a>b", A > B, a > b); VBOOL("s a>=b", A >= B, a >= b); VOK("s compareTo", A.compareTo(B) == (a < b ? Comparison::less : a > b ? Comparison::greater : Comparison::equal));
    signedMixed<W>(A, a, genInt<signed char>(r)); signedMixed<W>(A, a, genInt<short>(r)); signedMixed<W>(A, a, genInt<int>(r)); signedMixed<W>(A, a, genInt<long>(r)); signedMixed<W>(A, a, genInt<long long>(r)); signedMixed<W>(A, a, genInt<unsigned>(r)); signedMixed<W>(A, a, genInt<unsigned long>(r)); signedMixed<W>(A, a, genInt<unsigned char>(r));
    { unsigned long low = 0; const Z lo = mod2(abs(a), 63); mpz_export(&low, nullptr, -1, 8, 0, 0, lo.get_mpz_t()); signedMixed<W>(A, a, long(low)); signedMixed<W>(A, a, -long(low)); signedMixed<W>(A, a, low); }
    atomics<Aesi<W>>(A, B, a, b, "s tryAtomicSet");
}
template <size_t W> void run() {
    constexpr u64 N = W <= 544 ? 6000 : W <= 1056 ? 3000 : 800;
    for(u64 i = 0, e = C.n(N); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = r.coin(10) ? Z(0) : genBits(r, W), b = gen2(r, a, W); unsignedCase<W>(a, b, r); }
    for(u64 i = 0, e = C.n(N); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z a = r.coin(10) ? Z(0) : genSigned(r, W), b = r.coin(10) ? Z(0) : r.coin(6) ? Z(-a) : genSigned2(r, a, W); signedCase<W>(a, b, r); }
}
VF_MAIN("G01", run)
