#include "vf.hpp"
#include <sstream>
#include <string>
#include <utility>
using namespace vf;
// Operands live between guard words; after every operation all of them must be byte-identical to their snapshots.
template <class N> struct Arena { u32 g0[6]; N a; u32 g1[6]; N b; u32 g2[6]; N m; u32 g3[6]; N t; u32 g4[6]; N q; u32 g5[6]; unsigned long long i; u32 g6[6]; };
template <class N> struct Watch {
    Arena<N>& A; Arena<N> snap;
    explicit Watch(Arena<N>& x) : A(x) { std::memcpy((void*)&snap, (const void*)&x, sizeof x); }
    static bool same(const void* p, const void* q, size_t n) { return std::memcmp(p, q, n) == 0; }
    // mask: which of t (1) and q (2) the operation may change
    void check(unsigned mask) {
        const auto z = [](const N& n) { return C.hex(val(n)); };
        if(!same(&A.a, &snap.a, sizeof(N))) C.fail("operand a changed to " + z(A.a)); if(!same(&A.b, &snap.b, sizeof(N))) C.fail("operand b changed to " + z(A.b)); if(!same(&A.m, &snap.m, sizeof(N))) C.fail("operand m changed to " + z(A.m)); if(A.i != snap.i) C.fail("built-in operand changed");
        if(!(mask & 1) && !same(&A.t, &snap.t, sizeof(N))) C.fail("t changed although the operation does not write it"); if(!(mask & 2) && !same(&A.q, &snap.q, sizeof(N))) C.fail("q changed although the operation does not write it");
        if(!same(A.g0, snap.g0, 24) || !same(A.g1, snap.g1, 24) || !same(A.g2, snap.g2, 24) || !same(A.g3, snap.g3, 24) || !same(A.g4, snap.g4, 24) || !same(A.g5, snap.g5, 24) || !same(A.g6, snap.g6, 24)) C.fail("memory next to an operand changed");
        if(C.stop) return; snap.t = A.t; snap.q = A.q; std::memcpy((void*)&snap, (const void*)&A, sizeof A);
    }
};
template <class T> void sink(const T& t) { volatile unsigned char c = *reinterpret_cast<const unsigned char*>(&t); (void)c; }
#define P(name, expr) do { if(C.stop) return; VF_AT(name); { auto&& vf_x = (expr); sink(vf_x); } w.check(0); } while(0)
#define Q(name, mask, stmt) do { if(C.stop) return; VF_AT(name); { stmt; } w.check(mask); } while(0)
#define SAME(name, x, y) do { if(C.stop) return; VF_AT(name); const Z vf_p = val(x), vf_q = val(y); if(vf_p != vf_q) C.fail("got " + C.hex(vf_p) + " but with separate equal objects " + C.hex(vf_q)); } while(0)
// compound operator: aliased application equals application to an equal copy, returns its own left operand, leaves the right one alone
#define COMPOUND(name, op, guard) do { if(C.stop) return; if(guard) { N s = x.a, u = x.a, c = x.a; s op s; u op c; SAME(name " with itself", s, u); SAME(name " right operand", c, x.a); \
    x.t = x.a; w.check(1); VF_AT(name " returns its left operand"); if(static_cast<const void*>(&(x.t op x.b)) != static_cast<const void*>(&x.t)) C.fail("the result is not the left operand itself"); w.check(1); \
    if constexpr (true) { N v = x.a; (v op x.b) += x.m; N y = x.a; y op x.b; y += x.m; SAME(name " chained", v, y); N k = x.a; k = k op x.b; N k2 = x.a; k2 op x.b; SAME("a = a " name, k, k2); } } } while(0)
template <size_t W, class N, bool sgnd> void common(Arena<N>& x, Watch<N>& w, Rng& r) {
    P("a+b", x.a + x.b); P("a-b", x.a - x.b); P("a*b", x.a * x.b); P("-a", -x.a); P("+a", +x.a);
    if(sgnd || !x.b.isZero()) { P("a/b", x.a / x.b); P("a%b", x.a % x.b); Q("divide(a, b, t, q)", 3, N::divide(x.a, x.b, x.t, x.q)); }
    P("a==b", x.a == x.b); P("a!=b", x.a != x.b); P("a<b", x.a < x.b); P("a>=b", x.a >= x.b); P("a<=>b", (x.a <=> x.b) < 0); P("compareTo", x.a.compareTo(x.b)); P("isZero", x.a.isZero()); P("isOdd", x.a.isOdd()); P("isEven", x.a.isEven()); P("bitCount", x.a.bitCount()); P("byteCount", x.a.byteCount()); P("filledBlocksNumber", x.a.filledBlocksNumber());
    const size_t k = r.below(W + 80); P("getBit", x.a.getBit(k)); P("getByte", x.a.getByte(k / 4)); P("getBlock", x.a.getBlock(k / 16));
    Q("setBit", 1, x.t.setBit(k, r.coin())); Q("setByte", 1, x.t.setByte(k / 4, (unsigned char)r.next())); Q("setBlock", 1, x.t.setBlock(k / 16, u32(r.next())));
    Q("setBit at the end", 1, x.t.setBit(W, true)); Q("setByte at the end", 1, x.t.setByte(W / 8, 0xa5)); Q("setBlock at the end", 1, x.t.setBlock(W / 32, 0x5aa5a55au));
    Q("swap", 3, x.t.swap(x.q)); { N s = x.a; s.swap(s); SAME("swap with itself", s, x.a); } { N s = x.a; N& al = s; s = al; SAME("assignment to itself", s, x.a); }
    Q("assignment", 1, x.t = x.a); SAME("assigned value", x.t, x.a); Q("change of a copy", 1, x.t += x.b); { N c = x.a; const Z before = val(c); N d = c; ++d; ++d; SAME("copy after changing its copy", c, x.a); N e(c); c -= x.b; SAME("copy construction independent of the original", e, x.a); }
    if(W <= 544 || r.coin(6)) P("squareRoot", x.a.squareRoot()); P("precisionCast", x.a.template precisionCast<W + 64>()); P("precisionCast narrower", x.a.template precisionCast<W - 32>()); P("integralCast", x.a.template integralCast<long>());
    x.t = x.a; w.check(1); Q("++t", 1, if(&++x.t != &x.t) C.fail("the result is not the operand itself")); Q("--t", 1, if(&--x.t != &x.t) C.fail("the result is not the operand itself")); if(!sgnd) SAME("++ then --", x.t, x.a); x.t = x.a; w.check(1); Q("t++", 1, x.t++); Q("t--", 1, x.t--); if(!sgnd) SAME("t++ then t--", x.t, x.a);
    P("a+a", x.a + x.a); P("a-a", x.a - x.a); P("a*a", x.a * x.a); { const N c = x.a; SAME("a+a with itself", x.a + x.a, x.a + c); SAME("a-a with itself", x.a - x.a, x.a - c); SAME("a*a with itself", x.a * x.a, x.a * c); if(sgnd || !c.isZero()) { SAME("a/a with itself", x.a / x.a, x.a / c); SAME("a%a with itself", x.a % x.a, x.a % c); N q1{}, m1{}, q2{}, m2{}; N::divide(x.a, x.a, q1, m1); N::divide(x.a, c, q2, m2); SAME("divide(a, a) quotient", q1, q2); SAME("divide(a, a) remainder", m1, m2); }
        VBOOL("a==a", x.a == x.a, true); VBOOL("a<a", x.a < x.a, false); VBOOL("a<=a", x.a <= x.a, true); VBOOL("a>a", x.a > x.a, false); VBOOL("a!=a", x.a != x.a, false); VOK("compareTo(a)", x.a.compareTo(x.a) == Comparison::equal); }
    COMPOUND("+=", +=, true); COMPOUND("-=", -=, true); COMPOUND("*=", *=, true); COMPOUND("/=", /=, sgnd || (!x.a.isZero() && !x.b.isZero())); COMPOUND("%=", %=, sgnd || (!x.a.isZero() && !x.b.isZero()));
    { N d = x.a; d = d + d; SAME("a = a + a", d, x.a + x.a); d = x.a; d = x.b - d; SAME("a = b - a", d, x.b - x.a); d = x.a; d = d * d; SAME("a = a * a", d, x.a * x.a); d = x.a; d = -d; SAME("a = -a", d, -x.a); d = x.a; if(sgnd || !x.b.isZero()) { d = d / x.b; SAME("a = a / b", d, x.a / x.b); d = x.a; d = d % x.b; SAME("a = a % b", d, x.a % x.b); } if(sgnd || !x.a.isZero()) { d = x.a; d = x.b / d; SAME("a = b / a", d, x.b / x.a); d = x.a; d = x.b % d; SAME("a = b % a", d, x.b % x.a); } if(W <= 544) { d = x.a; d = d.squareRoot(); SAME("a = a.squareRoot()", d, x.a.squareRoot()); } }
    // built-in operands as lvalues of their own
    { unsigned u = unsigned(x.i); unsigned char c = (unsigned char)x.i; unsigned short s = (unsigned short)x.i; unsigned long l = x.i; const unsigned u0 = u; const unsigned char c0 = c; const unsigned short s0 = s; const unsigned long l0 = l;
      P("a+i", x.a + u); P("a-i", x.a - c); P("a*i", x.a * s); P("a*i wide", x.a * l); P("a*i byte", x.a * c); if(u) { P("a/i", x.a / u); P("a%i", x.a % u); } if(l) { P("a/i wide", x.a / l); P("a%i wide", x.a % l); } P("a==i", x.a == u); P("a<i", x.a < l); P("a>i", x.a > s); P("i+a", l + x.a); P("i-a", u - x.a); P("i*a", s * x.a); P("a+i wide", x.a + x.i); P("a-i wide", x.a - x.i);
      x.t = x.a; w.check(1); Q("t+=i", 1, if(&(x.t += u) != &x.t) C.fail("the result is not the left operand")); Q("t-=i", 1, if(&(x.t -= l) != &x.t) C.fail("the result is not the left operand")); Q("t*=i", 1, if(&(x.t *= l) != &x.t) C.fail("the result is not the left operand")); Q("t*=i byte", 1, x.t *= c); Q("t=i", 1, if(&(x.t = s) != &x.t) C.fail("the result is not the left operand"));
      VOK("built-in operands unchanged", u == u0 && c == c0 && s == s0 && l == l0); }
    // output
    { const size_t n = r.coin(4) ? r.below(12) : W + 12; std::vector<char> buf(n + 1, 'x'); P("getString<16>", x.a.template getString<16>(buf.data(), n, r.coin())); if(W <= 416) P("getString<10>", x.a.template getString<10>(buf.data(), n, r.coin())); if(W <= 416) P("getString<2>", x.a.template getString<2>(buf.data(), n, r.coin())); if(W <= 416) P("getString<8>", x.a.template getString<8>(buf.data(), n, r.coin())); }
    { std::ostringstream os; P("<< hex", os << std::hex << x.a); if(W <= 416) { P("<< dec", os << std::dec << x.a); P("<< oct", os << std::oct << x.a); } }
    { std::string s = "0x1fE,-zz9"; const std::string s0 = s; N n1(s); N n2(std::string_view{s}); N n3(s.data(), s.size()); VOK("text unchanged", s == s0); sink(n1); sink(n2); sink(n3); w.check(0); }
}
template <size_t W> void unsignedCase(Rng& r) {
    using N = Aeu<W>; const Z a = genBits(r, W), b = gen2(r, a, W), m = genBits(r, W); C.operand("a", a); C.operand("b", b); C.operand("m", m); Arena<N> x; std::memset((void*)&x, 0xc3, sizeof x); x.a = mk<W>(a); x.b = mk<W>(b); x.m = mk<W>(m); x.t = mk<W>(a); x.q = mk<W>(b); x.i = genInt<unsigned long long>(r); Watch<N> w(x);
    common<W, N, false>(x, w, r); if(C.stop) return;
    P("~a", ~x.a); P("a&b", x.a & x.b); P("a|b", x.a | x.b); P("a^b", x.a ^ x.b); COMPOUND("&=", &=, true); COMPOUND("|=", |=, true); COMPOUND("^=", ^=, true);
    { unsigned k = unsigned(r.below(W + 40)); const unsigned k0 = k; P("a<<k", x.a << k); P("a>>k", x.a >> k); x.t = x.a; w.check(1); Q("t<<=k", 1, if(&(x.t <<= k) != &x.t) C.fail("the result is not the left operand")); Q("t>>=k", 1, if(&(x.t >>= k) != &x.t) C.fail("the result is not the left operand")); VOK("shift count unchanged", k == k0); N d = x.a; d = d << k; SAME("a = a << k", d, x.a << k); d = x.a; d = d >> k; SAME("a = a >> k", d, x.a >> k); d = x.a; d = ~d; SAME("a = ~a", d, ~x.a); }
    if(!x.b.isZero()) { P("divide(a, b)", N::divide(x.a, x.b)); }
    if(W <= 1056 || r.coin(8)) {
        P("gcd(a, b)", N::gcd(x.a, x.b)); Q("gcd(a, b, t, q)", 3, N::gcd(x.a, x.b, x.t, x.q)); P("lcm", (x.a.isZero() || x.b.isZero()) ? N{} : N::lcm(x.a, x.b));
        { const N c = x.a; SAME("gcd(a, a)", N::gcd(x.a, x.a), N::gcd(x.a, c)); N p{}, q{}, s{}, t{}; SAME("gcd(a, a, x, y)", N::gcd(x.a, x.a, p, q), N::gcd(x.a, c, s, t)); SAME("gcd(a, a) coefficient x", p, s); SAME("gcd(a, a) coefficient y", q, t); if(!c.isZero()) SAME("lcm(a, a)", N::lcm(x.a, x.a), N::lcm(x.a, c)); if(!x.b.isZero()) { N d = x.a; d = N::gcd(d, x.b); SAME("a = gcd(a, b)", d, N::gcd(x.a, x.b)); } }
        if(W <= 544 || r.coin(6)) { const Z mm = m >> (W / 2), ee = b >> (W > 64 ? W - 48 : 0); if(mm != 0) { x.m = mk<W>(mm); x.b = mk<W>(ee); Watch<N> w2(x); { Watch<N>& w = w2; P("powm", N::powm(x.a, x.b, x.m)); const auto e2 = x.b.template precisionCast<W + 32>(); P("powm other precision", N::template powm<W + 32>(x.a, e2, x.m)); VOK("exponent of other precision unchanged", e2 == x.b.template precisionCast<W + 32>()); const N c = x.m, d = x.m; SAME("powm(m, m, m)", N::powm(x.m, x.m, x.m), N::powm(c, d, x.m)); SAME("powm(b, b, m)", N::powm(x.b, x.b, x.m), N::powm(N(x.b), x.b, x.m)); N e = x.b; e = N::powm(x.a, e, x.m); SAME("e = powm(a, e, m)", e, N::powm(x.a, x.b, x.m)); e = x.m; e = N::powm(x.a, x.b, e); SAME("m = powm(a, e, m)", e, N::powm(x.a, x.b, x.m)); } } }
    }
    x.b = mk<W>(b); { Watch<N> w(x); std::stringstream ss; P("writeBinary", (x.a.writeBinary(ss, r.coin()), 0)); Q("readBinary", 1, x.t.readBinary(ss, r.coin())); }
}
template <size_t W> void signedCase(Rng& r) {
    using N = Aesi<W>; const Z a = r.coin(12) ? Z(0) : genSigned(r, W), b = r.coin(12) ? Z(0) : genSigned2(r, a, W), m = genSigned(r, W); C.operand("a", a); C.operand("b", b); C.operand("m", m); Arena<N> x; std::memset((void*)&x, 0x3c, sizeof x); x.a = mks<W>(a); x.b = mks<W>(b); x.m = mks<W>(m); x.t = mks<W>(a); x.q = mks<W>(b); x.i = genInt<unsigned long long>(r); Watch<N> w(x);
    common<W, N, true>(x, w, r); if(C.stop) return;
    P("isPositive", x.a.isPositive()); P("isNegative", x.a.isNegative()); P("unsignedCast", x.a.unsignedCast()); { auto u = x.a.unsignedCast(); ++u; u.setBlock(0, 77); w.check(0); } { N c = x.a; c.inverse(); Q("inverse of a copy", 0, c.inverse()); SAME("inverse twice", c, x.a); }
    { int u = int(x.i); signed char c = (signed char)x.i; short s = short(x.i); long l = long(x.i); const int u0 = u; const signed char c0 = c; const short s0 = s; const long l0 = l; P("a+i signed", x.a + u); P("a-i signed", x.a - c); P("a*i signed", x.a * s); P("a/i signed", x.a / l); P("a%i signed", x.a % l); P("i/a", l / x.a); P("i%a", u % x.a); P("a==i signed", x.a == u); P("a<i signed", x.a < l); x.t = x.a; w.check(1); Q("t+=i signed", 1, if(&(x.t += u) != &x.t) C.fail("the result is not the left operand")); Q("t-=i signed", 1, x.t -= l); Q("t*=i signed", 1, x.t *= l); Q("t/=i signed", 1, if(&(x.t /= c) != &x.t) C.fail("the result is not the left operand")); Q("t%=i signed", 1, x.t %= s); Q("t=i signed", 1, x.t = l); VOK("signed built-in operands unchanged", u == u0 && c == c0 && s == s0 && l == l0); }
}
template <size_t W> void run() {
    constexpr u64 N = W <= 160 ? 2500 : W <= 352 ? 1200 : W <= 544 ? 500 : W <= 1056 ? 120 : W <= 2048 ? 20 : 3;
    for(u64 i = 0, e = C.n(N); i < e; ++i) if(C.begin()) { Rng r = C.rng(); unsignedCase<W>(r); }
    for(u64 i = 0, e = C.n(N); i < e; ++i) if(C.begin()) { Rng r = C.rng(); signedCase<W>(r); }
}
VF_MAIN("X02", run)
