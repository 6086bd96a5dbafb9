// Every public operation of both number types on one set of operands, independent of GMP: results go to an observer.
// Used where two executions (thread/thread, configuration/configuration, compile time/run time) or a sanitizer are the oracle.
#pragma once
#ifndef BT_UNSIGNED_ONLY
#include <AesiMultiprecision/Aesi.h>
#else
#include <AesiMultiprecision/Aeu.h>
#endif
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <string_view>
#include <utility>
#ifndef BT_STREAMS
#define BT_STREAMS 1
#endif
#if BT_STREAMS
#include <sstream>
#endif

namespace bt {
using u32 = std::uint32_t; using u64 = std::uint64_t;
constexpr u64 mix64(u64 z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
struct Rng { u64 s; constexpr explicit Rng(u64 seed) : s(mix64(seed)) {} constexpr u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); } constexpr u64 below(u64 n) { return n ? next() % n : 0; } constexpr bool coin(unsigned k = 2) { return below(k) == 0; } };
constexpr u32 specials[] = {0, 1, 2, 3, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0xffffu, 0x10000u, 0xffff0000u, 0xaaaaaaaau, 0x55555555u};
constexpr u32 special(Rng& r) { return r.coin(4) ? u32(r.next()) : specials[r.below(14)]; }
template <std::size_t W> struct Limbs { static constexpr std::size_t n = W / 32; u32 b[n] = {}; };
// the values where carries, lengths and signs change
template <std::size_t W> constexpr Limbs<W> edge(std::size_t k) {
    Limbs<W> v; constexpr std::size_t n = W / 32;
    switch(k % 12) {
        case 0: v.b[0] = 1; break; case 1: break; case 2: for(auto& x: v.b) x = 0xffffffffu; break; case 3: v.b[n - 1] = 0x80000000u; break; case 4: v.b[0] = 2; break; case 5: v.b[1] = 1; break;
        case 6: for(auto& x: v.b) x = 0xffffffffu; v.b[n - 1] = 0x7fffffffu; break; case 7: v.b[0] = 0xffffffffu; break; case 8: for(auto& x: v.b) x = 0xffffffffu; v.b[0] = 0xfffffffeu; break; case 9: v.b[2] = 1; break; case 10: v.b[0] = v.b[1] = 0xffffffffu; break; default: v.b[0] = 3; break;
    }
    return v;
}
template <std::size_t W> constexpr Limbs<W> gen(Rng& r) {
    Limbs<W> v; constexpr std::size_t n = W / 32;
    switch(r.below(9)) {
        case 7: v.b[0] = u32(r.below(20)); break;
        case 8: v = edge<W>(std::size_t(r.next() >> 20)); break;
        case 0: for(auto& x: v.b) x = u32(r.next()); break;
        case 1: for(auto& x: v.b) x = special(r); break;
        case 2: { const std::size_t k = r.below(n + 1); for(std::size_t i = 0; i < k; ++i) v.b[i] = u32(r.next()); break; }
        case 3: { const std::size_t k = r.below(n + 1); for(std::size_t i = 0; i < k; ++i) v.b[i] = special(r); break; }
        case 4: for(u64 k = 1 + r.below(3); k--;) v.b[r.below(n)] = special(r); break;
        case 5: for(auto& x: v.b) x = 0xffffffffu; for(u64 k = r.below(3); k--;) v.b[r.below(n)] = special(r); break;
        default: { const std::size_t k = r.below(W); v.b[k / 32] = u32(1) << (k % 32); if(r.coin()) { for(std::size_t i = 0; i < n; ++i) if(v.b[i]--) break; } break; }
    }
    return v;
}
template <std::size_t W> constexpr Limbs<W> gen2(Rng& r, const Limbs<W>& a) {
    Limbs<W> v = a; constexpr std::size_t n = W / 32;
    switch(r.below(8)) { case 0: return v; case 1: v.b[r.below(n)] ^= u32(1) << r.below(32); return v; case 2: for(auto& x: v.b) x = ~x; return v; case 3: v.b[r.below(n)] = special(r); return v; case 4: { const std::size_t k = r.below(n); for(std::size_t i = k; i < n; ++i) v.b[i] = 0; return v; } default: return gen<W>(r); }
}
template <std::size_t W> constexpr Aeu<W> mk(const Limbs<W>& l) { Aeu<W> r{}; for(std::size_t i = 0; i < W / 32; ++i) r.setBlock(i, l.b[i]); return r; }
#ifndef BT_UNSIGNED_ONLY
template <std::size_t W> constexpr Aesi<W> mks(const Limbs<W>& l, bool neg) { Aesi<W> r(mk<W>(l)); return neg ? -r : r; }
#endif

// shift distances: anything, with the block boundaries and both ends of the range favoured
constexpr std::size_t distance(Rng& r, std::size_t W) { switch(r.below(6)) { case 0: return r.below(66); case 1: return W - 1 - r.below(66); case 2: return r.below(W / 32) * 32; case 3: return r.below(W / 32) * 32 + 31; default: return r.below(W); } }
// observer O: void op(const char*), void put(u64)
template <class O> constexpr void see(O& o, const char* name, u64 v) { o.op(name); o.put(v); }
template <class O, std::size_t W> constexpr void see(O& o, const char* name, const Aeu<W>& a) { o.op(name); o.raw(&a, sizeof a); for(std::size_t i = 0; i < W / 32; ++i) o.put(a.getBlock(i)); }
#ifndef BT_UNSIGNED_ONLY
template <class O, std::size_t W> constexpr void see(O& o, const char* name, const Aesi<W>& a) { o.op(name); o.raw(&a, sizeof a); o.put(a.isZero() * 4 + a.isPositive() * 2 + a.isNegative()); for(std::size_t i = 0; i < W / 32; ++i) o.put(a.getBlock(i)); }
#endif
template <class O> constexpr void text(O& o, const char* name, std::string_view s) { o.op(name); o.put(s.size()); for(char c: s) o.put((unsigned char)c); }

#define S(name, expr) ::bt::see(o, name, expr)
template <std::size_t W, class O> constexpr void arithmetic(O& o, const Aeu<W>& A, const Aeu<W>& B) {
    S("u a+b", A + B); S("u a-b", A - B); S("u a*b", A * B); S("u -a", -A); S("u +a", +A); S("u ~a", ~A); S("u a&b", A & B); S("u a|b", A | B); S("u a^b", A ^ B);
    { Aeu<W> t = A; t += B; S("u a+=b", t); t = A; t -= B; S("u a-=b", t); t = A; t *= B; S("u a*=b", t); t = A; t &= B; S("u a&=b", t); t = A; t |= B; S("u a|=b", t); t = A; t ^= B; S("u a^=b", t); }
    { Aeu<W> t = A; S("u ++a", ++t); S("u --a", --t); S("u a++", t++); S("u a after a++", t); S("u a--", t--); S("u a after a--", t); }
    { Aeu<W> t = A; t += t; S("u a+=a", t); t = A; t -= t; S("u a-=a", t); t = A; t *= t; S("u a*=a", t); t = A; t ^= t; S("u a^=a", t); }
}
template <std::size_t W, class O> constexpr void division(O& o, const Aeu<W>& A, const Aeu<W>& B) {
    if(B.isZero()) return; S("u a/b", A / B); S("u a%b", A % B); { Aeu<W> t = A; t /= B; S("u a/=b", t); t = A; t %= B; S("u a%=b", t); } { const auto p = Aeu<W>::divide(A, B); S("u divide.first", p.first); S("u divide.second", p.second); } { Aeu<W> q{}, m{}; Aeu<W>::divide(A, B, q, m); S("u divide.quotient", q); S("u divide.remainder", m); }
}
template <std::size_t W, class O, typename T> constexpr void builtin(O& o, const Aeu<W>& A, T u) {
    Aeu<W> M = A; S("u a+i", A + u); S("u a-i", A - u); S("u a*i", M * u); S("u i+a", u + A); S("u i-a", u - A); S("u i*a", u * A); S("u a&i", A & u); S("u a|i", A | u); S("u a^i", A ^ u); S("u i&a", u & A); S("u i|a", u | A); S("u i^a", u ^ A);
    { Aeu<W> t = A; t += u; S("u a+=i", t); t = A; t -= u; S("u a-=i", t); t = A; t *= u; S("u a*=i", t); t = A; t = u; S("u a=i", t); S("u Aeu(i)", Aeu<W>(u)); }
    if(u) { S("u a/i", A / u); S("u a%i", A % u); } if(!A.isZero()) { S("u i/a", u / A); S("u i%a", u % A); }
    S("u a==i", A == u); S("u a!=i", A != u); S("u a<i", A < u); S("u a<=i", A <= u); S("u a>i", A > u); S("u a>=i", A >= u); S("u compareTo(i)", u64(A.compareTo(u)));
    S("u integralCast", u64(A.template integralCast<T>()));
}
template <std::size_t W, class O> constexpr void shifts(O& o, const Aeu<W>& A, std::size_t k) {
    S("u a<<k", A << k); S("u a>>k", A >> k); { Aeu<W> t = A; t <<= unsigned(k); S("u a<<=k", t); t = A; t >>= (unsigned short)(k); S("u a>>=k", t); } S("u power2", Aeu<W>::power2(k < W ? k : k % W));
}
template <std::size_t W, class O> constexpr void comparison(O& o, const Aeu<W>& A, const Aeu<W>& B) {
    S("u a==b", A == B); S("u a!=b", A != B); S("u a<b", A < B); S("u a<=b", A <= B); S("u a>b", A > B); S("u a>=b", A >= B); S("u compareTo", u64(A.compareTo(B)));
    const Aeu<W + 32> C = B.template precisionCast<W + 32>(); S("u compareTo wider", u64(A.compareTo(C))); S("u wider compareTo", u64(C.compareTo(A))); S("u a==wider", A == C);
#if !defined(__CUDACC__) && !defined(PRE_CPP_20)
    S("u a<wider", A < C); S("u wider<=a", C <= A); S("u a<=>b", (A <=> B) < 0 ? 1 : (A <=> B) > 0 ? 2 : 0);
#endif
}
template <std::size_t W, class O> constexpr void access(O& o, const Aeu<W>& A, std::size_t i, u32 v) {      // valid indices only
    S("u getBit", A.getBit(i)); S("u getByte", A.getByte(i / 8)); S("u getBlock", A.getBlock(i / 32)); { Aeu<W> t = A; t.setBit(i, v & 1); S("u setBit", t); t = A; t.setByte(i / 8, (unsigned char)v); S("u setByte", t); t = A; t.setBlock(i / 32, v); S("u setBlock", t); }
    S("u bitCount", A.bitCount()); S("u byteCount", A.byteCount()); S("u filledBlocksNumber", A.filledBlocksNumber()); S("u isOdd", A.isOdd()); S("u isEven", A.isEven()); S("u isZero", A.isZero()); S("u getBitness", Aeu<W>::getBitness()); S("u totalBlocksNumber", Aeu<W>::totalBlocksNumber());
    { Aeu<W> s = A, t = ~A; s.swap(t); S("u swap first", s); S("u swap second", t); }
}
template <std::size_t W, class O> constexpr void access_out_of_range(O& o, const Aeu<W>& A, std::size_t i, u32 v) {
    S("u getBit beyond", A.getBit(W + i)); S("u getByte beyond", A.getByte(W / 8 + i)); S("u getBlock beyond", A.getBlock(W / 32 + i)); { Aeu<W> t = A; t.setBit(W + i, v & 1); S("u setBit beyond", t); t.setByte(W / 8 + i, (unsigned char)v); S("u setByte beyond", t); t.setBlock(W / 32 + i, v); S("u setBlock beyond", t); } S("u power2 beyond", Aeu<W>::power2(W + i));
}
template <std::size_t W, class O> constexpr void theory(O& o, const Aeu<W>& A, const Aeu<W>& B, const Aeu<W>& M) {
    S("u gcd", Aeu<W>::gcd(A, B)); { Aeu<W> x{}, y{}; S("u gcd with coefficients", Aeu<W>::gcd(A, B, x, y)); S("u Bezout x", x); S("u Bezout y", y); }
    { const Aeu<W> a = A >> (W / 2), b = B >> (W / 2); S("u lcm", Aeu<W>::lcm(a, b)); }
    { Aeu<W> m = M >> (W / 2); if(!m.isZero()) { const Aeu<W> e = B >> (W - 40); S("u powm", Aeu<W>::powm(A, e, m)); S("u powm other precision", Aeu<W>::template powm<W + 64>(A, e.template precisionCast<W + 64>(), m)); } }
    S("u squareRoot", A.squareRoot());
}
template <std::size_t W, class O> constexpr void casts(O& o, const Aeu<W>& A) {
    S("u precisionCast wider", A.template precisionCast<W + 96>()); S("u precisionCast narrower", A.template precisionCast<W - 32>()); S("u integralCast<int>", u64(A.template integralCast<int>())); S("u integralCast<long long>", u64(A.template integralCast<long long>())); S("u integralCast<unsigned char>", u64(A.template integralCast<unsigned char>())); S("u integralCast<signed char>", u64((long long)A.template integralCast<signed char>()));
}
#ifndef BT_UNSIGNED_ONLY
// ------------------------------------------------------------------------------- signed
template <std::size_t W, class O> constexpr void sarithmetic(O& o, const Aesi<W>& A, const Aesi<W>& B) {
    S("s a+b", A + B); S("s a-b", A - B); S("s a*b", A * B); S("s -a", -A); S("s +a", +A);
    { Aesi<W> t = A; t += B; S("s a+=b", t); t = A; t -= B; S("s a-=b", t); t = A; t *= B; S("s a*=b", t); t = A; t.inverse(); S("s inverse", t); }
    { Aesi<W> t = A; S("s ++a", ++t); S("s --a", --t); S("s a++", t++); S("s a after a++", t); S("s a--", t--); S("s a after a--", t); }
    { Aesi<W> t = A; t += t; S("s a+=a", t); t = A; t -= t; S("s a-=a", t); t = A; t *= t; S("s a*=a", t); t = A; t /= t; S("s a/=a", t); t = A; t %= t; S("s a%=a", t); }
}
template <std::size_t W, class O> constexpr void sdivision(O& o, const Aesi<W>& A, const Aesi<W>& B) {
    S("s a/b", A / B); S("s a%b", A % B); { Aesi<W> t = A; t /= B; S("s a/=b", t); t = A; t %= B; S("s a%=b", t); } { Aesi<W> q{}, m{}; Aesi<W>::divide(A, B, q, m); S("s divide.quotient", q); S("s divide.remainder", m); }
}
template <std::size_t W, class O, typename T> constexpr void sbuiltin(O& o, const Aesi<W>& A, T u) {
    S("s a+i", A + u); S("s a-i", A - u); S("s a*i", A * u); S("s a/i", A / u); S("s a%i", A % u); S("s i+a", u + A); S("s i-a", u - A); S("s i*a", u * A); S("s i/a", u / A); S("s i%a", u % A);
    { Aesi<W> t = A; t += u; S("s a+=i", t); t = A; t -= u; S("s a-=i", t); t = A; t *= u; S("s a*=i", t); t = A; t /= u; S("s a/=i", t); t = A; t %= u; S("s a%=i", t); t = A; t = u; S("s a=i", t); S("s Aesi(i)", Aesi<W>(u)); }
    S("s a==i", A == u); S("s a!=i", A != u); S("s a<i", A < u); S("s a<=i", A <= u); S("s a>i", A > u); S("s a>=i", A >= u); S("s compareTo(i)", u64(A.compareTo(u))); S("s integralCast", u64(A.template integralCast<T>()));
}
template <std::size_t W, class O> constexpr void scomparison(O& o, const Aesi<W>& A, const Aesi<W>& B) {
    S("s a==b", A == B); S("s a!=b", A != B); S("s a<b", A < B); S("s a<=b", A <= B); S("s a>b", A > B); S("s a>=b", A >= B); S("s compareTo", u64(A.compareTo(B)));
    const Aesi<W + 32> C = B.template precisionCast<W + 32>(); S("s compareTo wider", u64(A.compareTo(C))); S("s wider compareTo", u64(C.compareTo(A))); S("s a==wider", A == C);
#if !defined(__CUDACC__) && !defined(PRE_CPP_20)
    S("s a<wider", A < C); S("s wider<=a", C <= A); S("s a<=>b", (A <=> B) < 0 ? 1 : (A <=> B) > 0 ? 2 : 0);
#endif
}
template <std::size_t W, class O> constexpr void saccess(O& o, const Aesi<W>& A, std::size_t i, u32 v) {
    S("s getBit", A.getBit(i)); S("s getByte", A.getByte(i / 8)); S("s getBlock", A.getBlock(i / 32)); if(!A.isZero()) { Aesi<W> t = A; t.setBit(i, true); S("s setBit", t); t = A; t.setByte(i / 8, (unsigned char)(v | 1)); S("s setByte", t); t = A; t.setBlock(i / 32, v | 1); S("s setBlock", t); }
    S("s bitCount", A.bitCount()); S("s byteCount", A.byteCount()); S("s filledBlocksNumber", A.filledBlocksNumber()); S("s isOdd", A.isOdd()); S("s isEven", A.isEven()); S("s isZero", A.isZero()); S("s isPositive", A.isPositive()); S("s isNegative", A.isNegative()); S("s getBitness", Aesi<W>::getBitness()); S("s totalBlocksNumber", Aesi<W>::totalBlocksNumber());
    { Aesi<W> s = A, t = A; ++t; s.swap(t); S("s swap first", s); S("s swap second", t); } S("s unsignedCast", A.unsignedCast()); S("s power2", Aesi<W>::power2(i)); S("s Aesi(Aeu)", Aesi<W>(A.unsignedCast()));
}
template <std::size_t W, class O> constexpr void stheory(O& o, const Aesi<W>& A) {
    S("s squareRoot", A.squareRoot()); S("s precisionCast wider", A.template precisionCast<W + 96>()); S("s precisionCast narrower", A.template precisionCast<W - 32>()); S("s integralCast<int>", u64(A.template integralCast<int>())); S("s integralCast<long long>", u64(A.template integralCast<long long>())); S("s integralCast<unsigned char>", u64(A.template integralCast<unsigned char>())); S("s integralCast<signed char>", u64((long long)A.template integralCast<signed char>()));
}
#endif
// ------------------------------------------------------------------------------- text and binary (run time only)
template <std::size_t W, unsigned char base, typename Char, class N, class O> void buffered(O& o, const char* name, const N& n, std::size_t size, bool show) {
    Char buf[W + 8]; std::memset(buf, 0, sizeof buf); const std::size_t k = n.template getString<base, base == 16>(buf, size, show); o.op(name); o.put(k); for(std::size_t i = 0; i < k && i < W + 8; ++i) o.put(u64(buf[i]));
}
template <std::size_t W, class N, class O> void strings(O& o, const N& n, std::size_t size, bool show) {
    buffered<W, 16, char>(o, "getString<16>", n, size, show); if(W <= 544) { buffered<W, 10, char>(o, "getString<10>", n, size, show); buffered<W, 8, wchar_t>(o, "getString<8> wide", n, size, show); if(W <= 160) buffered<W, 2, char>(o, "getString<2>", n, size, show); } buffered<W, 16, wchar_t>(o, "getString<16> wide", n, size, show);
}
inline std::string randomText(Rng& r, std::size_t maxDigits) { static const char* const pre[] = {"", "0x", "0b", "0o", "-", "-0x", "+", "0X"}; static const char al[] = "0123456789abcdefABCDEF01230123'_- "; std::string s = pre[r.below(8)]; for(u64 k = r.below(maxDigits); k--;) s += al[r.below(sizeof al - 1)]; return s; }
#ifndef BT_UNSIGNED_ONLY
template <std::size_t W, class O> void parse(O& o, const std::string& t) {
    S("Aeu(text)", Aeu<W>(t.data(), t.size())); S("Aesi(text)", Aesi<W>(t.data(), t.size())); S("Aeu(string)", Aeu<W>(t)); S("Aesi(string_view)", Aesi<W>(std::string_view(t))); const std::wstring w(t.begin(), t.end()); S("Aeu(wide text)", Aeu<W>(w)); S("Aesi(wide text)", Aesi<W>(w.data(), w.size())); S("Aeu(literal)", Aeu<W>("0x1234567890abcdefABCDEF")); S("Aesi(literal)", Aesi<W>("-98765432109876543210")); S("Aesi(wide literal)", Aesi<W>(L"-0o7654321"));
}
#endif
#if BT_STREAMS
template <std::size_t W, typename Char, class N, class O> void stream(O& o, const N& n, unsigned mode) {
    if(W <= 544 || mode % 3 == 0) { std::basic_ostringstream<Char> os; os << (mode % 3 == 0 ? std::hex : mode % 3 == 1 ? std::dec : std::oct); if(mode & 4) os << std::showbase; if(mode & 8) os << std::uppercase; os << n << Char('/') << 255; o.op("stream output"); for(Char c: os.str()) o.put(u64(c)); }
}
template <std::size_t W, class O> void binary(O& o, const Aeu<W>& A, const Aeu<W>& B, bool big) { std::stringstream s; A.writeBinary(s, big); o.op("writeBinary"); for(char c: s.str()) o.put((unsigned char)c); Aeu<W> t = B; t.readBinary(s, big); S("readBinary", t); std::istringstream sh(s.str().substr(0, W / 16 + 1)); t = B; t.readBinary(sh, big); S("readBinary short", t); }
#endif
#undef S
template <typename T> constexpr T pickInt(Rng& r) { const u64 bits = sizeof(T) * 8; switch(r.below(6)) { case 0: return T(0); case 1: return T(~u64(0)); case 2: return T(u64(1) << (bits - 1)); case 3: return T((u64(1) << (bits - 1)) - 1); case 4: return T(r.below(20)); default: return T(r.next() >> r.below(64)); } }
template <std::size_t W, class O> void allUnsigned(O& o, Rng& r) {
    const Limbs<W> a = gen<W>(r), b = gen2<W>(r, a), m = gen<W>(r); const Aeu<W> A = mk<W>(a), B = mk<W>(b), M = mk<W>(m); const std::size_t i = distance(r, W), far = r.below(70); const u32 v = special(r);
    arithmetic<W>(o, A, B); division<W>(o, A, B); comparison<W>(o, A, B); shifts<W>(o, A, i); shifts<W>(o, A, distance(r, W)); access<W>(o, A, i, v); access_out_of_range<W>(o, A, far, v); casts<W>(o, A); theory<W>(o, A, B, M);
    builtin<W>(o, A, pickInt<unsigned>(r)); builtin<W>(o, A, pickInt<unsigned long>(r)); strings<W>(o, A, W + 8, r.coin());
#if BT_STREAMS
    const unsigned mode = unsigned(r.below(16)); stream<W, char>(o, A, mode); binary<W>(o, A, B, r.coin());
#endif
}
#ifndef BT_UNSIGNED_ONLY
template <std::size_t W, class O> void all(O& o, Rng& r, bool heavy, bool beyond) {
    const Limbs<W> a = gen<W>(r), b = gen2<W>(r, a), m = gen<W>(r); const Aeu<W> A = mk<W>(a), B = mk<W>(b), M = mk<W>(m); const std::size_t i = distance(r, W), far = r.below(70); const u32 v = special(r);
    arithmetic<W>(o, A, B); division<W>(o, A, B); comparison<W>(o, A, B); shifts<W>(o, A, r.coin(8) ? W + r.below(70) : distance(r, W)); shifts<W>(o, A, distance(r, W)); access<W>(o, A, i, v); if(beyond) access_out_of_range<W>(o, A, far, v); casts<W>(o, A); if(heavy) theory<W>(o, A, B, M);
    switch(r.below(5)) { case 0: builtin<W>(o, A, pickInt<unsigned char>(r)); break; case 1: builtin<W>(o, A, pickInt<unsigned short>(r)); break; case 2: builtin<W>(o, A, pickInt<unsigned>(r)); break; case 3: builtin<W>(o, A, pickInt<unsigned long>(r)); break; default: builtin<W>(o, A, pickInt<unsigned long long>(r)); }
    const Aesi<W> SA = mks<W>(a, r.coin()), SB = mks<W>(b, r.coin());
    sarithmetic<W>(o, SA, SB); sdivision<W>(o, SA, SB); scomparison<W>(o, SA, SB); saccess<W>(o, SA, i, v); if(heavy) stheory<W>(o, SA);
    switch(r.below(8)) { case 0: sbuiltin<W>(o, SA, pickInt<signed char>(r)); break; case 1: sbuiltin<W>(o, SA, pickInt<short>(r)); break; case 2: sbuiltin<W>(o, SA, pickInt<int>(r)); break; case 3: sbuiltin<W>(o, SA, pickInt<long>(r)); break; case 4: sbuiltin<W>(o, SA, pickInt<long long>(r)); break; case 5: sbuiltin<W>(o, SA, pickInt<unsigned>(r)); break; case 6: sbuiltin<W>(o, SA, pickInt<unsigned long long>(r)); break; default: sbuiltin<W>(o, SA, pickInt<unsigned short>(r)); }
    const std::size_t size = r.coin() ? W + 8 : r.below(W / 4 + 8); const bool show = r.coin(); strings<W>(o, A, size, show); strings<W>(o, SA, size, show); parse<W>(o, randomText(r, W / 3));
#if BT_STREAMS
    const unsigned mode = unsigned(r.below(16)); stream<W, char>(o, A, mode); stream<W, char>(o, SA, mode); stream<W, wchar_t>(o, SB, mode); binary<W>(o, A, B, r.coin());
#endif
}
#endif
}
