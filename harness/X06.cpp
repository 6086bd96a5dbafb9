// Hidden state: long histories over a few fixed objects whose contents change a little between calls. Every result is judged by GMP from the operands alone,
// so a result that depends on earlier calls (a stale cache, a reused scratch buffer, a function-local static) is wrong here even if the function is right on a fresh start.
#include "vf.hpp"
#include <sstream>
#include <utility>
using namespace vf;
template <size_t W> struct World { static constexpr int K = 4; Aeu<W> u[K]; Aesi<W> s[K]; Z zu[K], zs[K]; };
template <size_t W> Z near(Rng& r, const Z& a) {          // differs from a in a small, chosen place
    Z t = a; constexpr size_t n = W / 32;
    switch(r.below(9)) {
        case 0: mpz_combit(t.get_mpz_t(), r.below(W)); return t;
        case 1: { const size_t i = r.below(n); const Z old = mod2(a >> (32 * i), 32); t -= old << (32 * i); return t + (Z(limbSpecial(r)) << (32 * i)); }
        case 2: return mod2(a, 32) + (genBits(r, W - 32) << 32);                                   // same lowest block
        case 3: { const Z top = a >> (W - 32); return (top << (W - 32)) + genBits(r, W - 32); }     // same top block
        case 4: return mod2(a + 1, W); case 5: return mod2(a - 1, W); case 6: return mod2(a << 1, W);
        case 7: return mod2(a, W / 2) + (genBits(r, W / 2) << (W / 2)); default: return mod2((a >> 32) + (a << (W - 32)), W);   // same blocks, other order
    }
}
template <size_t W> void run() {
    constexpr int K = World<W>::K; const u64 runs = C.n(W <= 160 ? 1200 : W <= 320 ? 500 : W <= 544 ? 200 : W <= 1056 ? 40 : 6, 12); const int steps = 200; const bool small = W <= 544;
    static World<W> w;                                    // the same addresses throughout
    for(u64 run = 0; run < runs; ++run) if(C.begin()) {
        Rng r = C.rng(); for(int i = 0; i < K; ++i) { w.zu[i] = genBits(r, W); w.zs[i] = genSigned(r, W); w.u[i] = mk<W>(w.zu[i]); w.s[i] = mks<W>(w.zs[i]); }
        u64 kind = r.below(24); int i = 0, j = 1, k = 2;
        for(int st = 0; st < steps && !C.stop; ++st) {
            // change a little: one object, a small place, or nothing at all
            switch(r.below(6)) {
                case 0: { const int x = int(r.below(K)); w.zu[x] = near<W>(r, w.zu[x]); w.u[x] = mk<W>(w.zu[x]); FEAT("operand changed in a small place"); break; }
                case 1: { const int x = int(r.below(K)); Z m = near<W>(r, abs(w.zs[x])); w.zs[x] = r.coin() ? Z(-m) : m; w.s[x] = mks<W>(w.zs[x]); FEAT("operand changed in a small place"); break; }
                case 2: { const int x = int(r.below(K)), y = int(r.below(K)); std::swap(w.u[x], w.u[y]); swap(w.zu[x], w.zu[y]); std::swap(w.s[x], w.s[y]); swap(w.zs[x], w.zs[y]); FEAT("operands exchanged"); break; }
                case 3: { const int x = int(r.below(K)); w.zs[x] = -w.zs[x]; w.s[x].inverse(); const size_t b = r.below(W); const bool v = r.coin(); w.u[x].setBit(b, v); if(v) mpz_setbit(w.zu[x].get_mpz_t(), b); else mpz_clrbit(w.zu[x].get_mpz_t(), b); break; }
                default: FEAT("operands unchanged since the last call"); break;
            }
            if(r.coin(3)) kind = r.below(24); else FEAT("same operation again"); if(r.coin(3)) { i = int(r.below(K)); j = int(r.below(K)); k = int(r.below(K)); } else FEAT("same objects again");
            const Z &a = w.zu[i], &b = w.zu[j], &m = w.zu[k], &x = w.zs[i], &y = w.zs[j]; const Aeu<W> &A = w.u[i], &B = w.u[j], &M = w.u[k]; const Aesi<W> &X = w.s[i], &Y = w.s[j];
            C.resetOperands(); if(kind < 17) { C.operand("a", a); C.operand("b", b); C.operand("m", m); } else { C.operand("x", x); C.operand("y", y); }
            C.note = "history " + std::to_string(run) + " step " + std::to_string(st);
            if(r.coin(5) && kind < 14) {                   // the same operation in another width, in between
                constexpr size_t V = W + 32; const Aeu<V> A2 = A.template precisionCast<V>(), B2 = B.template precisionCast<V>(); FEAT("call at another width in between");
                switch(kind) {
                    case 0: VEQ("wide a*b", val(A2 * B2), mod2(a * b, V)); break; case 1: case 3: if(b != 0) VEQ("wide a/b", val(A2 / B2), a / b); break; case 2: if(b != 0) VEQ("wide a%b", val(A2 % B2), a % b); break;
                    case 4: { const size_t p = r.below(V); VEQ("wide a<<k", val(A2 << p), mod2(a << p, V)); VEQ("wide a>>k", val(A2 >> p), Z(a >> p)); break; }
                    case 5: case 6: case 7: { Z g; mpz_gcd(g.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); VEQ("wide gcd", val(Aeu<V>::gcd(A2, B2)), g); break; }
                    case 9: if(small) VEQ("wide squareRoot", val(A2.squareRoot()), Z(sqrt(a))); break; case 10: VEQ("wide bitCount", Z(A2.bitCount()), Z(a == 0 ? 0 : mpz_sizeinbase(a.get_mpz_t(), 2))); break;
                    case 13: { std::vector<char> t(W + 48, 'q'); A2.template getString<16>(t.data(), t.size()); VEQS("wide getString", std::string(t.data()), a.get_str(16)); break; }
                    default: VBOOL("wide a<b", A2 < B2, a < b); break;
                }
            }
            switch(kind) {
                case 0: VEQ("a*b", val(A * B), mod2(a * b, W)); VEQ("a+b", val(A + B), mod2(a + b, W)); VEQ("a-b", val(A - B), mod2(a - b, W)); break;
                case 1: if(b != 0) { VEQ("a/b", val(A / B), a / b); } break;
                case 2: if(b != 0) { VEQ("a%b", val(A % B), a % b); } break;
                case 3: if(b != 0) { Aeu<W> q{}, t{}; VF_AT("divide"); Aeu<W>::divide(A, B, q, t); C.eq(val(q), a / b); C.eq(val(t), a % b); } break;
                case 4: { const size_t p = r.below(W + 40); VEQ("a<<k", val(A << p), p < W ? mod2(a << p, W) : a); VEQ("a>>k", val(A >> p), p < W ? Z(a >> p) : a); break; }
                case 5: { Z g; mpz_gcd(g.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); VEQ("gcd", val(Aeu<W>::gcd(A, B)), g); break; }
                case 6: { if(!small && !r.coin(4)) break; Z g; mpz_gcd(g.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); Aeu<W> p{}, q{}; VEQ("gcd with coefficients", val(Aeu<W>::gcd(A, B, p, q)), g); VEQ("Bezout identity", mod2(val(p) * a + val(q) * b, W), mod2(g, W)); break; }
                case 7: { const Z c = a >> (W / 2), d = b >> (W / 2); if(c == 0 || d == 0) break; Z l; mpz_lcm(l.get_mpz_t(), c.get_mpz_t(), d.get_mpz_t()); VEQ("lcm", val(Aeu<W>::lcm(A >> (W / 2), B >> (W / 2))), l); break; }
                case 8: { const Z mm = m >> (W / 2); if(mm == 0) break; const Z e = b >> (W - (small ? 20 : 6)); Z p; mpz_powm(p.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), mm.get_mpz_t()); VEQ("powm", val(Aeu<W>::powm(A, B >> (W - (small ? 20 : 6)), M >> (W / 2))), p); break; }
                case 9: { if(!small && !r.coin(4)) break; VEQ("squareRoot", val(A.squareRoot()), Z(sqrt(a))); break; }
                case 10: { const size_t bl = a == 0 ? 0 : mpz_sizeinbase(a.get_mpz_t(), 2); VEQ("bitCount", Z(A.bitCount()), Z(bl)); VEQ("byteCount", Z(A.byteCount()), Z((bl + 7) / 8)); VEQ("filledBlocksNumber", Z(A.filledBlocksNumber()), Z((bl + 31) / 32)); break; }
                case 11: { const size_t p = r.below(W); VBOOL("getBit", A.getBit(p), mpz_tstbit(a.get_mpz_t(), p) != 0); VEQ("getByte", Z(unsigned(A.getByte(p / 8))), mod2(a >> (p / 8 * 8), 8)); VBOOL("isOdd", A.isOdd(), mpz_odd_p(a.get_mpz_t()) != 0); VBOOL("isZero", A.isZero(), a == 0); break; }
                case 12: { const int c = sgn(Z(a - b)); VBOOL("a==b", A == B, c == 0); VBOOL("a<b", A < B, c < 0); VBOOL("a>=b", A >= B, c >= 0); const Aeu<W + 32> V = B.template precisionCast<W + 32>(); VBOOL("a<wide b", A < V, c < 0); break; }
                case 13: { std::vector<char> t(W + 8, 'q'); const bool dec = small && r.coin(3); const size_t len = dec ? A.template getString<10>(t.data(), t.size()) : A.template getString<16>(t.data(), t.size()); VF_AT("getString"); const std::string want = a.get_str(dec ? 10 : 16); C.eqs(std::string(t.data()), want); if(len != want.size() + 1) C.fail("count " + std::to_string(len)); break; }
                case 14: { std::ostringstream o; const bool dec = small && r.coin(3); o << (dec ? std::dec : std::hex) << A << ' ' << B; VEQS("stream output", o.str(), a.get_str(dec ? 10 : 16) + " " + b.get_str(dec ? 10 : 16)); break; }
                case 15: { const std::string t = r.coin() ? "0x" + a.get_str(16) : a.get_str(10); VEQ("parsing", val(Aeu<W>(t)), a); std::stringstream s; A.writeBinary(s, i & 1); Aeu<W> c = B; VEQ("binary round trip", (c.readBinary(s, i & 1), val(c)), a); break; }
                case 16: VEQ("a^b", val(A ^ B), a ^ b); VEQ("a&b", val(A & B), a & b); VEQ("a|b", val(A | B), a | b); VEQ("~a", val(~A), mod2(-a - 1, W)); VEQ("-a", val(-A), mod2(-a, W)); VEQ("narrow", val(A.template precisionCast<64>()), mod2(a, 64)); { Aeu<W> t = A; VEQ("++a", val(++t), mod2(a + 1, W)); t = A; VEQ("--a", val(--t), mod2(a - 1, W)); } break;
                case 17: VEQ("x*y", val(X * Y), wrapSigned(x * y, W)); VEQ("x+y", val(X + Y), wrapSigned(x + y, W)); VEQ("x-y", val(X - Y), wrapSigned(x - y, W)); break;
                case 18: { Z q = 0, t = x; if(y != 0) mpz_tdiv_qr(q.get_mpz_t(), t.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); VEQ("x/y", val(X / Y), q); VEQ("x%y", val(X % Y), t); break; }
                case 19: { const long z = genInt<long>(r); const Z Y2 = z; Z q = 0, t = x; if(z) mpz_tdiv_qr(q.get_mpz_t(), t.get_mpz_t(), x.get_mpz_t(), Y2.get_mpz_t()); else t = 0; C.operand("i", Y2); VEQ("x*i", val(X * z), wrapSigned(x * Y2, W)); VEQ("x/i", val(X / z), q); VEQ("x%i", val(X % z), t); VBOOL("x<i", X < z, x < Y2); break; }
                case 20: { const int c = sgn(Z(x - y)); VBOOL("x==y", X == Y, c == 0); VBOOL("x<y", X < Y, c < 0); VBOOL("x>=y", X >= Y, c >= 0); break; }
                case 21: { std::ostringstream o; o << std::hex << X; VEQS("signed stream output", o.str(), (x < 0 ? "-" : "") + Z(abs(x)).get_str(16)); const std::string t = (x < 0 ? "-0x" : "0x") + Z(abs(x)).get_str(16); VEQ("signed parsing", val(Aesi<W>(t)), x); break; }
                case 22: { Aesi<W> t = X; VEQ("++x", val(++t), wrapSigned(x + 1, W)); t = X; VEQ("--x", val(--t), wrapSigned(x - 1, W)); VEQ("-x", val(-X), Z(-x)); VEQ("cast", val(X.template precisionCast<64>()), wrapSigned(x, 64)); if(small || r.coin(4)) VEQ("signed squareRoot", val(X.squareRoot()), x > 0 ? Z(sqrt(x)) : Z(0)); break; }
                default: { const unsigned long z = genInt<unsigned long>(r); const Z Z2 = zi(z); C.operand("i", Z2); VEQ("a*i", val(A * z), mod2(a * Z2, W)); VEQ("a+i", val(A + z), mod2(a + Z2, W)); if(z) { VEQ("a/i", val(A / z), a / Z2); VEQ("a%i", val(A % z), a % Z2); } VBOOL("a<i", A < z, a < Z2); break; }
            }
        }
    }
}
VF_MAIN("X06", run)
