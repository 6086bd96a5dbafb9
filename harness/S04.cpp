#include "vf.hpp"
#include <sstream>
#include <utility>
using namespace vf;
// Random histories over a few signed variables with integer shadows. After every step the touched variables are compared, through every observer, with their integer and with a number freshly built from it.
template <size_t W> void observe(const Aesi<W>& x, const Z& z, Rng& r, bool deep) {
    C.resetOperands(); C.operand("value", z); const Z m = abs(z); const size_t bl = m == 0 ? 0 : mpz_sizeinbase(m.get_mpz_t(), 2);
    VEQ("observed value", val(x), z);
    VBOOL("isZero", x.isZero(), z == 0); VBOOL("isPositive", x.isPositive(), z > 0); VBOOL("isNegative", x.isNegative(), z < 0); VBOOL("isOdd", x.isOdd(), mpz_odd_p(m.get_mpz_t()) != 0); VBOOL("isEven", x.isEven(), mpz_odd_p(m.get_mpz_t()) == 0);
    VEQ("bitCount", Z(x.bitCount()), Z(bl)); VEQ("byteCount", Z(x.byteCount()), Z((bl + 7) / 8)); VEQ("filledBlocksNumber", Z(x.filledBlocksNumber()), Z((bl + 31) / 32)); VEQ("unsignedCast", val(x.unsignedCast()), m);
    const Aesi<W> f = mks<W>(z);
    VBOOL("== fresh", x == f, true); VBOOL("fresh ==", f == x, true); VBOOL("!= fresh", x != f, false); VBOOL("< fresh", x < f, false); VBOOL("> fresh", x > f, false); VOK("compareTo fresh", x.compareTo(f) == Comparison::equal && f.compareTo(x) == Comparison::equal);
    VBOOL("== 0", x == 0, z == 0); VBOOL("< 0", x < 0, z < 0); VBOOL("> 0", x > 0, z > 0); VBOOL("== 0u", x == 0u, z == 0); VBOOL("< 1", x < 1, z < 1); VBOOL("> -1", x > -1, z > -1); VBOOL("== default", x == Aesi<W>{}, z == 0); VBOOL("default <", Aesi<W>{} < x, 0 < z);
    VEQ("-x", val(-x), Z(-z)); VEQ("integralCast<int>", Z(x.template integralCast<int>()), Z(f.template integralCast<int>())); VEQ("integralCast<unsigned long>", Z(x.template integralCast<unsigned long>()), mod2(m, 64));
    { const size_t i = r.below(W); VBOOL("getBit", x.getBit(i), mpz_tstbit(m.get_mpz_t(), i) != 0); VEQ("getByte", Z(unsigned(x.getByte(i / 8))), mod2(m >> (i / 8 * 8), 8)); }
    if(deep) {
        const bool text = W <= 1056 || bl < 512 || r.coin(W > 4096 ? 80 : W > 2048 ? 20 : 6); if(text) { std::ostringstream os; os << x; VEQS("text", os.str(), z.get_str()); } std::ostringstream oh; oh << std::hex << x; VEQS("hexadecimal text", oh.str(), (z < 0 ? "-" : "") + m.get_str(16));
        if(text) { std::vector<char> b(W + 8); const size_t k = x.template getString<10>(b.data(), b.size()); VOK("getString terminated", k && k <= b.size() && b[k - 1] == 0); VEQS("getString", std::string(b.data()), z.get_str()); }
        VEQ("precisionCast wider", val(x.template precisionCast<W + 64>()), z); VEQ("precisionCast narrower", val(x.template precisionCast<64>()), wrapSigned(z, 64));
        if(W <= 2048 || z <= 0) VEQ("squareRoot", val(x.squareRoot()), z > 0 ? Z(sqrt(z)) : Z(0));
        std::ostringstream ob; x.unsignedCast().writeBinary(ob); std::ostringstream of; mk<W>(m).writeBinary(of); VOK("binary output", ob.str() == of.str());
        const Z o = genSigned(r, W); C.operand("o", o); const Aesi<W> O = mks<W>(o); VEQ("x+o", val(x + O), wrapSigned(z + o, W)); VEQ("x-o", val(x - O), wrapSigned(z - o, W)); VEQ("o-x", val(O - x), wrapSigned(o - z, W)); VEQ("x*o", val(x * O), wrapSigned(z * o, W));
        Z q = 0, t = z; if(o != 0) mpz_tdiv_qr(q.get_mpz_t(), t.get_mpz_t(), z.get_mpz_t(), o.get_mpz_t()); VEQ("x/o", val(x / O), q); VEQ("x%o", val(x % O), t); VBOOL("x<o", x < O, z < o); VBOOL("x==o", x == O, z == o); VBOOL("o>x", O > x, o > z);
        C.resetOperands(1);
    }
}
template <size_t W> void run() {
    constexpr int K = 4; const u64 runs = C.n(W <= 160 ? 700 : W <= 320 ? 400 : W <= 544 ? 220 : W <= 1056 ? 70 : W <= 2048 ? 20 : 6, 12); const int steps = 60;
    for(u64 run = 0; run < runs; ++run) if(C.begin()) {
        Rng r = C.rng(); Aesi<W> v[K] = {}; Z s[K]; u64 h = 0;
        for(int st = 0; st < steps && !C.stop; ++st) {
            const int i = int(r.below(K)), j = int(r.below(K)), k = int(r.below(K)), l = int(r.below(K)); const u64 op0 = r.below(42), op = op0 >= 34 ? 0 : W > 2048 && op0 == 26 ? 8 : op0; h = mix64(h * 64 + op) ^ u64(i * 64 + j * 16 + k * 4 + l); C.opHash(h); C.note = "history " + std::to_string(run) + " step " + std::to_string(st) + " operation " + std::to_string(op) + " on " + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k);
            const auto tdiv = [](const Z& a, const Z& b) { Z q; if(b != 0) mpz_tdiv_q(q.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return q; }; const auto tmod = [](const Z& a, const Z& b) { Z q = a; if(b != 0) mpz_tdiv_r(q.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return q; };
            int touched2 = -1; C.op = "history step";
            switch(op) {
                case 0: { const Z z = genSigned(r, W); v[i] = mks<W>(z); s[i] = z; break; }
                case 1: { const long z = genInt<long>(r); v[i] = z; s[i] = z; break; }
                case 2: { const int z = int(r.below(5)) - 2; v[i] = z; s[i] = z; break; }
                case 3: { const unsigned long z = genInt<unsigned long>(r); v[i] = z; s[i] = zi(z); break; }
                case 4: { const Z z = r.coin(4) ? Z(0) : genSigned(r, W); const std::string t = (r.coin() ? (sgn(z) < 0 ? "-0x" : "0x") + Z(abs(z)).get_str(16) : z.get_str()); v[i] = t; s[i] = z; break; }
                case 5: v[i] = "-0"; s[i] = 0; break;
                case 6: v[i] = v[j]; s[i] = s[j]; break;
                case 7: { Aesi<W> c(v[j]); v[i] = std::move(c); s[i] = s[j]; break; }
                case 8: v[i] = v[j] + v[k]; s[i] = wrapSigned(s[j] + s[k], W); break;
                case 9: v[i] = v[j] - v[k]; s[i] = wrapSigned(s[j] - s[k], W); break;
                case 10: v[i] = v[j] * v[k]; s[i] = wrapSigned(s[j] * s[k], W); break;
                case 11: v[i] = v[j] / v[k]; s[i] = tdiv(s[j], s[k]); break;
                case 12: v[i] = v[j] % v[k]; s[i] = tmod(s[j], s[k]); break;
                case 13: { const Z b = s[j]; v[i] += v[j]; s[i] = wrapSigned(s[i] + b, W); break; }
                case 14: { const Z b = s[j]; v[i] -= v[j]; s[i] = wrapSigned(s[i] - b, W); break; }
                case 15: { const Z b = s[j]; v[i] *= v[j]; s[i] = wrapSigned(s[i] * b, W); break; }
                case 16: { const Z b = s[j]; v[i] /= v[j]; s[i] = tdiv(s[i], b); break; }
                case 17: { const Z b = s[j]; v[i] %= v[j]; s[i] = tmod(s[i], b); break; }
                case 18: ++v[i]; s[i] = wrapSigned(s[i] + 1, W); break;
                case 19: --v[i]; s[i] = wrapSigned(s[i] - 1, W); break;
                case 20: { const Z b = s[i]; if(i == j) { v[i]++; s[i] = wrapSigned(b + 1, W); } else { v[j] = v[i]++; s[i] = wrapSigned(b + 1, W); s[j] = b; touched2 = j; } break; }
                case 21: { const Z b = s[i]; if(i == j) { v[i]--; s[i] = wrapSigned(b - 1, W); } else { v[j] = v[i]--; s[i] = wrapSigned(b - 1, W); s[j] = b; touched2 = j; } break; }
                case 22: v[i] = -v[j]; s[i] = -s[j]; break;
                case 23: v[i].inverse(); s[i] = -s[i]; break;
                case 24: v[i].swap(v[j]); if(i != j) { swap(s[i], s[j]); touched2 = j; } break;
                case 25: { if(i == j) break; const Z a = s[k], b = s[l]; const Aesi<W> A = v[k], B = v[l]; Aesi<W>::divide(A, B, v[i], v[j]); if(a == 0 || b == 0) { s[i] = 0; s[j] = 0; } else { s[i] = tdiv(a, b); s[j] = tmod(a, b); } touched2 = j; break; }
                case 26: v[i] = v[j].squareRoot(); s[i] = s[j] > 0 ? Z(sqrt(s[j])) : Z(0); break;
                case 27: { const size_t p = r.below(W + 3); v[i] = Aesi<W>::power2(p); s[i] = p < W ? pow2(p) : Z(0); break; }
                case 28: v[i] = v[j].template precisionCast<64>().template precisionCast<W>(); s[i] = wrapSigned(s[j], 64); break;
                case 29: v[i] = v[j].template precisionCast<W + 32>().template precisionCast<W>(); s[i] = s[j]; break;
                case 30: v[i] = Aesi<W>(v[j].unsignedCast()); s[i] = abs(s[j]); break;
                case 31: { const size_t p = r.below(W); if(s[i] != 0) { v[i].setBit(p, true); Z m = abs(s[i]); mpz_setbit(m.get_mpz_t(), p); s[i] = s[i] < 0 ? Z(-m) : m; } break; }
                case 32: { const Z b = genInt<int>(r); const int bi = int(b.get_si()); switch(r.below(5)) { case 0: v[i] += bi; s[i] = wrapSigned(s[i] + b, W); break; case 1: v[i] -= bi; s[i] = wrapSigned(s[i] - b, W); break; case 2: v[i] *= bi; s[i] = wrapSigned(s[i] * b, W); break; case 3: v[i] /= bi; s[i] = tdiv(s[i], b); break; default: v[i] %= bi; s[i] = b == 0 ? Z(0) : tmod(s[i], b); } break; }
                default: { const Z b = zi(genInt<unsigned long long>(r)); const unsigned long long bi = b.get_ui(); switch(r.below(5)) { case 0: v[i] += bi; s[i] = wrapSigned(s[i] + b, W); break; case 1: v[i] -= bi; s[i] = wrapSigned(s[i] - b, W); break; case 2: v[i] *= bi; s[i] = wrapSigned(s[i] * b, W); break; case 3: v[i] /= bi; s[i] = tdiv(s[i], b); break; default: v[i] %= bi; s[i] = b == 0 ? Z(0) : tmod(s[i], b); } }
            }
            if(s[i] == 0) FEAT("step produced zero"); if(s[i] < 0) FEAT("step produced a negative number");
            const bool deep = W <= 544 ? r.coin(s[i] == 0 ? 2 : 6) : r.coin(s[i] == 0 ? 4 : 20);
            observe<W>(v[i], s[i], r, deep); if(touched2 >= 0) observe<W>(v[touched2], s[touched2], r, deep && s[touched2] == 0);
        }
        for(int i = 0; i < K && !C.stop; ++i) observe<W>(v[i], s[i], r, true);
    }
}
VF_MAIN("S04", run)
