// The same operations on the same operands, once in a constant expression and once at run time from volatile seeds.
#define BT_STREAMS 0
#include "battery.hpp"
#include "lite.hpp"
#include <array>
#ifndef VF_WIDTHS
#define VF_WIDTHS 96, 128
#endif
#ifndef VF_CASES
#define VF_CASES 4
#endif
#ifndef VF_CHEAP
#define VF_CHEAP VF_CASES
#endif
#ifndef VF_SEED
#define VF_SEED 1
#endif
#ifdef VF_NO_CONSTEXPR
#define VF_CX const
#else
#define VF_CX constexpr
#endif
struct Rec { static constexpr int cap = 420; bt::u64 h[cap] = {}; const char* name[cap] = {}; int n = 0; constexpr void op(const char* s) { name[n] = s; h[n] = 0; ++n; } constexpr void put(bt::u64 v) { h[n - 1] = bt::mix64(h[n - 1] ^ v); } constexpr void raw(const void*, std::size_t) {} };
// a long run of equal bits makes extended gcd and roots the costliest cases: operand shapes are those of the battery
enum Group { Arith, Divide, Built, Shift, Compare, Access, Theory, Cast, SArith, SDivide, SBuilt, SCompare, SAccess, STheory, Ctor, Text, groups };
static const char* const groupNames[] = {"arithmetic", "division", "built-in operands", "shifts", "comparison", "access", "number theory", "casts", "signed arithmetic", "signed division", "signed built-in operands", "signed comparison", "signed access", "signed theory", "construction", "buffer output"};
template <std::size_t W, class O> constexpr void construct(O& o, bt::Rng& r) {
#define S(name, expr) ::bt::see(o, name, expr)
    S("Aeu{}", Aeu<W>{}); S("Aesi{}", Aesi<W>{}); S("Aeu(unsigned char)", Aeu<W>(bt::pickInt<unsigned char>(r))); S("Aeu(unsigned short)", Aeu<W>(bt::pickInt<unsigned short>(r))); S("Aeu(unsigned)", Aeu<W>(bt::pickInt<unsigned>(r))); S("Aeu(unsigned long)", Aeu<W>(bt::pickInt<unsigned long>(r))); S("Aeu(bool)", Aeu<W>(r.coin())); S("Aeu(char16_t)", Aeu<W>(char16_t(r.next())));
    S("Aesi(signed char)", Aesi<W>(bt::pickInt<signed char>(r))); S("Aesi(short)", Aesi<W>(bt::pickInt<short>(r))); S("Aesi(int)", Aesi<W>(bt::pickInt<int>(r))); S("Aesi(long)", Aesi<W>(bt::pickInt<long>(r))); S("Aesi(long long)", Aesi<W>(bt::pickInt<long long>(r))); S("Aesi(unsigned)", Aesi<W>(bt::pickInt<unsigned>(r))); S("Aesi(unsigned long)", Aesi<W>(bt::pickInt<unsigned long>(r)));
    { Aeu<W> a = bt::mk<W>(bt::gen<W>(r)), b = a; b = bt::pickInt<unsigned>(r); S("assignment", b); b = a; S("copy", b); const bool neg = r.coin(); Aesi<W> s = bt::mks<W>(bt::gen<W>(r), neg), t = s; t = bt::pickInt<int>(r); S("signed assignment", t); t = s; S("signed copy", t); }
#undef S
}
template <unsigned char base, bool upper, typename Char, class N, class O> constexpr void buffer(O& o, const char* name, const N& n, std::size_t size, bool show) { std::array<Char, 600> b{}; const std::size_t k = n.template getString<base, upper>(b.data(), size < 600 ? size : 600, show); o.op(name); o.put(k); for(std::size_t i = 0; i < k; ++i) o.put(bt::u64(b[i])); }
template <std::size_t W, class O> constexpr void output(O& o, const Aeu<W>& A, const Aesi<W>& P, bt::Rng& r) {
    const std::size_t size = r.coin() ? W + 8 : r.below(W / 4 + 8); const bool show = r.coin();
    buffer<16, false, char>(o, "getString<16>", A, size, show); buffer<16, true, wchar_t>(o, "getString<16> wide", P, size, show); if(W <= 256) { buffer<10, false, char>(o, "getString<10>", P, size, show); buffer<8, false, char>(o, "getString<8>", A, size, show); buffer<2, false, wchar_t>(o, "getString<2> wide", P, size, show); }
}
template <std::size_t W> constexpr Rec eval(int g, bt::u64 seed, int i) {
    Rec o; bt::Rng r(seed); const bool heavy = g == Theory || g == STheory || g == Text || g == Divide || g == SDivide || g == Built || g == SBuilt, edges = heavy ? i % 2 == 1 : i < 12; const auto a = edges ? bt::edge<W>(heavy ? std::size_t(seed % 12) : std::size_t(i)) : bt::gen<W>(r), b = edges && r.coin() ? bt::edge<W>(std::size_t(r.below(12))) : bt::gen2<W>(r, a), m = bt::gen<W>(r); const Aeu<W> A = bt::mk<W>(a), B = bt::mk<W>(b), M = bt::mk<W>(m); const Aesi<W> P = bt::mks<W>(a, r.coin()), Q = bt::mks<W>(b, r.coin()); const std::size_t k = r.below(W); const bt::u32 v = bt::special(r); const bt::u64 w = r.below(5);
    switch(g) {
        case Arith: bt::arithmetic<W>(o, A, B); break; case Divide: bt::division<W>(o, A, B); break;
        case Built: if(w == 0) bt::builtin<W>(o, A, bt::pickInt<unsigned char>(r)); else if(w == 1) bt::builtin<W>(o, A, bt::pickInt<unsigned short>(r)); else if(w == 2) bt::builtin<W>(o, A, bt::pickInt<unsigned>(r)); else bt::builtin<W>(o, A, bt::pickInt<unsigned long>(r)); break;
        case Shift: bt::shifts<W>(o, A, w ? k : W + k); break; case Compare: bt::comparison<W>(o, A, B); break; case Access: bt::access<W>(o, A, k, v); bt::access_out_of_range<W>(o, A, k % 70, v); break;
        case Theory: bt::theory<W>(o, A, B, M); break; case Cast: bt::casts<W>(o, A); break;
        case SArith: bt::sarithmetic<W>(o, P, Q); break; case SDivide: bt::sdivision<W>(o, P, Q); bt::sdivision<W>(o, P, Aesi<W>{}); break;
        case SBuilt: if(w == 0) bt::sbuiltin<W>(o, P, bt::pickInt<signed char>(r)); else if(w == 1) bt::sbuiltin<W>(o, P, bt::pickInt<int>(r)); else if(w == 2) bt::sbuiltin<W>(o, P, bt::pickInt<unsigned>(r)); else if(w == 3) bt::sbuiltin<W>(o, P, bt::pickInt<long>(r)); else bt::sbuiltin<W>(o, P, bt::pickInt<unsigned long>(r)); break;
        case SCompare: bt::scomparison<W>(o, P, Q); break; case SAccess: bt::saccess<W>(o, P, k, v); break; case STheory: bt::stheory<W>(o, P); break;
        case Ctor: construct<W>(o, r); break; case Text: output<W>(o, A, P, r); break;
    }
    return o;
}
template <std::size_t W, int g, int i> constexpr bt::u64 seedOf() { return bt::mix64(bt::u64(VF_SEED) * 1000003 + W) + bt::u64(g) * 1000 + bt::u64(i); }
template <std::size_t W, int g, int i> struct Constant { static VF_CX Rec value = eval<W>(g, seedOf<W, g, i>(), i); };
#ifdef VF_NO_CONSTEXPR
template <std::size_t W, int g, int i> const Rec Constant<W, g, i>::value;
#endif
static lite::Digests D; static std::string fails; static unsigned long compared = 0;
template <std::size_t W, int g, int i> static void one() {
    volatile bt::u64 seed = seedOf<W, g, i>(); volatile int grp = g; lite::curW = int(W); lite::curIdx = bt::u64(g * 1000 + i + 1); lite::curOp = groupNames[g];
    if(lite::opt.replay && (lite::opt.onlyW != int(W) || lite::opt.onlyIdx != lite::curIdx)) return;
    volatile int number = i; const Rec now = eval<W>(grp, seed, number);
#ifdef VF_NO_CONSTEXPR
    const Rec& then = now;
#else
    const Rec& then = Constant<W, g, i>::value;
#endif
    if(now.n != then.n && fails.empty()) fails = "{\"op\":\"" + std::string(groupNames[g]) + "\",\"W\":" + std::to_string(W) + ",\"idx\":" + std::to_string(lite::curIdx) + ",\"detail\":\"different control flow at compile time and at run time\",\"operands\":\"case " + std::to_string(i) + "\"}";
    for(int k = 0; k < now.n && k < then.n; ++k) { D.op(now.name[k]); D.put(now.h[k]); ++compared; if(lite::opt.replay) std::printf(" constant=%llx", (unsigned long long)then.h[k]); if(now.h[k] != then.h[k] && fails.empty()) fails = "{\"op\":\"" + std::string(now.name[k]) + "\",\"W\":" + std::to_string(W) + ",\"idx\":" + std::to_string(lite::curIdx) + ",\"detail\":\"the constant differs from the run-time value\",\"operands\":\"case " + std::to_string(i) + " of " + groupNames[g] + "\"}"; }
    lite::evals = D.evaluations;
}
template <std::size_t W, int g, int... is> static void cases(std::integer_sequence<int, is...>) { (one<W, g, is>(), ...); }
template <std::size_t W, int... gs> static void allGroups(std::integer_sequence<int, gs...>) { (cases<W, gs>(std::make_integer_sequence<int, ((gs == Theory || gs == STheory || gs == Text) && (W > 256) ? 1 : gs == Theory || gs == STheory || gs == Text || gs == Divide || gs == SDivide || gs == Built || gs == SBuilt ? VF_CASES : VF_CHEAP)>{}), ...); }
template <std::size_t... Ws> static void all(std::index_sequence<Ws...>) { (allGroups<Ws>(std::make_integer_sequence<int, groups>{}), ...); }
int main(int argc, char** argv) {
    lite::setup(argc, argv); D.trace = lite::opt.replay; all(std::index_sequence<VF_WIDTHS>{}); D.trace = false;
    lite::report(D, ",\"feats\":{\"compile-time results compared\":" + std::to_string(compared) + "}" + (fails.empty() ? "" : ",\"fails\":[" + fails + "]"));
    return fails.empty() ? 0 : 1;
}
