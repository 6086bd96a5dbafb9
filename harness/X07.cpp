// Work monitor: every basic block executed is counted (trace-pc instrumentation); each operation must end within a fixed polynomial of the width.
#include "battery.hpp"
#include "lite.hpp"
#include <vector>
#ifndef VF_WIDTHS
#define VF_WIDTHS 96, 128
#endif
static std::uint64_t blocks = 0, ceiling = ~std::uint64_t(0);
extern "C" __attribute__((no_sanitize_coverage, noinline)) void overBudget() { blocks = 0; ceiling = ~std::uint64_t(0); lite::emergency("unbounded work after this operation"); ::_exit(43); }
static std::uintptr_t lowest = ~std::uintptr_t(0), floorAt = 0;          // the deepest stack frame seen, and how deep it may be
extern "C" __attribute__((no_sanitize_coverage, noinline)) void overStack() { floorAt = 0; lite::emergency("unbounded stack after this operation"); ::_exit(43); }
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { if(++blocks > ceiling) overBudget(); const auto here = reinterpret_cast<std::uintptr_t>(__builtin_frame_address(0)); if(here < lowest) { lowest = here; if(here < floorAt) overStack(); } }

// classes of operations; N = width in bits, n = blocks
enum Kind { linear, quadratic, division, parse, text, root, euclid, power };
static Kind kindOf(const char* s) {
    const auto has = [s](const char* t) { return std::strstr(s, t) != nullptr; };
    if(has("powm")) return power; if(has("gcd") || has("Bezout") || has("lcm")) return euclid; if(has("squareRoot")) return root;
    if(has("text)") || has("string") && has("Ae") || has("literal)")) return parse; if(has("getString") || has("stream")) return text;
    if(has("/") || has("%") || has("divide")) return division; if(has("*")) return quadratic;
    return linear;
}
// about twenty times what the library needs, in the terms of the schoolbook algorithms
static std::uint64_t budget(Kind k, std::uint64_t W) {
    const std::uint64_t n = W / 32, lin = 300 * n + 3000, div = W * (120 * n + 400);
    switch(k) { case linear: return lin; case quadratic: return 40 * n * n + lin; case division: return div + lin; case parse: return (W / 3 + 20) * lin; case text: return (W + 20) * div; case root: return (W / 16 + 30) * div; case euclid: return (W / 4 + 60) * div; default: return 600 * div; }
}
static std::uint64_t worst[lite::Digests::cap] = {}, deepest[lite::Digests::cap] = {};
// temporaries of the call chain and the digits of a numeral: a fixed number of numbers' sizes
static std::uint64_t stackBudget(std::uint64_t W) { return 200 * (W / 8) + 32768; }
struct Work : lite::Digests {
    std::uint64_t mark = 0, W = 0; bool failed = false;
    __attribute__((noinline)) void op(const char* name) {
        const std::uint64_t used = blocks - mark; lite::Digests::op(name); lite::curOp = name; if(used > worst[cur]) worst[cur] = used;
        if(used > budget(kindOf(name), W) && !failed) { failed = true; std::fprintf(stderr, "runtime error: %s executed %llu basic blocks, more than the %llu allowed at width %llu\n", name, (unsigned long long)used, (unsigned long long)budget(kindOf(name), W), (unsigned long long)W); lite::emergency("too much work"); ::_exit(43); }
        if(top && lowest < top && top - lowest > deepest[cur]) deepest[cur] = top - lowest;
        rearm();
    }
    void put(std::uint64_t v) { lite::Digests::put(v); rearm(); }
    std::uintptr_t top = 0;
    __attribute__((noinline, no_sanitize_coverage)) void rearm() { mark = blocks; ceiling = mark + budget(power, W); top = reinterpret_cast<std::uintptr_t>(__builtin_frame_address(0)); lowest = top; floorAt = top > stackBudget(W) ? top - stackBudget(W) : 0; }
};
static Work D;
template <std::size_t W> static void runW() {
    if(lite::opt.replay && lite::opt.onlyW != int(W)) return;
    lite::curW = int(W); D.W = W; for(auto& w: worst) w = 0; for(auto& w: deepest) w = 0; const std::uint64_t n = std::uint64_t((W <= 160 ? 4000 : W <= 352 ? 1200 : W <= 544 ? 400 : W <= 1056 ? 100 : 16) * lite::opt.scale * (lite::opt.thorough ? 15 : 1)) + 1;
    for(std::uint64_t i = 1; i <= n; ++i) { if(lite::opt.replay && i != lite::opt.onlyIdx) continue; lite::curIdx = i; D.trace = lite::opt.replay; bt::Rng r(lite::mix(lite::opt.seed * 1000003 + W + 99) ^ (i * 0xd1342543de82ef95ULL)); D.rearm(); bt::all<W>(D, r, W <= 352 || i % 4 == 0, true); lite::evals = D.evaluations; }
    if(std::getenv("VF_SHOW")) for(int i = 0; i < D.cap; ++i) if(D.names[i]) std::printf("%zu %-26s %12llu  %5.1f%%  stack %8llu %5.1f%%\n", W, D.names[i], (unsigned long long)worst[i], 100.0 * double(worst[i]) / double(budget(kindOf(D.names[i]), W)), (unsigned long long)deepest[i], 100.0 * double(deepest[i]) / double(stackBudget(W)));
}
// very wide numbers: the operations that are to be linear, and one multiplication
template <std::size_t W> static void runWide() {
    if(lite::opt.replay && lite::opt.onlyW != int(W)) return;
    lite::curW = int(W); D.W = W; for(auto& w: worst) w = 0; for(auto& w: deepest) w = 0; const std::uint64_t n = std::uint64_t(40 * (lite::opt.thorough ? 15 : 1));
    for(std::uint64_t c = 1; c <= n; ++c) {
        if(lite::opt.replay && c != lite::opt.onlyIdx) continue; lite::curIdx = c; D.trace = lite::opt.replay; bt::Rng r(lite::mix(lite::opt.seed * 1000003 + W + 99) ^ (c * 0xd1342543de82ef95ULL)); D.rearm();
        const bt::Limbs<W> a = bt::gen<W>(r), b = bt::gen2<W>(r, a); const Aeu<W> A = bt::mk<W>(a), B = bt::mk<W>(b); const Aesi<W> SA = bt::mks<W>(a, r.coin()), SB = bt::mks<W>(b, r.coin()); const std::size_t i = bt::distance(r, W); D.rearm();
        for(int k = 0; k < 12; ++k) bt::shifts<W>(D, A, bt::distance(r, W)); for(std::size_t k: {std::size_t(0), std::size_t(1), std::size_t(31), std::size_t(32), std::size_t(33), W - 33, W - 32, W - 31, W - 1, W, W + 1}) bt::shifts<W>(D, A, k);
        bt::comparison<W>(D, A, B); bt::access<W>(D, A, i, bt::special(r)); bt::access_out_of_range<W>(D, A, r.below(70), 1); bt::casts<W>(D, A); bt::scomparison<W>(D, SA, SB); bt::saccess<W>(D, SA, i, bt::special(r));
#define LIN(name, expr) bt::see(D, name, expr)
        LIN("u a+b", A + B); LIN("u a-b", A - B); LIN("u -a", -A); LIN("u ~a", ~A); LIN("u a&b", A & B); LIN("u a|b", A | B); LIN("u a^b", A ^ B); LIN("s a+b", SA + SB); LIN("s a-b", SA - SB); LIN("s -a", -SA);
        { Aeu<W> t = A; LIN("u ++a", ++t); LIN("u --a", --t); LIN("u a++", t++); LIN("u a--", t--); t += t; LIN("u a+=a", t); t -= t; LIN("u a-=a", t); } { Aesi<W> t = SA; LIN("s ++a", ++t); LIN("s --a", --t); LIN("s a++", t++); LIN("s a--", t--); t += t; LIN("s a+=a", t); t -= t; LIN("s a-=a", t); }
        const unsigned u = bt::special(r); LIN("u a+i", A + u); LIN("u a-i", A - u); LIN("u i+a", u + A); LIN("u a&i", A & u); LIN("u a|i", A | u); LIN("u a^i", A ^ u); LIN("s a+i", SA + int(u)); LIN("s a-i", SA - int(u)); LIN("u a==i", A == u); LIN("s a<i", SA < int(u)); LIN("u Aeu(i)", Aeu<W>(u)); LIN("s Aesi(i)", Aesi<W>(int(u)));
        if(c % 10 == 0) { LIN("u a*b", A * B); LIN("s a*b", SA * SB); }
#undef LIN
        bt::binary<W>(D, A, B, r.coin()); lite::evals = D.evaluations;
    }
    if(std::getenv("VF_SHOW")) for(int i = 0; i < D.cap; ++i) if(D.names[i]) std::printf("%zu %-26s %12llu  %5.1f%%  stack %8llu %5.1f%%\n", W, D.names[i], (unsigned long long)worst[i], 100.0 * double(worst[i]) / double(budget(kindOf(D.names[i]), W)), (unsigned long long)deepest[i], 100.0 * double(deepest[i]) / double(stackBudget(W)));
}
template <std::size_t W> static void either() { if constexpr(W > 4096) runWide<W>(); else runW<W>(); }
template <std::size_t... Ws> static void all(std::index_sequence<Ws...>) { (either<Ws>(), ...); }
int main(int argc, char** argv) {
    lite::setup(argc, argv); all(std::index_sequence<VF_WIDTHS>{}); ceiling = ~std::uint64_t(0);
    lite::report(D, ",\"feats\":{\"basic blocks counted\":" + std::to_string(blocks) + "}"); return 0;
}
