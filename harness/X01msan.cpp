// Every operation under MemorySanitizer: results must be fully initialised, and no branch or address may depend on an indeterminate value.
#define BT_STREAMS 0
#include "battery.hpp"
#include "lite.hpp"
#include <sanitizer/msan_interface.h>
#ifndef VF_WIDTHS
#define VF_WIDTHS 96, 128
#endif
struct Checker : lite::Digests {
    void op(const char* n) { lite::curOp = n; lite::Digests::op(n); }
    void put(lite::u64 v) { __msan_check_mem_is_initialized(&v, sizeof v); lite::Digests::put(v); }
    void raw(const void* p, size_t n) { __msan_check_mem_is_initialized(p, n); }
};
static Checker D;
#define S(name, expr) ::bt::see(D, name, expr)
// output parameters and assignment targets may be indeterminate: the library must write them before it reads them
template <std::size_t W> static void outputs(bt::Rng& r) {
    const auto a = bt::gen<W>(r), b = bt::gen2<W>(r, a); const auto A = bt::mk<W>(a); auto B = bt::mk<W>(b); const auto SA = bt::mks<W>(a, r.coin()), SB = bt::mks<W>(b, r.coin());
    if(B.isZero()) B = 1u;
    { Aeu<W> q, m; Aeu<W>::divide(A, B, q, m); S("u divide into indeterminate outputs", q); S("u divide into indeterminate outputs", m); }
    { Aeu<W> x, y; S("u gcd into indeterminate outputs", Aeu<W>::gcd(A, B, x, y)); S("u gcd into indeterminate outputs", x); S("u gcd into indeterminate outputs", y); }
    { Aesi<W> q, m; Aesi<W>::divide(SA, SB, q, m); S("s divide into indeterminate outputs", q); S("s divide into indeterminate outputs", m); }
    { Aeu<W> t; t = A; S("u assignment to an indeterminate number", t); Aeu<W> u; u = 77u; S("u assignment to an indeterminate number", u); u = A + B; S("u assignment to an indeterminate number", u); }
    { Aesi<W> t; t = SA; S("s assignment to an indeterminate number", t); Aesi<W> u; u = -77; S("s assignment to an indeterminate number", u); u = SA + SB; S("s assignment to an indeterminate number", u); Aesi<W> z; z = 0; S("s assignment to an indeterminate number", z); }
    { char c[W + 8]; const std::size_t k = A.template getString<16>(c, W + 8, true); for(std::size_t i = 0; i < k; ++i) D.put((unsigned char)c[i]); D.op("u getString into an indeterminate buffer"); }
    { char c[W + 8]; const std::size_t k = SA.template getString<2>(c, W <= 160 ? W + 8 : 40, true); for(std::size_t i = 0; i < k; ++i) D.put((unsigned char)c[i]); D.op("s getString into an indeterminate buffer"); }
}
template <std::size_t W> static void runW() {
    if(lite::opt.replay && lite::opt.onlyW != int(W)) return;
    lite::curW = int(W); const std::uint64_t n = std::uint64_t((W <= 160 ? 700 : W <= 352 ? 250 : W <= 544 ? 100 : 20) * lite::opt.scale * (lite::opt.thorough ? 15 : 1)) + 1;
    for(std::uint64_t i = 1; i <= n; ++i) { if(lite::opt.replay && i != lite::opt.onlyIdx) continue; lite::curIdx = i; D.trace = lite::opt.replay; bt::Rng r(lite::mix(lite::opt.seed * 1000003 + W) ^ (i * 0xd1342543de82ef95ULL)); bt::all<W>(D, r, W <= 352 || i % 8 == 0, true); outputs<W>(r); lite::evals = D.evaluations; }
}
template <std::size_t... Ws> static void all(std::index_sequence<Ws...>) { (runW<Ws>(), ...); }
int main(int argc, char** argv) { lite::setup(argc, argv); all(std::index_sequence<VF_WIDTHS>{}); lite::report(D, ""); return 0; }
