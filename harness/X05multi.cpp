// One program of four translation units that include the headers in different orders: all must agree on every digest and exchange numbers.
#include <AesiMultiprecision/Aesi.h>
#include "lite.hpp"
#include "battery.hpp"
#define DECL(t) void unsigned_##t(lite::Digests&, std::uint64_t); Aeu<288> shift_##t(const Aeu<288>&, Aeu<288>);
#define DECLS(t) void all_##t(lite::Digests&, std::uint64_t); Aesi<288> signed_##t(const Aesi<288>&, Aesi<288>);
DECL(a) DECL(b) DECL(c) DECLS(a) DECLS(b)
static std::string fails; static lite::Digests total;
static void mismatch(const char* op, lite::u64 i, const std::string& d) { if(fails.empty()) fails = "{\"op\":\"" + std::string(op) + "\",\"W\":0,\"idx\":" + std::to_string(i) + ",\"detail\":\"" + d + "\",\"operands\":\"\"}"; }
static void agree(const lite::Digests& x, const lite::Digests& y, lite::u64 i, const char* who) { for(int k = 0; k < x.cap; ++k) if(x.names[k] && (!y.names[k] || x.dig[k] != y.dig[k])) mismatch(x.names[k], i, std::string("translation units ") + who + " disagree"); total.evaluations += x.evaluations; total.distinct += x.distinct; for(int k = 0; k < x.cap; ++k) if(x.names[k]) { total.names[k] = x.names[k]; total.count[k] += x.count[k]; } }
int main(int argc, char** argv) {
    lite::setup(argc, argv); const lite::u64 n = lite::u64(150 * lite::opt.scale * (lite::opt.thorough ? 20 : 1)) + 1; lite::u64 exchanged = 0;
    for(lite::u64 i = 1; i <= n && fails.empty(); ++i) {
        if(lite::opt.replay && i != lite::opt.onlyIdx) continue; lite::curIdx = i; const lite::u64 s = lite::mix(lite::opt.seed * 77 + i);
        auto a = std::make_unique<lite::Digests>(), b = std::make_unique<lite::Digests>(), c = std::make_unique<lite::Digests>(), d = std::make_unique<lite::Digests>(), e = std::make_unique<lite::Digests>();
        unsigned_a(*a, s); unsigned_b(*b, s); unsigned_c(*c, s); agree(*a, *b, i, "a, b"); agree(*a, *c, i, "a, c"); all_a(*d, s); all_b(*e, s); agree(*d, *e, i, "a, b");
        for(auto* p: {a.get(), b.get(), c.get(), d.get(), e.get()}) std::free(p->seen);
        bt::Rng r(s); const auto x = bt::gen<288>(r), y = bt::gen<288>(r); const Aeu<288> X = bt::mk<288>(x), Y = bt::mk<288>(y); const Aesi<288> P = bt::mks<288>(x, r.coin()), Q = bt::mks<288>(y, r.coin());
        if(shift_a(X, Y) != shift_b(X, Y) || shift_c(X, Y) != shift_a(X, Y) || shift_a(X, Y) != (X << 37u) * Y + X % (Y + 1u)) mismatch("exchange of unsigned numbers", i, "translation units disagree");
        Aesi<288> t = Q - P * P; if(!t.isNegative()) t = -t; if(signed_a(P, Q) != signed_b(P, Q) || signed_a(P, Q) != t) mismatch("exchange of signed numbers", i, "translation units disagree");
        exchanged += 6; lite::evals = total.evaluations;
    }
    total.cur = -1; lite::report(total, ",\"feats\":{\"numbers exchanged between translation units\":" + std::to_string(exchanged) + "}" + (fails.empty() ? "" : ",\"fails\":[" + fails + "]"));
    return fails.empty() ? 0 : 1;
}
