// Digest of every operation over a seeded workload; the driver compares the digests of differently built programs.
#include "battery.hpp"
#include "lite.hpp"
#include <vector>
#ifndef VF_WIDTHS
#define VF_WIDTHS 96, 128
#endif
struct Result { int W; std::vector<std::uint64_t> cases; };
static std::vector<Result> results; static lite::Digests D;
template <std::size_t W> static void runW() {
    if(lite::opt.replay && lite::opt.onlyW != int(W)) return;
    Result R{int(W), {}}; lite::curW = int(W); const std::uint64_t n = std::uint64_t((W <= 160 ? 2500 : W <= 352 ? 900 : W <= 544 ? 300 : W <= 1056 ? 60 : 12) * lite::opt.scale * (lite::opt.thorough ? 15 : 1)) + 1;
    for(std::uint64_t i = 1; i <= n; ++i) { if(lite::opt.replay && i != lite::opt.onlyIdx) continue; lite::curIdx = i; D.trace = lite::opt.replay; D.caseDigest = 0; bt::Rng r(lite::mix(lite::opt.seed * 1000003 + W) ^ (i * 0xd1342543de82ef95ULL)); bt::all<W>(D, r, W <= 352 || i % 8 == 0, BT_BEYOND); R.cases.push_back(D.caseDigest); lite::evals = D.evaluations; }
    results.push_back(R);
}
template <std::size_t... Ws> static void all(std::index_sequence<Ws...>) { (runW<Ws>(), ...); }
int main(int argc, char** argv) {
    lite::setup(argc, argv); all(std::index_sequence<VF_WIDTHS>{});
    std::string s = ",\"opDigests\":{"; bool f = true; for(int i = 0; i < D.cap; ++i) if(D.names[i]) { s += std::string(f ? "" : ",") + "\"" + D.names[i] + "\":\"" + std::to_string(D.dig[i]) + "\""; f = false; }
    s += "},\"caseDigests\":{"; f = true; for(auto& r: results) { s += std::string(f ? "" : ",") + "\"" + std::to_string(r.W) + "\":["; f = false; for(std::size_t k = 0; k < r.cases.size(); ++k) { if(k) s += ","; s += "\"" + std::to_string(r.cases[k]) + "\""; } s += "]"; }
    lite::report(D, s + "}");
    return 0;
}
