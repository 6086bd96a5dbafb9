// Eight threads run every operation on numbers of their own and on shared constant numbers, perturbed by yields and short pauses.
// Data races are reported by ThreadSanitizer; each thread's results must equal those of the same work done alone afterwards.
#include "battery.hpp"
#include "lite.hpp"
#include <atomic>
#include <barrier>
#include <chrono>
#include <memory>
#include <set>
#include <thread>
#include <vector>
#ifndef VF_WIDTHS
#define VF_WIDTHS 96, 128
#endif
static constexpr int T = 8;
static std::atomic<std::uint64_t> clockTick{0};          // relaxed only: must not order the threads' accesses
static std::atomic<std::uint64_t> progress{0};            // relaxed only
// wall-clock watchdog: ThreadSanitizer defers asynchronous signals, so the CPU-time ticks of the other monitors are not available
static void watchdog() { std::uint64_t last = ~0ull; int same = 0; for(;;) { std::this_thread::sleep_for(std::chrono::seconds(1)); const auto p = progress.load(std::memory_order_relaxed); if(p != last) { last = p; same = 0; } else if(++same >= 120) { lite::emergency("hang"); ::_exit(42); } } }
struct Work : lite::Digests {
    bool perturb = false; bt::Rng noise{0}; std::vector<std::uint64_t> stamps; std::uint64_t rounds = 0;
    void op(const char* n) {
        lite::Digests::op(n); progress.fetch_add(1, std::memory_order_relaxed);
        if(!perturb) return;
        if((++rounds & 63) == 0) stamps.push_back(clockTick.fetch_add(1, std::memory_order_relaxed));
        switch(noise.below(400)) { case 0: case 1: case 2: std::this_thread::yield(); break; case 3: for(volatile int k = int(noise.below(3000)); k > 0; k = k - 1); break; default: break; }
    }
};
template <std::size_t W> struct Shared { Aeu<W> A, B, M; Aesi<W> S, Q; };
template <std::size_t W> static void job(Work& o, const Shared<W>& s, std::uint64_t seed, std::uint64_t n) {
    for(std::uint64_t i = 0; i < n; ++i) {
        bt::Rng r(seed ^ (i * 0xd1342543de82ef95ULL)); bt::all<W>(o, r, i % 4 == 0, true);
        const std::size_t k = r.below(W); const bt::u32 v = bt::special(r);
        bt::arithmetic<W>(o, s.A, s.B); bt::division<W>(o, s.A, s.B); bt::comparison<W>(o, s.A, s.B); bt::shifts<W>(o, s.A, k); bt::access<W>(o, s.A, k, v); bt::access_out_of_range<W>(o, s.B, k % 70, v); bt::casts<W>(o, s.A); bt::builtin<W>(o, s.B, bt::pickInt<unsigned>(r)); if(i % 4 == 0) bt::theory<W>(o, s.A, s.B, s.M);
        bt::sarithmetic<W>(o, s.S, s.Q); bt::sdivision<W>(o, s.S, s.Q); bt::scomparison<W>(o, s.S, s.Q); bt::saccess<W>(o, s.S, k, v); bt::sbuiltin<W>(o, s.Q, bt::pickInt<int>(r)); if(i % 4 == 0) bt::stheory<W>(o, s.S);
        bt::strings<W>(o, s.A, W + 8, true); bt::strings<W>(o, s.S, W + 8, i & 1); const unsigned mode = unsigned(r.below(16)); bt::stream<W, char>(o, s.A, mode); bt::stream<W, wchar_t>(o, s.S, mode); bt::binary<W>(o, s.A, s.B, i & 1);
    }
}
static lite::Digests total; static std::set<std::uint64_t> interleavings; static std::uint64_t switches = 0, groups = 0; static std::string mismatch;
template <std::size_t W> static void runW() {
    lite::curW = int(W); const std::uint64_t rounds = std::uint64_t((W <= 160 ? 14 : W <= 352 ? 8 : 5) * lite::opt.scale * (lite::opt.thorough ? 12 : 1)) + 1, n = 6;
    for(std::uint64_t round = 1; round <= rounds; ++round) {
        if(lite::opt.replay && (lite::opt.onlyW != int(W) || round != lite::opt.onlyIdx)) continue;
        lite::curIdx = round; lite::curOp = "concurrent run"; const std::uint64_t seed = lite::mix(lite::opt.seed * 1000003 + W) ^ (round * 0x9e3779b97f4a7c15ULL);
        bt::Rng r(seed); const auto a = bt::gen<W>(r), b = bt::gen2<W>(r, a), m = bt::gen<W>(r); const Shared<W> s{bt::mk<W>(a), bt::mk<W>(b), bt::mk<W>(m), bt::mks<W>(a, r.coin()), bt::mks<W>(b, r.coin())};
        std::vector<std::unique_ptr<Work>> w, ref; for(int t = 0; t < T; ++t) { w.push_back(std::make_unique<Work>()); ref.push_back(std::make_unique<Work>()); w[t]->perturb = true; w[t]->noise = bt::Rng(seed + 77 * t); }
        std::barrier start(T); std::vector<std::thread> th; clockTick.store(0, std::memory_order_relaxed);
        // in odd rounds all threads do the same work, in even rounds each its own
        auto seedOf = [&](int t) { return round & 1 ? seed + 5 : seed + 1000 * std::uint64_t(t); };
        for(int t = 0; t < T; ++t) th.emplace_back([&, t] { start.arrive_and_wait(); job<W>(*w[t], s, seedOf(t), n); });
        for(auto& x: th) x.join();
        std::vector<int> order(clockTick.load(), -1); for(int t = 0; t < T; ++t) for(auto k: w[t]->stamps) order[k] = t; std::uint64_t h = round; int last = -1; for(int t: order) { h = lite::mix(h ^ std::uint64_t(t)); if(t != last) ++switches; last = t; } interleavings.insert(h); ++groups;
        lite::curOp = "reference run"; 
        for(int t = 0; t < T; ++t) {
            job<W>(*ref[t], s, seedOf(t), n);
            for(int i = 0; i < lite::Digests::cap; ++i) if(ref[t]->names[i]) { if(!w[t]->names[i] || w[t]->dig[i] != ref[t]->dig[i] || w[t]->count[i] != ref[t]->count[i]) if(mismatch.empty()) mismatch = std::string("{\"op\":\"") + ref[t]->names[i] + "\",\"W\":" + std::to_string(W) + ",\"idx\":" + std::to_string(round) + ",\"detail\":\"thread " + std::to_string(t) + " computed other results concurrently than alone\",\"operands\":\"round " + std::to_string(round) + "\"}"; }
            total.evaluations += w[t]->evaluations; total.distinct += w[t]->distinct; for(int i = 0; i < lite::Digests::cap; ++i) if(w[t]->names[i]) { const char* nm = w[t]->names[i]; std::uint64_t hh = 5381; for(const char* p = nm; *p; ++p) hh = hh * 33 + (unsigned char)*p; int k = int(hh % lite::Digests::cap); while(total.names[k] && std::strcmp(total.names[k], nm)) k = (k + 1) % lite::Digests::cap; total.names[k] = nm; total.count[k] += w[t]->count[i]; }
            std::free(w[t]->seen); std::free(ref[t]->seen); w[t]->seen = ref[t]->seen = nullptr;
        }
        lite::evals = total.evaluations; if(!mismatch.empty()) return;
    }
}
template <std::size_t... Ws> static void all(std::index_sequence<Ws...>) { ((mismatch.empty() ? runW<Ws>() : void()), ...); }
int main(int argc, char** argv) {
    lite::setup(argc, argv, false); std::thread(watchdog).detach(); all(std::index_sequence<VF_WIDTHS>{});
    total.cur = -1; lite::report(total, ",\"feats\":{\"threads per run\":" + std::to_string(T) + ",\"concurrent runs\":" + std::to_string(groups) + ",\"distinct interleavings\":" + std::to_string(interleavings.size()) + ",\"observed thread switches\":" + std::to_string(switches) + "}" + (mismatch.empty() ? "" : ",\"fails\":[" + mismatch + "]"));
    if(!mismatch.empty()) std::printf("MISMATCH %s\n", mismatch.c_str());
    return mismatch.empty() ? 0 : 1;
}
