// Reporting for harnesses without GMP: per-operation digests, optional tracing of one case.
#pragma once
#include <cstdio>
#include <memory>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <string>
namespace lite {
using u64 = std::uint64_t;
struct Options { u64 seed = 1; bool thorough = false; const char* out = nullptr; double scale = 1; u64 onlyIdx = 0; int onlyW = 0; bool replay = false; } inline opt;
inline int fd = -1; inline volatile u64 evals = 0; inline const char* volatile curOp = "-"; inline volatile int curW = 0; inline volatile u64 curIdx = 0;
inline void emergency(const char* st) { char b[400]; int k = std::snprintf(b, sizeof b, "{\"status\":\"%s\",\"op\":\"%s\",\"W\":%d,\"idx\":%llu,\"evaluations\":%llu}\n", st, (const char*)curOp, (int)curW, (unsigned long long)curIdx, (unsigned long long)evals); if(fd >= 0) { ssize_t r = ::write(fd, b, size_t(k)); (void)r; } }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void onDeath() { emergency("sanitizer"); }
inline void onTick(int) { static u64 last = 0; static int same = 0; if(evals == last) { if(++same >= 90) { emergency("hang"); ::_exit(42); } } else { last = evals; same = 0; } }
inline void onCrash(int sig) { char s[32]; std::snprintf(s, sizeof s, "signal %d", sig); emergency(s); std::signal(sig, SIG_DFL); ::raise(sig); }
inline void setup(int argc, char** argv, bool ticks = true) {
    for(int i = 1; i < argc; ++i) { auto v = [&] { return i + 1 < argc ? argv[++i] : (char*)""; }; if(!std::strcmp(argv[i], "--seed")) opt.seed = std::strtoull(v(), nullptr, 10); else if(!std::strcmp(argv[i], "--tier")) opt.thorough = !std::strcmp(v(), "thorough"); else if(!std::strcmp(argv[i], "--out")) opt.out = v(); else if(!std::strcmp(argv[i], "--scale")) opt.scale = std::atof(v()); else if(!std::strcmp(argv[i], "--only")) { opt.replay = true; opt.onlyW = std::atoi(v()); opt.onlyIdx = std::strtoull(v(), nullptr, 10); } }
    if(opt.out) fd = ::open(opt.out, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath); else for(int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) std::signal(s, onCrash);
    if(ticks) { struct sigaction st{}; st.sa_handler = onTick; st.sa_flags = SA_RESTART; sigaction(SIGVTALRM, &st, nullptr); itimerval it{{1, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
}
constexpr u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
// digests per operation name; names are string literals, looked up by content so that translation units agree
struct Digests {
    static constexpr int cap = 512; const char* names[cap] = {}; u64 dig[cap] = {}, count[cap] = {}; int n = 0; int cur = -1; u64 evaluations = 0; bool trace = false; u64 caseDigest = 0;
    // distinct (operation, width, result) triples with a word above one, by hash
    u64* seen = nullptr; u64 distinct = 0; u64 resHash = 0; bool nontrivial = false;
    void settle() { if(cur < 0 || !nontrivial) return; if(!seen) seen = (u64*)std::calloc(u64(1) << 22, 8); if(distinct * 10 > (u64(1) << 22) * 7ull) return; u64 h = mix(resHash ^ (u64(cur) << 40) ^ u64(curW)); if(!h) h = 1; u64 i = h & ((u64(1) << 22) - 1); while(seen[i]) { if(seen[i] == h) return; i = (i + 1) & ((u64(1) << 22) - 1); } seen[i] = h; ++distinct; }
    void op(const char* name) { settle(); resHash = 0; nontrivial = false; if(trace) std::printf("\n%s:", name); u64 h = 5381; for(const char* p = name; *p; ++p) h = h * 33 + (unsigned char)*p; int i = int(h % cap); while(names[i] && std::strcmp(names[i], name)) i = (i + 1) % cap; if(!names[i]) { names[i] = name; ++n; } cur = i; ++count[i]; ++evaluations; caseDigest = mix(caseDigest ^ h); }
    void put(u64 v) { if(trace) std::printf(" %llx", (unsigned long long)v); dig[cur] = mix(dig[cur] ^ v); caseDigest = mix(caseDigest ^ v); resHash = mix(resHash ^ v); if(v > 1) nontrivial = true; }
    void raw(const void*, size_t) {}
};
inline void write(const std::string& s) { if(fd < 0) { return; } std::size_t o = 0; while(o < s.size()) { const ssize_t k = ::write(fd, s.data() + o, s.size() - o); if(k <= 0) break; o += std::size_t(k); } }
inline void report(Digests& D, const std::string& more) {
    D.settle(); if(opt.replay) std::printf("\n");
    std::string s = "{\"status\":\"ok\",\"evaluations\":" + std::to_string(D.evaluations) + ",\"distinct\":" + std::to_string(D.distinct) + ",\"ops\":{"; bool f = true;
    for(int i = 0; i < D.cap; ++i) if(D.names[i]) { s += std::string(f ? "" : ",") + "\"" + D.names[i] + "\":" + std::to_string(D.count[i]); f = false; }
    write(s + "}" + more + "}\n");
}
}
