// Monitoring runtime shared by all harnesses: seeded case streams, oracle glue (GMP), observers, crash/hang reporting.
// Everything here talks to the library through its public interface only.
#pragma once
#ifndef VF_NO_LIB
#include <AesiMultiprecision/Aesi.h>
#endif
#include <gmpxx.h>
#include <csignal>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <limits>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>

namespace vf {
using u32 = std::uint32_t; using u64 = std::uint64_t; using Z = mpz_class;

// ---------------------------------------------------------------- randomness
inline u64 mix64(u64 z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(mix64(seed)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool coin(unsigned k = 2) { return below(k) == 0; }
};

// ---------------------------------------------------------------- context
struct Failure { std::string op, detail, operands; int W; u64 idx; };
struct Opnd { const char* name; const Z* z; };
struct Counter { std::string name; u64 n; };

struct Context {
    std::string prop, unit, out; u64 seed = 1; bool thorough = false, check = true; double scale = 1; int hangSeconds = 60; u64 every = 1;
    bool replay = false; u64 onlyIdx = 0; int onlyW = 0; 
    int W = 0; u64 idx = 0; const char* op = "-"; volatile u64 evals = 0; bool stop = false;
    Opnd ops[8]; int nops = 0; u64 opndHash = 0; bool nontrivial = false; std::string note;
    std::deque<Counter> opCounts, feats; std::vector<Failure> fails; std::vector<std::string> samples; std::vector<u64> table; u64 distinct = 0;
    int fd = -1; u64 sampleEvery = 1, sampleNext = 1;

    u64& counter(std::deque<Counter>& d, const char* n) { for(auto& c: d) if(c.name == n) return c.n; d.push_back({n, 0}); return d.back().n; }
    u64& opRef(const char* n) { return counter(opCounts, n); }
    u64& featRef(const char* n) { return counter(feats, n); }
    // number of cases: base count scaled by tier/scale
    u64 n(u64 quick, double thoroughFactor = 10) const { double v = double(quick) * scale * (thorough ? thoroughFactor : 1.0) * (W > 8192 ? 2048.0 * 8192 / (double(W) * W) : 1.0); return v < 1 ? 1 : u64(v); }

    void width(int w) { W = w; idx = 0; }
    // starts the next case; false: skip its body
    bool begin() { ++idx; nops = 0; opndHash = 0; nontrivial = false; note.clear(); if(stop) return false; if(replay) return W == onlyW && idx == onlyIdx; return every <= 1 || mix64(idx * 0x9e3779b97f4a7c15ULL + u64(W) + seed) % every == 0; }
    Rng rng() const { return Rng(mix64(seed * 0x1000003ULL + u64(W)) ^ (idx * 0xd1342543de82ef95ULL)); }
    static u64 hashZ(const Z& z) { u64 h = 1469598103934665603ULL + (sgn(z) < 0); const mp_limb_t* p = mpz_limbs_read(z.get_mpz_t()); for(size_t i = 0, e = mpz_size(z.get_mpz_t()); i < e; ++i) h = mix64(h ^ p[i]); return h; }
    void operand(const char* name, const Z& z) { ops[nops++] = {name, &z}; opndHash = mix64(opndHash * 31 + hashZ(z)); if(mpz_cmpabs_ui(z.get_mpz_t(), 1) > 0) nontrivial = true; }
    void opHash(u64 h) { opndHash = mix64(opndHash * 31 + h); nontrivial = true; }
    void resetOperands(int keep = 0) { nops = keep; }
    std::string dump() const { std::string s; for(int i = 0; i < nops; ++i) { if(i) s += ", "; s += ops[i].name; s += "="; s += hex(*ops[i].z); } if(!note.empty()) { if(!s.empty()) s += ", "; s += note; } return s; }
    static std::string hex(const Z& z) { return (sgn(z) < 0 ? "-0x" : "0x") + Z(abs(z)).get_str(16); }
    void at(const char* name, u64& count) {
        op = name; ++count; evals = evals + 1;
        if(replay) { std::printf("case W=%d idx=%llu op=[%s] %s\n", W, (unsigned long long)idx, op, dump().c_str()); std::fflush(stdout); }
        if(nontrivial) note_distinct(mix64(opndHash ^ (u64(W) << 48) ^ (u64)(uintptr_t)&count));
        if(evals >= sampleNext && samples.size() < 6) { sampleNext = evals * 7 + 3; samples.push_back("W=" + std::to_string(W) + " " + name + " " + cut(dump())); }
    }
    static std::string cut(std::string s) { if(s.size() > 300) { s.resize(300); s += "..."; } return s; }
    void note_distinct(u64 h) {
        if(table.empty()) table.assign(u64(1) << 21, 0);
        if(distinct * 10 > table.size() * 7) { if(table.size() >= (u64(1) << 24)) return; std::vector<u64> t(table.size() * 4, 0); for(u64 x: table) if(x) { u64 i = x & (t.size() - 1); while(t[i]) i = (i + 1) & (t.size() - 1); t[i] = x; } table.swap(t); }
        if(!h) h = 1;
        u64 i = h & (table.size() - 1); while(table[i]) { if(table[i] == h) return; i = (i + 1) & (table.size() - 1); }
        table[i] = h; ++distinct;
    }
    void fail(const std::string& detail) {
        if(!check) return;
        if(replay) std::printf("MISMATCH op=[%s] %s\n", op, detail.c_str());
        fails.push_back({op, detail, dump(), W, idx}); stop = true;
    }
    void eq(const Z& got, const Z& want) { if(got != want) fail("got " + hex(got) + " want " + hex(want)); }
    void eqs(const std::string& got, const std::string& want) { if(got != want) fail("got \"" + esc(got) + "\" want \"" + esc(want) + "\""); }
    static std::string esc(const std::string& s) { std::string r; char b[8]; for(unsigned char c: s) { if(c < 32 || c >= 127 || c == '"' || c == '\\') { std::snprintf(b, sizeof b, "<%02x>", c); r += b; } else r += char(c); } return r; }
    static std::string json(const std::string& s) { std::string r = "\""; char b[8]; for(unsigned char c: s) { if(c < 32 || c >= 127 || c == '"' || c == '\\') { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += char(c); } return r + "\""; }
    void put(const std::string& s) { if(fd < 0) return; size_t o = 0; while(o < s.size()) { ssize_t k = ::write(fd, s.data() + o, s.size() - o); if(k <= 0) break; o += size_t(k); } }
    void finish() {
        std::string s = "{\"status\":\"" + std::string(fails.empty() ? "ok" : "fail") + "\",\"evaluations\":" + std::to_string(evals) + ",\"distinct\":" + std::to_string(distinct) + ",\"ops\":{";
        bool f = true; for(auto& c: opCounts) { if(!f) s += ","; f = false; s += json(c.name) + ":" + std::to_string(c.n); }
        s += "},\"feats\":{"; f = true; for(auto& c: feats) { if(!f) s += ","; f = false; s += json(c.name) + ":" + std::to_string(c.n); }
        s += "},\"samples\":["; f = true; for(auto& c: samples) { if(!f) s += ","; f = false; s += json(c); }
        s += "],\"fails\":["; f = true; for(auto& x: fails) { if(!f) s += ","; f = false; s += "{\"op\":" + json(x.op) + ",\"W\":" + std::to_string(x.W) + ",\"idx\":" + std::to_string(x.idx) + ",\"detail\":" + json(x.detail) + ",\"operands\":" + json(x.operands) + "}"; }
        s += "]}\n"; put(s);
    }
};
inline Context C;

#define VF_AT(name) do { static ::vf::u64& vf_r = ::vf::C.opRef(name); ::vf::C.at(name, vf_r); } while(0)
#define VEQ(name, got, want) do { VF_AT(name); const ::vf::Z vf_w = ::vf::Z(want); const ::vf::Z vf_g = ::vf::Z(got); ::vf::C.eq(vf_g, vf_w); } while(0)
#define VOK(name, cond) do { VF_AT(name); if(!(cond)) ::vf::C.fail("condition does not hold: " #cond); } while(0)
#define VEQS(name, got, want) do { VF_AT(name); ::vf::C.eqs(got, want); } while(0)
#define VBOOL(name, got, want) do { VF_AT(name); const bool vf_w = (want); const bool vf_g = (got); if(vf_g != vf_w) ::vf::C.fail(vf_g ? "got true want false" : "got false want true"); } while(0)
#define FEAT(name) do { static ::vf::u64& vf_r = ::vf::C.featRef(name); ++vf_r; } while(0)

// ---------------------------------------------------------------- crash and hang monitor
inline void emergency(const char* status) {
    char b[512]; int k = std::snprintf(b, sizeof b, "{\"status\":\"%s\",\"op\":\"%s\",\"W\":%d,\"idx\":%llu,\"evaluations\":%llu}\n", status, C.op, C.W, (unsigned long long)C.idx, (unsigned long long)C.evals);
    if(C.fd >= 0 && k > 0) { ssize_t r = ::write(C.fd, b, size_t(k)); (void)r; }
}
inline void onCrash(int sig) { char s[32]; std::snprintf(s, sizeof s, "signal %d", sig); emergency(s); std::signal(sig, SIG_DFL); ::raise(sig); }
inline void onTick(int) { static u64 last = 0; static int same = 0; if(C.evals == last) { if(++same >= C.hangSeconds) { emergency("hang"); ::_exit(42); } } else { last = C.evals; same = 0; } }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void onDeath() { emergency("sanitizer"); }

inline void setup(int argc, char** argv, const char* prop) {
    C.prop = prop;
    for(int i = 1; i < argc; ++i) { std::string a = argv[i]; auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--seed") C.seed = std::strtoull(v().c_str(), nullptr, 10); else if(a == "--tier") C.thorough = v() == "thorough"; else if(a == "--out") C.out = v();
        else if(a == "--scale") C.scale = std::atof(v().c_str()); else if(a == "--hang") C.hangSeconds = std::atoi(v().c_str()); else if(a == "--every") C.every = std::strtoull(v().c_str(), nullptr, 10); else if(a == "--nocheck") C.check = false;
        else if(a == "--only") { C.replay = true; C.onlyW = std::atoi(v().c_str()); C.onlyIdx = std::strtoull(v().c_str(), nullptr, 10); } }
    if(!C.out.empty()) C.fd = ::open(C.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
    else { static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        for(int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) { struct sigaction sa{}; sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK | SA_RESETHAND; sigaction(s, &sa, nullptr); } }
    struct sigaction st{}; st.sa_handler = onTick; st.sa_flags = SA_RESTART; sigaction(SIGVTALRM, &st, nullptr);
    itimerval it{{1, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
inline int done() { C.finish(); return C.fails.empty() ? 0 : 1; }

// ---------------------------------------------------------------- operand generation
inline const u32 specials[] = {0, 1, 2, 3, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0xffffu, 0x10000u, 0xffff0000u, 0xaaaaaaaau, 0x55555555u, 0xff000000u, 0x00ff00ffu};
inline u32 limbSpecial(Rng& r) { return r.coin(4) ? u32(r.next()) : specials[r.below(sizeof specials / sizeof *specials)]; }
inline Z fromLimbs(const u32* p, size_t n) { Z z; mpz_import(z.get_mpz_t(), n, -1, 4, 0, 0, p); return z; }
inline Z pow2(size_t k) { Z z; mpz_setbit(z.get_mpz_t(), k); return z; }
inline Z mod2(const Z& z, size_t W) { Z r; mpz_fdiv_r_2exp(r.get_mpz_t(), z.get_mpz_t(), W); return r; }
inline Z uniform(Rng& r, size_t bits) { u32 b[4200]; size_t n = (bits + 31) / 32; for(size_t i = 0; i < n; ++i) b[i] = u32(r.next()); return mod2(fromLimbs(b, n), bits); }
inline const u64 edges64[] = {0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 0x1ffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xffffffff00000000, 0xffffffff00000001, 0xfffffffeffffffff, 0xfffffffffffffffe, 0xffffffffffffffff, 1000000000, 10000000000ULL, 10000000000000000000ULL};
inline Z genBits(Rng& r, size_t W) {          // a value in [0, 2^W)
    const size_t n = (W + 31) / 32; u32 b[4200];
    switch(r.below(12)) {
        case 0: return uniform(r, W);
        case 1: return uniform(r, r.below(W + 1));
        case 2: for(size_t i = 0; i < n; ++i) b[i] = limbSpecial(r); break;
        case 3: { u32 s[3] = {specials[r.below(9)], specials[r.below(9)], specials[r.below(9)]}; for(size_t i = 0; i < n; ++i) b[i] = s[r.below(3)]; break; }
        case 4: { Z z; size_t pos = 0; bool bit = r.coin(); while(pos < W) { size_t len = 1 + r.below(r.coin() ? 8 : 1 + r.below(W)); if(bit) for(size_t i = pos; i < pos + len && i < W; ++i) mpz_setbit(z.get_mpz_t(), i); pos += len; bit = !bit; } return z; }
        case 5: { Z z = pow2(r.coin() ? r.below(W) : std::min(W - 1, size_t(32 * r.below(n)))); z += long(r.below(5)) - 2; return mod2(z, W); }
        case 6: { Z z; const u64 e = edges64[r.below(sizeof edges64 / sizeof *edges64)]; mpz_import(z.get_mpz_t(), 1, -1, 8, 0, 0, &e); return mod2(z, W); }
        case 7: for(size_t i = 0; i < n; ++i) b[i] = 0; for(size_t k = 1 + r.below(3); k--;) b[r.below(n)] = limbSpecial(r); break;
        case 8: for(size_t i = 0; i < n; ++i) b[i] = 0xffffffffu; for(size_t k = r.below(3); k--;) b[r.below(n)] = limbSpecial(r); break;
        case 9: { Z z = uniform(r, 1 + r.below(96)); z <<= r.below(W); return mod2(z, W); }
        case 10: { const size_t len = r.below(n + 1); for(size_t i = 0; i < n; ++i) b[i] = i < len ? limbSpecial(r) : 0; break; }
        default: { const size_t len = r.below(n + 1); for(size_t i = 0; i < n; ++i) b[i] = i < len ? u32(r.next()) : 0; if(len && r.coin()) for(size_t i = 0; i < r.below(len + 1); ++i) b[i] = 0; break; }
    }
    return mod2(fromLimbs(b, n), W);
}
inline Z related(Rng& r, const Z& a, size_t W) {      // a value in [0, 2^W) related to a
    Z t;
    switch(r.below(14)) {
        case 0: return mod2(a, W);
        case 1: return mod2(-a, W);
        case 2: return mod2(-a - 1, W);
        case 3: return mod2(a + 1, W);
        case 4: return mod2(a - 1, W);
        case 5: { t = a; size_t k = r.below(W); mpz_combit(t.get_mpz_t(), k); return mod2(t, W); }
        case 6: { t = limbSpecial(r); t <<= 32 * r.below((W + 31) / 32); return mod2(a + t, W); }
        case 7: { t = limbSpecial(r); t <<= 32 * r.below((W + 31) / 32); return mod2(a - t, W); }
        case 8: return mod2(a >> r.below(W), W);
        case 9: return mod2(a << r.below(W), W);
        case 10: return mod2(a >> (32 * r.below(W / 32 + 1)), W);
        case 11: { mpz_sqrt(t.get_mpz_t(), Z(abs(a)).get_mpz_t()); t += long(r.below(3)) - 1; return mod2(t, W); }
        case 12: return mod2(-a + (long(r.below(5)) - 2), W);
        default: { Z q = 1 + uniform(r, 1 + r.below(64)); return mod2(abs(a) / q, W); }
    }
}
inline Z gen2(Rng& r, const Z& a, size_t W) { return r.coin(3) ? related(r, a, W) : genBits(r, W); }
inline Z genSigned(Rng& r, size_t W) { Z z = genBits(r, W); return r.coin() ? Z(-z) : z; }
inline Z genSigned2(Rng& r, const Z& a, size_t W) { Z z = r.coin(3) ? related(r, abs(a), W) : genBits(r, W); return r.coin() ? Z(-z) : z; }

// ---------------------------------------------------------------- built-in integers
template <typename T> Z zi(T v) { if constexpr (std::is_signed_v<T>) return Z(long(v)); else return Z((unsigned long)(v)); }
template <typename T> T genInt(Rng& r) {
    if constexpr (std::is_same_v<T, bool>) return r.coin();
    else {
        using L = std::numeric_limits<T>; const int bits = int(sizeof(T) * 8);
        switch(r.below(8)) {
            case 0: return L::max(); case 1: return L::min(); case 2: return T(L::max() - T(r.below(3))); case 3: return T(L::min() + T(r.below(3)));
            case 4: return T((u64(1) << r.below(u64(bits))) + (r.below(3) - 1)); case 5: return T(0 - ((u64(1) << r.below(u64(bits))) + (r.below(3) - 1)));
            case 6: return T(r.below(12)); default: return T(r.next() >> r.below(64));
        }
    }
}
#define VF_FOR_UNSIGNED(X) X(unsigned char) X(unsigned short) X(unsigned) X(unsigned long) X(unsigned long long)
#define VF_FOR_UNSIGNED_ALL(X) VF_FOR_UNSIGNED(X) X(bool) X(char8_t) X(char16_t) X(char32_t)
#define VF_FOR_SIGNED(X) X(signed char) X(short) X(int) X(long) X(long long)
#define VF_FOR_INTEGRAL(X) VF_FOR_UNSIGNED_ALL(X) VF_FOR_SIGNED(X) X(char) X(wchar_t)

#ifndef VF_NO_LIB
// ---------------------------------------------------------------- library values <-> oracle values
template <size_t W> Aeu<W> mk(const Z& z) { u32 b[W / 32] = {}; mpz_export(b, nullptr, -1, 4, 0, 0, z.get_mpz_t()); Aeu<W> r{}; for(size_t i = 0; i < W / 32; ++i) r.setBlock(i, b[i]); return r; }
template <size_t W> Z val(const Aeu<W>& a) { u32 b[W / 32]; for(size_t i = 0; i < W / 32; ++i) b[i] = a.getBlock(i); return fromLimbs(b, W / 32); }
template <size_t W> Aesi<W> mks(const Z& z) { Aesi<W> r(mk<W>(abs(z))); return sgn(z) < 0 ? -r : r; }
// reads a signed number through its predicates and blocks; an inconsistent state is reported as a failure of the current operation
template <size_t W> Z val(const Aesi<W>& a) {
    u32 b[W / 32]; for(size_t i = 0; i < W / 32; ++i) b[i] = a.getBlock(i); Z m = fromLimbs(b, W / 32);
    const int k = int(a.isZero()) + int(a.isPositive()) + int(a.isNegative());
    if(k != 1) C.fail("sign predicates: zero=" + std::to_string(a.isZero()) + " positive=" + std::to_string(a.isPositive()) + " negative=" + std::to_string(a.isNegative()));
    if(a.isZero() != (m == 0)) C.fail(std::string("isZero() is ") + (a.isZero() ? "true" : "false") + " but the magnitude reads as " + C.hex(m));
    return a.isNegative() ? Z(-m) : m;
}
inline Z wrapSigned(const Z& z, size_t W) { Z m = mod2(abs(z), W); return sgn(z) < 0 ? Z(-m) : m; }
#endif
}

#ifndef VF_WIDTHS
#define VF_WIDTHS 96, 128
#endif
#define VF_MAIN(PROP, RUN) \
    template <size_t... Ws> static void vf_all(std::index_sequence<Ws...>) { ((::vf::C.replay && ::vf::C.onlyW != int(Ws) ? void() : (::vf::C.width(int(Ws)), RUN<Ws>())), ...); } \
    int main(int argc, char** argv) { ::vf::setup(argc, argv, PROP); vf_all(std::index_sequence<VF_WIDTHS>{}); return ::vf::done(); }
