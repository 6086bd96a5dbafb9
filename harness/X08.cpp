// Numbers as plain fixed-size values: every allocation made while an operation runs is counted (malloc is interposed), and bytewise copies must behave like the original.
#include "battery.hpp"
#include "lite.hpp"
#include <algorithm>
#include <new>
#include <ostream>
#include <istream>
#include <streambuf>
#include <type_traits>
#include <vector>
#ifndef VF_WIDTHS
#define VF_WIDTHS 96, 128
#endif
static volatile bool counting = false; static volatile std::uint64_t allocations = 0, watched = 0;
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*);
void* malloc(size_t n) { if(counting) allocations = allocations + 1; return __libc_malloc(n); } void* calloc(size_t a, size_t b) { if(counting) allocations = allocations + 1; return __libc_calloc(a, b); } void* realloc(void* p, size_t n) { if(counting) allocations = allocations + 1; return __libc_realloc(p, n); }
void* aligned_alloc(size_t a, size_t n) { if(counting) allocations = allocations + 1; return __libc_memalign(a, n); } void* memalign(size_t a, size_t n) { if(counting) allocations = allocations + 1; return __libc_memalign(a, n); } int posix_memalign(void** p, size_t a, size_t n) { if(counting) allocations = allocations + 1; *p = __libc_memalign(a, n); return *p ? 0 : 12; } void free(void* p) { __libc_free(p); } }

static std::string failure;
static void fail(const char* op, const std::string& what) { if(failure.empty()) { failure = std::string("{\"op\":\"") + op + "\",\"W\":" + std::to_string((int)lite::curW) + ",\"idx\":" + std::to_string(lite::curIdx) + ",\"detail\":\"" + what + "\",\"operands\":\"seeded case, replay prints the results\"}"; if(lite::opt.replay) std::printf("\nMISMATCH %s: %s\n", op, what.c_str()); } }
// counts allocations between the results the battery reports
struct Watch : lite::Digests {
    bool armed = false;
    void op(const char* name) { counting = false; if(armed && allocations) fail(name, std::to_string(allocations) + " heap allocations"); watched = watched + armed; lite::Digests::op(name); lite::curOp = name; go(); }
    void put(std::uint64_t v) { counting = false; lite::Digests::put(v); go(); }
    void go() { allocations = 0; counting = armed; }
    void arm(bool on) { armed = on; go(); counting = on; }
};
static Watch D;
template <typename Char> struct Fixed : std::basic_streambuf<Char> {       // allocates nothing
    Char mem[4096]; std::size_t n = 0, pos = 0; using I = typename std::basic_streambuf<Char>::int_type;
    I overflow(I c) override { if(n < 4096) mem[n++] = Char(c); return c == std::char_traits<Char>::eof() ? 0 : c; }
    I underflow() override { if(pos >= n) return std::char_traits<Char>::eof(); this->setg(mem + pos, mem + pos, mem + pos + 1); ++pos; return std::char_traits<Char>::to_int_type(mem[pos - 1]); }
};
struct Log { std::uint64_t h = 0; void op(const char* n) { for(; *n; ++n) h = lite::mix(h ^ (unsigned char)*n); } void put(std::uint64_t v) { h = lite::mix(h ^ v); } void raw(const void*, std::size_t) {} };
template <std::size_t W> static std::uint64_t behaviour(const Aeu<W>& A, const Aeu<W>& B, std::size_t i, bt::u32 v) { Log l; bt::arithmetic<W>(l, A, B); bt::division<W>(l, A, B); bt::comparison<W>(l, A, B); bt::shifts<W>(l, A, i); bt::access<W>(l, A, i, v); bt::casts<W>(l, A); return l.h; }
template <std::size_t W> static std::uint64_t behaviour(const Aesi<W>& A, const Aesi<W>& B, std::size_t i, bt::u32 v) { Log l; bt::sarithmetic<W>(l, A, B); bt::sdivision<W>(l, A, B); bt::scomparison<W>(l, A, B); bt::saccess<W>(l, A, i, v); return l.h; }
// bytes moved by memcpy, through a file-like byte array, a growing raw buffer and a rotated array are the number
template <std::size_t W, class N> static void bytes(const N& A, const N& B, bt::Rng& r, const char* name) {
    const std::size_t i = r.below(W); const bt::u32 v = bt::special(r); const std::uint64_t want = behaviour<W>(A, B, i, v); D.op(name); D.put(want);
    alignas(N) unsigned char m1[sizeof(N)], m2[sizeof(N)]; std::memset(m1, 0xc3, sizeof m1); std::memset(m2, 0x3c, sizeof m2); std::memcpy(m1, &A, sizeof(N)); std::memcpy(m2, &B, sizeof(N));
    if(behaviour<W>(*std::launder(reinterpret_cast<const N*>(m1)), *std::launder(reinterpret_cast<const N*>(m2)), i, v) != want) fail(name, "a bytewise copy behaves differently");
    { std::vector<unsigned char> stored(m1, m1 + sizeof m1); N c = B; c += A; ++c; std::memcpy(static_cast<void*>(&c), stored.data(), sizeof(N)); if(!(c == A) || behaviour<W>(c, B, i, v) != want) fail(name, "overwriting a used number with the bytes of another does not give that number"); }
    { N* p = static_cast<N*>(std::malloc(2 * sizeof(N))); std::memcpy(static_cast<void*>(p), &A, sizeof(N)); std::memcpy(static_cast<void*>(p + 1), &B, sizeof(N)); p[0] += p[1]; N want2 = A; want2 += B; p = static_cast<N*>(std::realloc(p, 4000 + sizeof(N) * 7)); if(!(p[0] == want2)) fail(name, "a number moved by realloc lost its value"); std::memmove(static_cast<void*>(p + 1), p, sizeof(N)); std::memset(static_cast<void*>(p), 0, sizeof(N)); if(!(p[1] == want2)) fail(name, "a number moved by memmove lost its value"); std::free(p); }
    { N arr[4] = {A, B, A, B}; if(reinterpret_cast<char*>(&arr[3]) - reinterpret_cast<char*>(&arr[0]) != std::ptrdiff_t(3 * sizeof(N))) fail(name, "array layout"); unsigned char t[sizeof(N)]; std::memcpy(t, &arr[0], sizeof(N)); std::memcpy(static_cast<void*>(&arr[0]), &arr[1], sizeof(N)); std::memcpy(static_cast<void*>(&arr[1]), t, sizeof(N)); if(!(arr[0] == B) || !(arr[1] == A) || !(arr[2] == A) || !(arr[3] == B)) fail(name, "swapping bytes does not swap the numbers"); }
}
template <std::size_t W, class N> static void silent(const N& A, const N& B, bt::Rng& r, const std::string& t, const std::wstring& w) {      // text and streams that allocate nothing themselves
    char buf[W + 8]; wchar_t wb[W + 8]; D.arm(true);
    { const N x(t.data(), t.size()); D.op("number(pointer, length)"); D.put(x.getBlock(0)); } { const N x(t); D.op("number(string)"); D.put(x.getBlock(0)); } { const N x{std::string_view(t)}; D.op("number(string_view)"); D.put(x.getBlock(0)); } { const N x(w); D.op("number(wide string)"); D.put(x.getBlock(0)); } { N x = B; x = t; D.op("number = string"); D.put(x.getBlock(0)); } { const N x("0x123456789abcdef123"); D.op("number(literal)"); D.put(x.getBlock(0)); }
    { const std::size_t k = A.template getString<16>(buf, W + 8, true); D.op("getString<16>"); D.put(k); } if(W <= 352) { const std::size_t k = A.template getString<10>(buf, W + 8); D.op("getString<10>"); D.put(k); } if(W <= 160) { const std::size_t k = A.template getString<2>(wb, W + 8); D.op("getString<2> wide"); D.put(k); }
    D.arm(false); Fixed<char> fb; Fixed<wchar_t> fw; { std::ostream os(&fb); std::wostream ws(&fw); os << 1; ws << 1; fb.n = fw.n = 0; const unsigned m = unsigned(r.below(8)); if(m & 1) { os << std::uppercase; ws << std::uppercase; } if(m & 2) { os << std::showbase; ws << std::showbase; } D.arm(true);
      os << std::hex << A; D.op("<< hex"); D.put(fb.n); ws << std::hex << A; D.op("<< hex wide"); D.put(fw.n); if(W <= 352) { os << std::dec << A; D.op("<< dec"); D.put(fb.n); } if(W <= 160) { ws << std::oct << A; D.op("<< oct wide"); D.put(fw.n); } D.arm(false); }
    if constexpr (requires(N n, std::ostream& o) { n.writeBinary(o); }) { fb.n = 0; std::ostream os(&fb); D.arm(true); A.writeBinary(os, true); D.op("writeBinary"); D.put(fb.n); D.arm(false); std::istream is(&fb); N x = B; D.arm(true); x.readBinary(is, true); D.op("readBinary"); D.put(x.getBlock(0)); D.arm(false); }
}
template <std::size_t W> static void runW() {
    if(lite::opt.replay && lite::opt.onlyW != int(W)) return;
    lite::curW = int(W); lite::curIdx = 0; using U = Aeu<W>; using S = Aesi<W>;
    if(sizeof(U) != W / 8) fail("sizeof", "an unsigned number occupies " + std::to_string(sizeof(U)) + " bytes");
    if(sizeof(S) < W / 8 + 1 || sizeof(S) > W / 8 + 8) fail("sizeof", "a signed number occupies " + std::to_string(sizeof(S)) + " bytes");
    if(!std::is_trivially_copyable_v<U> || !std::is_trivially_copyable_v<S>) fail("type", "not trivially copyable"); if(!std::is_trivially_destructible_v<U> || !std::is_trivially_destructible_v<S>) fail("type", "not trivially destructible"); if(!std::is_standard_layout_v<U> || !std::is_standard_layout_v<S>) fail("type", "not standard layout");
    if(!std::is_nothrow_copy_constructible_v<U> || !std::is_nothrow_copy_constructible_v<S> || !std::is_nothrow_move_assignable_v<U> || !std::is_nothrow_move_assignable_v<S>) fail("type", "copying may throw");
    const std::uint64_t n = std::uint64_t((W <= 160 ? 2500 : W <= 352 ? 900 : W <= 544 ? 350 : 60) * lite::opt.scale * (lite::opt.thorough ? 15 : 1)) + 1;
    for(std::uint64_t i = 1; i <= n && failure.empty(); ++i) { if(lite::opt.replay && i != lite::opt.onlyIdx) continue; lite::curIdx = i; D.trace = false; bt::Rng r(lite::mix(lite::opt.seed * 1000003 + W + 5) ^ (i * 0xd1342543de82ef95ULL));
        const auto a = bt::gen<W>(r), b = bt::gen2<W>(r, a), m = bt::gen<W>(r); const U A = bt::mk<W>(a), B = bt::mk<W>(b), M = bt::mk<W>(m); const S P = bt::mks<W>(a, r.coin()), Q = bt::mks<W>(b, r.coin()); const std::size_t k = r.below(W); const bt::u32 v = bt::special(r);
        D.arm(true); bt::arithmetic<W>(D, A, B); bt::division<W>(D, A, B); bt::comparison<W>(D, A, B); bt::shifts<W>(D, A, r.coin(8) ? W + r.below(70) : k); bt::access<W>(D, A, k, v); bt::access_out_of_range<W>(D, A, k % 70, v); bt::casts<W>(D, A); if(W <= 352 || i % 4 == 0) bt::theory<W>(D, A, B, M);
        bt::builtin<W>(D, A, bt::pickInt<unsigned long>(r)); bt::builtin<W>(D, A, bt::pickInt<unsigned char>(r)); bt::sarithmetic<W>(D, P, Q); bt::sdivision<W>(D, P, Q); bt::scomparison<W>(D, P, Q); bt::saccess<W>(D, P, k, v); bt::sbuiltin<W>(D, P, bt::pickInt<int>(r)); bt::sbuiltin<W>(D, P, bt::pickInt<long long>(r)); if(W <= 352 || i % 4 == 0) bt::stheory<W>(D, P); D.arm(false);
        const std::string t = bt::randomText(r, W / 3); const std::wstring w(t.begin(), t.end()); silent<W>(A, B, r, t, w); silent<W>(P, Q, r, t, w);
        bytes<W>(A, B, r, "bytewise copy, unsigned"); bytes<W>(P, Q, r, "bytewise copy, signed"); lite::evals = D.evaluations;
    }
}
template <std::size_t... Ws> static void all(std::index_sequence<Ws...>) { ((failure.empty() ? runW<Ws>() : void()), ...); }
// the predefined names stand for what they say
template <class U, class S> static void named(std::size_t w) { if(sizeof(U) != w / 8 || U::getBitness() != w || S::getBitness() != w || S {}.getBitness() != w || !std::is_same_v<decltype(S(1).unsignedCast()), U>) fail("predefined type", "the type named after " + std::to_string(w) + " bits has " + std::to_string(U::getBitness()) + " (signed: " + std::to_string(S::getBitness()) + ")"); ++D.evaluations; }
static void names() {
    named<Aeu128, Aesi128>(128); named<Aeu256, Aesi256>(256); named<Aeu512, Aesi512>(512); named<Aeu768, Aesi768>(768); named<Aeu1024, Aesi1024>(1024); named<Aeu1536, Aesi1536>(1536); named<Aeu2048, Aesi2048>(2048);
    named<Aeu3072, Aesi3072>(3072); named<Aeu4096, Aesi4096>(4096); named<Aeu6144, Aesi6144>(6144); named<Aeu8192, Aesi8192>(8192); named<Aeu<>, Aesi<>>(512);
}
int main(int argc, char** argv) {
    lite::setup(argc, argv); names(); all(std::index_sequence<VF_WIDTHS>{}); counting = false;
    lite::report(D, ",\"feats\":{\"operations run with allocations counted\":" + std::to_string(watched) + "},\"fails\":[" + failure + "]"); return failure.empty() ? 0 : 1;
}
