// Demonstrates, through the public API only, the genuine defects repaired by the "fix:" commits in /repo.
// Build:  g++ -std=c++20 -O1 -DNDEBUG -U_FORTIFY_SOURCE -I/repo/include -DAESI_GMP_INTEGRATION defects.cpp -lgmpxx -lgmp   (or with -fsanitize=address,undefined)
// Prints one line per defect: "ok  Dnn ..." or "BAD Dnn ...".   (Memory/UB defects additionally show up as sanitizer reports.)
#include <AesiMultiprecision/Aesi.h>
#include <climits>
#include <iomanip>
#include <sstream>
#include <cstring>
#include <array>
static int bad = 0;
static void rep(const char* id, bool ok, const char* what) { std::printf("%s %s %s\n", ok ? "ok " : "BAD", id, what); bad += !ok; }
int main() {
    std::setvbuf(stdout, nullptr, _IONBF, 0);
    { Aeu<128> a = ~0ULL; a += ~0ULL; rep("D1", a == Aeu<128>("0x1fffffffffffffffe"), "Aeu += uint64 near 2^64 loses the carry"); }
    { Aeu<128> a = ~0ULL; a *= ~0ULL; rep("D2", a == Aeu<128>("0xfffffffffffffffe0000000000000001"), "Aeu *= unsigned long long overflows 64 bits"); }
    { Aesi<128> a = 0xffffffffffffLL; a *= 0xffffffffffffLL; rep("D2s", a == Aesi<128>("0xfffffffffffe000000000001"), "Aesi *= 64-bit integral"); }
    { struct { Aeu<128> a; unsigned guard; } s; s.a = 0u; s.guard = 7; s.a.setByte(16, 0xff); rep("D3", s.guard == 7, "setByte(N/8) writes past the number"); 
      s.guard = 0x55; rep("D3g", s.a.getByte(16) == 0, "getByte(N/8) reads past the number"); }
    { rep("D4", Aeu<128>::powm<128>(0u, 5u, 7u) == 0u, "powm<>(0,5,7)");
      rep("D5", Aeu<128>::powm<128>(1u, 5u, 1u) == 0u, "powm<>(1,5,1)");
      rep("D5b", Aeu<128>::powm(3u, Aeu<128>(0u), 1u) == 0u, "powm(3,0,1)"); }
    { std::array<char, 40> b; b.fill('#'); Aeu<128> v = "0x123456789abcdef0123456789"; v.getString<16>(b.data(), 6); rep("D6", b[6] == '#' && b[7] == '#', "getString<16> with a small buffer writes past it");
      b.fill('#'); v.getString<10>(b.data(), 6); rep("D6b", b[6] == '#', "getString<10> with a small buffer writes NUL past it");
      b.fill('#'); Aeu<128>(0u).getString<10>(b.data(), 10); rep("D6c", b[1] == 0, "getString of zero is not terminated");
      b.fill('#'); Aesi<128>(0).getString<10>(b.data(), 0); rep("D6d", b[0] == '#', "Aesi getString of zero writes into an empty buffer");
      rep("D6e", Aesi<128>(-12).getString<10>(b.data(), 10) == 4, "Aesi getString count omits the minus sign"); }
    { rep("D7", Aesi<128>(INT_MIN) == Aesi<128>("-2147483648"), "Aesi(INT_MIN)"); rep("D7b", Aesi<128>(LLONG_MIN) == Aesi<128>("-9223372036854775808"), "Aesi(LLONG_MIN)"); }
    { Aesi<128> a = 3; a *= short(SHRT_MIN); rep("D8", a == Aesi<128>("-98304"), "Aesi *= SHRT_MIN"); a = -98304; a /= short(SHRT_MIN); rep("D8b", a == 3, "Aesi /= SHRT_MIN"); a = 32769; a %= short(SHRT_MIN); rep("D8c", a == 1, "Aesi %= SHRT_MIN"); }
    { rep("D9", Aesi<128>("-9223372036854775808").compareTo(LLONG_MIN) == Comparison::equal, "compareTo(LLONG_MIN)"); 
      rep("D9b", Aesi<128>(1) < ULLONG_MAX, "compareTo(ULLONG_MAX)"); }
    { rep("D10", Aesi<128>("-9223372036854775808").integralCast<long long>() == LLONG_MIN, "integralCast to LLONG_MIN"); }
    { Aesi<128> a = 5; a -= 5; rep("D11", a.unsignedCast().isZero() && !a.isOdd(), "5-5 keeps a stale magnitude"); a = 5; a *= 0; rep("D11b", a.unsignedCast().isZero(), "5*0 keeps a stale magnitude");
      Aesi<128> q = 9, r = 9; Aesi<128>::divide(0, 3, q, r); rep("D11c", q.unsignedCast().isZero() && r.unsignedCast().isZero(), "divide(0,3) leaves stale magnitudes"); }
    { Aesi<128> a = 7; rep("D12", a % Aesi<128>(-3) == 1, "7 % -3 == -1 although 7 / -3 == -2"); rep("D12b", a % -3 == 1, "7 % (int)-3"); }
    { Aesi<128> a = 10; a %= 5; rep("D13", a == 0 && a.isZero(), "10 % (int)5 is not zero"); }
    { rep("D14", Aesi<128>(Aeu<128>(0u)).isZero(), "Aesi(Aeu(0)) is positive"); }
    { rep("D15", Aesi<256>(Aesi<256>::power2(200)).precisionCast<128>().isZero(), "narrowing cast yields positive zero"); rep("D15b", Aesi<128>(mpz_class(1) << 128).isZero(), "Aesi<128>(2^128 mpz) is positive zero"); }
    { Aesi<256> a = Aesi<256>::power2(128) + Aesi<256>(5); rep("D16", !(a == Aesi<128>(5)), "2^128+5 == 5 across widths"); rep("D16b", a > Aesi<128>(6), "2^128+5 < 6 across widths"); }
    { std::ostringstream os; os << std::hex << Aeu<128>("0x1234567890abcdef1") << ' ' << std::setw(4) << 7; rep("D17", os.str() == "1234567890abcdef1    7", "hex output leaves fill/adjustment changed"); }
    { Aesi<128> a = Aesi<128>::power2(127); a += Aesi<128>::power2(127); rep("D18", a.isZero(), "overflowing sum with zero magnitude is positive"); }
    { rep("D25", Aeu<96>("0x81feb940a3246815501a0000") < Aeu<128>("0xffffffff7e0146bf5cdb97eaafe5ffff"), "96-bit number above a larger 128-bit number"); }
    { struct sb : std::streambuf {} buf; std::ostream os(&buf); os.exceptions(std::ios::badbit); bool caught = false;
      std::set_terminate([] { std::printf("BAD D19 writeBinary terminates when the stream throws\n"); std::fflush(stdout); std::_Exit(1); });
      try { Aeu<128>(1u).writeBinary(os); } catch (const std::ios_base::failure&) { caught = true; } rep("D19", caught, "writeBinary on a throwing stream"); }
    return bad != 0;
}
