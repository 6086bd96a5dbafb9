#include "vf.hpp"
#include <string_view>
#include <utility>
using namespace vf;
// the meaning of a text, written from the documentation alone
struct Meaning { Z value; bool negative; unsigned base; };
inline Meaning meaning(const std::string& t, size_t W) {
    Meaning m{0, false, 10}; size_t p = 0; const auto alnum = [](unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
    for(char c: t) if(c == '-') m.negative = !m.negative;
    while(p < t.size() && !alnum((unsigned char)t[p])) ++p;
    if(p + 1 < t.size() && t[p] == '0') switch(t[p + 1]) { case 'b': case 'B': m.base = 2; p += 2; break; case 'o': case 'O': m.base = 8; p += 2; break; case 'x': case 'X': m.base = 16; p += 2; break; default: break; }
    std::string digits; for(; p < t.size(); ++p) { const char c = t[p]; const unsigned d = c >= '0' && c <= '9' ? unsigned(c - '0') : c >= 'a' && c <= 'f' ? unsigned(c - 'a') + 10 : c >= 'A' && c <= 'F' ? unsigned(c - 'A') + 10 : 99; if(d < m.base) digits += c; }
    if(!digits.empty()) m.value = Z(digits, int(m.base));
    if(mpz_sizeinbase(m.value.get_mpz_t(), 2) > W) FEAT("value above N bits"); m.value = mod2(m.value, W); return m;
}
// wide texts: bytes from 128 on stand for wide characters outside ASCII, many of which end in the code of a digit, letter or dash
inline wchar_t foreign(Rng& r) {
    static const char low[] = "0123456789abcdefABCDEFxXbBoO-+ g_";
    switch(r.below(6)) {
        case 0: return wchar_t(0x80 + r.below(0x80)); case 1: return wchar_t((0x100 * (1 + r.below(0x2ff))) + (unsigned char)low[r.below(sizeof low - 1)]); case 2: return wchar_t(0x10000 * (1 + r.below(16)) + (unsigned char)low[r.below(sizeof low - 1)]);
        case 3: return wchar_t(0xff10 + r.below(0x4b)); case 4: return wchar_t(0x660 + r.below(10)); default: { static const wchar_t w[] = {0x2212, 0x2010, 0xff0d, 0x7fffffff, 0x3000, 0x20ac, 0x130, 0x131, 0x17f, 0x212a, 0x410, 0x430, 0x966}; return w[r.below(13)]; }
    }
}
template <typename Char> std::basic_string<Char> spell(const std::string& t, Rng& r) {
    std::basic_string<Char> s; for(char c: t) if(std::is_same_v<Char, wchar_t> && (unsigned char)c >= 128) { s += Char(foreign(r)); FEAT("wide characters outside ASCII"); } else s += Char(c); return s;
}
template <size_t W, typename Char> void forms(const std::string& t, const Meaning& m, Rng& r) {
    using S = std::basic_string<Char>; using V = std::basic_string_view<Char>; const S s = spell<Char>(t, r); if constexpr(std::is_same_v<Char, wchar_t>) { C.note += " wide="; for(wchar_t c: s) { char b[16]; std::snprintf(b, sizeof b, "%x ", unsigned(c)); if(C.note.size() < 900) C.note += b; } } const Z z = m.value, y = m.negative ? Z(-z) : z; const V sv = s;
    Char* exact = static_cast<Char*>(std::malloc(s.size() * sizeof(Char) + 1)); std::memcpy(exact, s.data(), s.size() * sizeof(Char));      // nothing readable is promised behind the text
    VEQ("Aeu(pointer, length)", val(Aeu<W>(exact, s.size())), z); VEQ("Aesi(pointer, length)", val(Aesi<W>(exact, s.size())), y);
    std::free(exact);
    switch(r.below(4)) {
        case 0: VEQ("Aeu(const string&)", val(Aeu<W>(s)), z); VEQ("Aesi(const string&)", val(Aesi<W>(s)), y); break;
        case 1: { S c = s; VEQ("Aeu(string&&)", val(Aeu<W>(std::move(c))), z); S d = s; VEQ("Aesi(string&&)", val(Aesi<W>(std::move(d))), y); S e = s; VEQ("Aeu(string&)", val(Aeu<W>(e)), z); VEQ("Aesi(string&)", val(Aesi<W>(e)), y); VOK("text unchanged", e == s); break; }
        case 2: VEQ("Aeu(string_view)", val(Aeu<W>(sv)), z); VEQ("Aesi(string_view)", val(Aesi<W>(sv)), y); VEQ("Aeu(string_view&&)", val(Aeu<W>(V(s))), z); VEQ("Aesi(string_view&&)", val(Aesi<W>(V(s))), y); break;
        default: { Aeu<W> a = mk<W>(genBits(r, W)); a = s; VEQ("Aeu = string", val(a), z); Aesi<W> b = mks<W>(genSigned(r, W)); b = sv; VEQ("Aesi = string_view", val(b), y); }
    }
    if(t.size() < 48) { Char lit[48]; std::memset(lit, 0, sizeof lit); for(size_t i = 0; i < t.size(); ++i) lit[i] = s[i]; VEQ("Aeu(literal)", val(Aeu<W>(lit)), z); VEQ("Aesi(literal)", val(Aesi<W>(lit)), y); }
    if(t.size() == 3) { Char lit[3] = {s[0], s[1], s[2]}; VEQ("Aeu(unterminated array)", val(Aeu<W>(lit)), z); VEQ("Aesi(unterminated array)", val(Aesi<W>(lit)), y); }
}
template <size_t W> void text(const std::string& t, Rng& r, bool wide) {
    C.note = "text=\"" + C.esc(t) + "\""; u64 h = 7; for(unsigned char c: t) h = mix64(h ^ c); C.opHash(h);
    const Meaning m = meaning(t, W); if(m.negative) FEAT("odd number of dashes"); if(t.empty()) FEAT("empty text"); if(m.value == 0 && m.negative) FEAT("negative zero text"); if(m.base == 2) FEAT("base 2"); if(m.base == 8) FEAT("base 8"); if(m.base == 16) FEAT("base 16");
    forms<W, char>(t, m, r); if(wide) forms<W, wchar_t>(t, m, r);
}
inline std::string numeral(Rng& r, const Z& z, unsigned base) {
    std::string s = z.get_str(int(base)); for(char& c: s) if(c >= 'a' && c <= 'f' && r.coin(3)) c = char(c - 32); if(r.coin(4)) s.insert(0, r.below(20), '0'); return s;
}
inline std::string prefix(Rng& r, unsigned base) { switch(base) { case 2: return r.coin() ? "0b" : "0B"; case 8: return r.coin() ? "0o" : "0O"; case 16: return r.coin() ? "0x" : "0X"; default: return ""; } }
template <size_t W> void run() {
    static const char* const fixed[] = {"", "-", "--", "0", "-0", "00", "0x", "0X", "0b", "0o", "-0x", "0x-", "0x0", "1", "-1", "--1", "---1", "1-", "-1-", "1-2", "x", "0x1", "0b1", "0b2", "0o8", "0o7", "0xg", "0xG", "0xf", "0xF", "0b", "b1", "o1", "x1", "00x1", "0x0x1", "0b0b1", "0d12", "0a", "a0", "f", "1f", "1F2", "+5", " 5", "5 ", "\t\n5", "1'000'000", "1_000", "1,000.5", "1e3", "0x1p3", "0b102030", "0o778899", "0xfFgG", "9", "0xABCDEF", "0xabcdef", "/0:9;", "@A[`a{", "0x/0:9;@A[`a{G", "-0b-1-", "~!#0x10", "0 x10", "0x 10", "18446744073709551615", "18446744073709551616", "4294967296", "0xffffffff", "0x100000000"};
    for(const char* f: fixed) if(C.begin()) { Rng r = C.rng(); text<W>(f, r, true); }
    for(int c = 0; c < 256; ++c) for(int k = 0; k < 8; ++k) if(C.begin()) { Rng r = C.rng(); static const char* const pre[] = {"", "0x", "0b1", "0o", "1", "-", "0", "0x1"}; text<W>(std::string(pre[k]) + char(c) + (k < 4 ? "1" : ""), r, true); }  // every character in every role
    for(u64 i = 0, e = C.n(W <= 544 ? 4000 : W <= 1056 ? 900 : W <= 2048 ? 160 : W <= 4096 ? 40 : 8); i < e; ++i) if(C.begin()) {              // plain numerals of every length, all bases and letter cases
        Rng r = C.rng(); static const unsigned bases[] = {2, 8, 10, 16}; const unsigned b = bases[r.below(4)]; const Z z = r.coin(6) ? genBits(r, W + 40) : genBits(r, W); text<W>((r.coin() ? "-" : "") + prefix(r, b) + numeral(r, z, b), r, r.coin()); }
    for(u64 i = 0, e = C.n(W <= 544 ? 4000 : W <= 1056 ? 900 : W <= 2048 ? 160 : W <= 4096 ? 40 : 8); i < e; ++i) if(C.begin()) {              // numerals with noise: separators, dashes, invalid digits, NULs, high bytes, surrounding junk
        Rng r = C.rng(); static const unsigned bases[] = {2, 8, 10, 16}; const unsigned b = bases[r.below(4)]; std::string s = numeral(r, genBits(r, r.coin() ? W : 64), b); static const char noise[] = "-_ ',.;:/@[`{gGzZxXoObB9876543210fFaA\t\n+*#~$"; const bool high = r.coin(3);
        for(u64 k = r.below(1 + s.size() / 2 + 2); k--;) { const char c = r.coin(12) ? char(0) : high && r.coin(4) ? char(128 + r.below(128)) : noise[r.below(sizeof noise - 1)]; s.insert(r.below(s.size() + 1), 1, c); }
        std::string lead; for(u64 k = r.below(4); k--;) lead += "-+ _(\t.#"[r.below(8)]; if(high && r.coin(4)) lead += char(128 + r.below(128)); text<W>(lead + prefix(r, b) + s, r, r.coin()); }
    for(u64 i = 0, e = C.n(2000); i < e; ++i) if(C.begin()) { Rng r = C.rng(); std::string s; const u64 mode = r.below(3); static const char al[] = "00xXbBoO-1fF7829 gz"; for(u64 k = r.below(24); k--;) s += mode == 0 ? char(r.below(256)) : mode == 1 ? char(32 + r.below(95)) : al[r.below(sizeof al - 1)]; text<W>(s, r, true); }
}
VF_MAIN("C01", run)
