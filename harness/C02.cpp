#include "vf.hpp"
#include <iomanip>
#include <locale>
#include <ostream>
#include <sstream>
using namespace vf;
template <typename Char> std::string narrow(const std::basic_string<Char>& s) { std::string r; for(Char c: s) r += c >= 0 && c < 128 ? char(c) : '?'; return r; }
// sink that takes a limited number of characters, then refuses or throws; keeps what it took
template <typename Char> struct Sink : std::basic_streambuf<Char> {
    using Tr = std::char_traits<Char>; std::basic_string<Char> got; size_t room; bool throws; unsigned refused = 0;
    Sink(size_t r, bool t) : room(r), throws(t) {}
    typename Tr::int_type overflow(typename Tr::int_type c) override { if(got.size() >= room) { ++refused; if(throws) throw std::runtime_error("sink"); return Tr::eof(); } if(!Tr::eq_int_type(c, Tr::eof())) got += Tr::to_char_type(c); return Tr::not_eof(c); }
    std::streamsize xsputn(const Char* s, std::streamsize n) override { std::streamsize k = 0; for(; k < n; ++k) { if(got.size() >= room) { ++refused; if(throws) throw std::runtime_error("sink"); break; } got += s[k]; } return k; }
};
template <typename Char> struct Groups : std::numpunct<Char> { std::string g; explicit Groups(std::string t) : g(std::move(t)) {} std::string do_grouping() const override { return g; } Char do_thousands_sep() const override { return Char(','); } Char do_decimal_point() const override { return Char('.'); } };
template <typename Char> const std::locale& grouped(unsigned k) { static const std::locale l[] = {std::locale(std::locale::classic(), new Groups<Char>("\3")), std::locale(std::locale::classic(), new Groups<Char>("\1")), std::locale(std::locale::classic(), new Groups<Char>("\2\3"))}; return l[k % 3]; }
template <typename Char> void arm(std::basic_ostream<Char>& os, int base, bool show, bool upper) { os << (base == 16 ? std::hex : base == 8 ? std::oct : std::dec); if(show) os << std::showbase; else os << std::noshowbase; if(upper) os << std::uppercase; else os << std::nouppercase; }
inline std::string numeral(const Z& z, int base, bool show, bool upper, bool isSigned, bool alt) {
    std::string d = Z(abs(z)).get_str(upper && base == 16 ? -16 : base); const std::string p = show && base != 10 && (z != 0 || alt) ? (base == 16 ? "0x" : "0o") : ""; (void)isSigned; return (z < 0 ? "-" : "") + p + d;
}
template <typename Char, typename N> bool matches(const std::string& got, const Z& z, int base, bool show, bool upper, const N&) { return got == numeral(z, base, show, upper, false, false) || (z == 0 && got == numeral(z, base, show, upper, false, true)); }
// decimal and octal output take time cubic in the size: long ones are printed with a probability inverse to their modelled cost (in seconds)
inline double allowance = 0; inline int force = 0;
inline double costOf(const Z& z, size_t W, int base) { const double b = z == 0 ? 1 : double(mpz_sizeinbase(z.get_mpz_t(), 2)); return base == 16 ? 1e-6 : b * b * double(W) * (base == 8 ? 1.7e-11 : 1.2e-11) + 1e-6; }
template <size_t W, typename Char, typename N> void print(const Z& z, const N& n, Rng& r) {
    static const int bases[] = {10, 8, 16}; int base = bases[r.below(3)]; double cost = costOf(z, W, base); const bool brief = cost > 0.15; if(force) base = force; else if(base != 16 && double(r.below(1000000)) > 1e6 * allowance / (cost * (brief ? 1 : 8))) { base = 16; cost = 1e-6; } if(cost > 1e-4) FEAT("long decimal or octal");  const bool show = r.coin(), upper = r.coin(); const Char fill = Char("*0 x"[r.below(4)]); const int adj = int(r.below(4)); const unsigned loc = unsigned(r.below(8)); if(loc < 3) FEAT("locale with digit grouping");
    C.note = std::string(std::is_same_v<N, Aeu<W>> ? "unsigned" : "signed") + " base=" + std::to_string(base) + (show ? " showbase" : "") + (upper ? " uppercase" : "") + (sizeof(Char) > 1 ? " wide" : "") + (loc < 3 ? " in a grouping locale" : ""); C.opHash(u64(base) * 8 + show * 4 + upper * 2 + (sizeof(Char) > 1));
    if(base == 16 && abs(z) > 0xffffffffu) FEAT("hexadecimal over several blocks"); if(z == 0) FEAT("zero");
    std::basic_ostringstream<Char> os; if(loc < 3) os.imbue(grouped<Char>(loc)); arm(os, base, show, upper); os.fill(fill); if(adj == 1) os << std::left; if(adj == 2) os << std::right; if(adj == 3) os << std::internal; const auto fl = os.flags();
    VF_AT("stream output"); os << n; const std::string got = narrow(os.str());
    if(!matches<Char>(got, z, base, show, upper, n)) C.fail("got \"" + got + "\" want \"" + numeral(z, base, show, upper, false, false) + "\"");
    VOK("stream good after output", os.good()); VOK("fill kept", os.fill() == fill); VOK("alignment kept", (os.flags() & std::ios::adjustfield) == (fl & std::ios::adjustfield)); VOK("numeric base kept", (os.flags() & std::ios::basefield) == (fl & std::ios::basefield)); VOK("prefix request kept", (os.flags() & std::ios::showbase) == (fl & std::ios::showbase)); VOK("letter case kept", (os.flags() & std::ios::uppercase) == (fl & std::ios::uppercase)); VOK("width zero", os.width() == 0);
    if(brief && base != 16) return;
    // the text parses back when it names its base
    if(base == 10 || (show && z != 0)) { FEAT("read back"); const N back(os.str()); VEQ("parse of the output", val(back), z); }
    // a following built-in is formatted the way the program asked for
    { std::basic_ostringstream<Char> ref, os2; arm(ref, base, show, upper); ref.fill(fill); arm(os2, base, show, upper); os2.fill(fill); if(adj == 1) { ref << std::left; os2 << std::left; } os2 << n; os2.str({}); os2 << std::setw(12) << 255; ref << std::setw(12) << 255; VEQS("built-in after the number", narrow(os2.str()), narrow(ref.str())); }
    // several numbers in one stream
    { std::basic_ostringstream<Char> o3; if(loc < 3) o3.imbue(grouped<Char>(loc)); arm(o3, base, show, upper); o3 << n << Char(';') << n << Char(';'); VEQS("two numbers in one stream", narrow(o3.str()), got + ";" + got + ";"); }
    // failing sinks
    const std::string full = got; const size_t room = full.empty() ? 0 : r.coin(3) ? full.size() - 1 : r.coin(3) ? 0 : r.below(full.size()); const bool throws = r.coin(); const int exc = int(r.below(3));
    C.note += " sink of " + std::to_string(room) + " characters" + (throws ? ", throwing" : "") + (exc == 1 ? ", exceptions(badbit)" : exc == 2 ? ", exceptions(badbit|failbit)" : "");
    Sink<Char> sink(room, throws); std::basic_ostream<Char> fo(&sink); if(loc < 3) fo.imbue(grouped<Char>(loc)); arm(fo, base, show, upper); fo.fill(fill); if(exc) fo.exceptions(exc == 1 ? std::ios::badbit : std::ios::badbit | std::ios::failbit); bool caught = false;
    VF_AT("output to a failing sink"); try { fo << n; } catch(...) { caught = true; }
    if(sink.refused == 0) C.fail("the sink was never asked for the missing characters"); 
    if(!fo.fail()) C.fail("the stream does not report the failing sink"); if(exc && !caught) C.fail("the exception asked for was not delivered"); if(!exc && caught) C.fail("an exception escaped although none was asked for");
    VEQS("what a failing sink holds is a prefix", narrow(sink.got), full.substr(0, room)); VOK("fill kept on failure", fo.fill() == fill); VOK("numeric base kept on failure", (fo.flags() & std::ios::basefield) == (fl & std::ios::basefield));
    { Sink<Char> ok(full.size(), true); std::basic_ostream<Char> o4(&ok); arm(o4, base, show, upper); VF_AT("output to a sink with just enough room"); o4 << n; if(!o4.good()) C.fail("the stream failed"); C.eqs(narrow(ok.got), full); }
    { std::basic_ostringstream<Char> dead; arm(dead, base, false, upper); dead.setstate(std::ios::badbit); dead << n; VOK("nothing written to a failed stream", dead.str().empty() && dead.bad()); }
}
template <size_t W> void value(const Z& z, Rng& r) {
    C.operand("value", z); const bool wide = r.coin(3);
    if(z >= 0 && r.coin()) { const Aeu<W> n = mk<W>(z); if(wide) print<W, wchar_t>(z, n, r); else print<W, char>(z, n, r); if(!C.stop) VEQ("value unchanged", val(n), z); }
    else { const Aesi<W> n = mks<W>(z); if(wide) print<W, wchar_t>(z, n, r); else print<W, char>(z, n, r); if(!C.stop) VEQ("value unchanged", val(n), z); }
}
template <size_t W> void run() {
    const bool heavy = W > 2048; allowance = W > 1056 ? 4e-3 : 1e-3;
    if(C.begin()) { Rng r = C.rng(); const Z z = pow2(W) - 1 - uniform(r, W - 8); force = 10; value<W>(z, r); force = 0; }
    if(C.begin()) { Rng r = C.rng(); const Z z = pow2(W) - 1 - uniform(r, W - 8); force = 8; value<W>(z, r); force = 0; }
    for(u64 i = 0, e = C.n(heavy ? 60 : 0, 10); heavy && i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z z = genSigned(r, 700); value<W>(z, r); }
    for(int i = -9; i <= 40; ++i) for(int k = 0; k < 6; ++k) if(C.begin()) { Rng r = C.rng(); value<W>(Z(i), r); }
    for(size_t k = 0; k <= W; k += W > 4096 ? 331 : W > 2048 ? 97 : W > 1056 ? 13 : W > 544 ? 3 : 1) for(int d = -1; d <= 1; ++d) for(int s = 0; s < (heavy ? 1 : 3); ++s) if(C.begin()) { Rng r = C.rng(); Z z = mod2(pow2(k) + d, W); if(r.coin()) z = -z; value<W>(z, r); }
    for(size_t k = 0; k < W / 32; k += heavy ? 29 : 1) if(C.begin()) { Rng r = C.rng(); const Z z = (Z(limbSpecial(r) | 1) << (32 * k)) + (r.coin() ? 0 : r.below(16)); value<W>(mod2(z, W), r); }         // zero blocks below a high one
    { Z p = 1; for(unsigned k = 0; p < pow2(W); ++k, p *= 10) if((!heavy || k % 97 == 0) && (W <= 1056 || k % 11 == 0)) for(int d = -1; d <= 0; ++d) if(C.begin()) { Rng r = C.rng(); const Z z = p + d; value<W>(z, r); } }     // 10^k and 99..9
    for(u64 i = 0, e = C.n(W <= 192 ? 6000 : W <= 352 ? 2500 : W <= 544 ? 1000 : W <= 1056 ? 200 : W <= 2048 ? 30 : W <= 4096 ? 6 : 2); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z z = genSigned(r, W); value<W>(z, r); }
}
VF_MAIN("C02", run)
