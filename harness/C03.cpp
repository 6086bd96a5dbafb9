#include "vf.hpp"
using namespace vf;
inline double allowance = 0; inline int force = 0;
inline double costOf(const Z& z, size_t W, unsigned base, size_t size) { const double b = z == 0 ? 1 : double(mpz_sizeinbase(z.get_mpz_t(), 2)), d = std::min(double(size), base == 2 ? b : base == 8 ? b / 3 : b / 3.3); return base == 16 ? 1e-6 : d * b * double(W) * 5e-11 + 1e-6; }
template <size_t W, unsigned base, bool upper, typename Char, typename N> void write(const Z& z, const N& n, size_t size, bool show) {
    std::string want = Z(abs(z)).get_str(base == 16 && upper ? -16 : int(base)); if(show) want.insert(0, base == 2 ? "0b" : base == 8 ? "0o" : base == 16 ? "0x" : ""); if(z < 0) want.insert(0, "-");
    C.note = std::string(std::is_same_v<N, Aeu<W>> ? "unsigned" : "signed") + " base=" + std::to_string(base) + (upper ? " uppercase" : "") + (show ? " prefix" : "") + (sizeof(Char) > 1 ? " wide" : "") + " buffer size=" + std::to_string(size); C.opHash(((size * 17 + base) * 2 + upper) * 4 + show * 2 + (sizeof(Char) > 1));
    constexpr size_t pad = 12; static std::vector<Char> buf; buf.assign(size + 2 * pad, Char(0x5a)); for(size_t i = 0; i < pad; ++i) { buf[i] = Char('!' + i); buf[pad + size + i] = Char('M' + i); }
    VF_AT("getString"); const bool brief = !show && (size & 1); if(brief) FEAT("prefix option left to its default"); const size_t k = brief ? n.template getString<(unsigned char)base, upper>(buf.data() + pad, size) : n.template getString<(unsigned char)base, upper>(buf.data() + pad, size, show);
    for(size_t i = 0; i < pad; ++i) if(buf[i] != Char('!' + i) || buf[pad + size + i] != Char('M' + i)) { C.fail("an element outside the buffer was written"); return; }
    if(k > size) C.fail("the count " + std::to_string(k) + " is above the buffer size");
    const size_t usable = size - (z < 0 && size ? 1 : 0);
    if(want.size() + 1 <= size && usable >= 4) {
        FEAT("numeral fits"); if(want.size() + 1 == size) FEAT("numeral fits exactly"); std::string got; size_t i = 0; for(; i < size && buf[pad + i] != 0; ++i) got += buf[pad + i] > 0 && buf[pad + i] < 128 ? char(buf[pad + i]) : '?';
        if(i == size) C.fail("no terminator"); C.eqs(got, want); if(k != want.size() + 1) C.fail("count " + std::to_string(k) + " want " + std::to_string(want.size() + 1));
    } else { FEAT("buffer too small"); if(want.size() == size) FEAT("one element short"); }
}
template <size_t W, typename Char, typename N> void pick(const Z& z, const N& n, size_t size, unsigned base, bool upper, bool show) {
    switch(base) { case 2: upper ? write<W, 2, true, Char>(z, n, size, show) : write<W, 2, false, Char>(z, n, size, show); break; case 8: write<W, 8, false, Char>(z, n, size, show); break; case 10: write<W, 10, false, Char>(z, n, size, show); break; default: upper ? write<W, 16, true, Char>(z, n, size, show) : write<W, 16, false, Char>(z, n, size, show); }
}
inline size_t lengthOf(const Z& z, unsigned base, bool show) { return Z(abs(z)).get_str(int(base)).size() + (z < 0) + (show && base != 10 ? 2 : 0) + 1; }
template <size_t W> void any(const Z& z, size_t size, unsigned base, bool show, Rng& r) {
    C.resetOperands(); C.operand("value", z); const double c = costOf(z, W, base, size); if(!force && c > allowance && double(r.below(1000000)) > 1e6 * allowance / c) base = 16; if(c > 1e-4 && base != 16) FEAT("long decimal, octal or binary");
    const bool wide = r.coin(3), upper = r.coin();
    if(z >= 0 && r.coin()) { const Aeu<W> n = mk<W>(z); if(wide) pick<W, wchar_t>(z, n, size, base, upper, show); else pick<W, char>(z, n, size, base, upper, show); if(!C.stop) VEQ("value unchanged", val(n), z); }
    else { const Aesi<W> n = mks<W>(z); if(wide) pick<W, wchar_t>(z, n, size, base, upper, show); else pick<W, char>(z, n, size, base, upper, show); if(!C.stop) VEQ("value unchanged", val(n), z); }
}
template <size_t W> void run() {
    static const unsigned bases[] = {2, 8, 10, 16}; allowance = W > 1056 ? 2e-3 : 5e-4;
    for(unsigned b: bases) if(W <= 2048 || b == 10) for(int s = 0; s < 2; ++s) if(C.begin()) { Rng r = C.rng(); Z z = pow2(W) - 1 - uniform(r, W - 8); if(s) z = -z; force = 1; any<W>(z, lengthOf(z, b, true) + r.below(2), b, true, r); force = 0; if(W > 2048) break; }
    for(int i = -9; i <= 20; ++i) for(size_t size = 0; size <= 16; ++size) for(unsigned b: bases) for(int sh = 0; sh < 2; ++sh) if(C.begin()) { Rng r = C.rng(); any<W>(Z(i), size, b, sh, r); any<W>(Z(i), size, b, sh, r); }
    for(u64 i = 0, e = C.n(W <= 160 ? 60 : W <= 352 ? 20 : W <= 544 ? 8 : W <= 1056 ? 3 : 1); i < e; ++i) for(unsigned b: bases) {                         // every buffer size from 0 to beyond the length
        Rng r(C.seed * 131 + i * 7 + b); Z z = genBits(r, W <= 1056 ? W : 300); if(r.coin()) z = -z; const bool show = r.coin(); const size_t len = lengthOf(z, b, show);
        for(size_t size = 0; size <= len + 3; ++size) if(C.begin()) { Rng q = C.rng(); any<W>(z, size, b, show, q); }
    }
    for(u64 i = 0, e = C.n(W <= 192 ? 20000 : W <= 544 ? 6000 : W <= 1056 ? 1200 : 300); i < e; ++i) if(C.begin()) {
        Rng r = C.rng(); Z z = r.coin(3) ? genBits(r, 70) : genBits(r, W); if(r.coin()) z = -z; const unsigned b = bases[r.below(4)]; const bool show = r.coin(); const long len = long(lengthOf(z, b, show)); long size; switch(r.below(4)) { case 0: size = len + long(r.below(5)) - 2; break; case 1: size = long(r.below(12)); break; case 2: size = len + long(r.below(64)); break; default: size = long(r.below(u64(len) + 4)); }
        any<W>(z, size_t(size < 0 ? 0 : size), b, show, r); }
}
VF_MAIN("C03", run)
