#include "vf.hpp"
#include <istream>
#include <ostream>
#include <sstream>
using namespace vf;
inline std::string bytesOf(const Z& z, size_t W, bool big) {        // blocks from most to least significant (or reversed), each in native byte order
    std::string s; for(size_t i = 0; i < W / 32; ++i) { const size_t b = big ? W / 32 - 1 - i : i; const u32 v = u32(mod2(z >> (32 * b), 32).get_ui()); char c[4]; std::memcpy(c, &v, 4); s.append(c, 4); } return s;
}
inline Z numberOf(std::string s, size_t W, bool big) { s.resize(W / 8, '\0'); Z z; for(size_t i = 0; i < W / 32; ++i) { u32 v; std::memcpy(&v, s.data() + 4 * i, 4); z += Z(v) << (32 * (big ? W / 32 - 1 - i : i)); } return z; }
struct Sink : std::streambuf { std::string got; size_t room; bool throws; bool chunky; u64 st;
    Sink(size_t r, bool t, bool c = false, u64 s = 0) : room(r), throws(t), chunky(c), st(s) {}
    int overflow(int c) override { if(got.size() >= room) { if(throws) throw std::runtime_error("sink"); return EOF; } got += char(c); return c & 0xff; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { std::streamsize k = 0; for(; k < n; ++k) { if(got.size() >= room) { if(throws) throw std::runtime_error("sink"); break; } got += s[k]; } return k; } };
struct Source : std::streambuf { std::string data; size_t pos = 0, limit; bool throws; char cur = 0;     // delivers one byte at a time; ends or throws at limit
    Source(std::string d, size_t l, bool t) : data(std::move(d)), limit(l), throws(t) {}
    int underflow() override { if(pos >= limit) { if(throws) throw std::runtime_error("source"); return EOF; } cur = data[pos]; setg(&cur, &cur, &cur + 1); ++pos; return cur & 0xff; } };
// delivers pieces of random sizes, some of them announced by showmanyc
struct Pieces : std::streambuf { std::string data; size_t pos = 0; Rng r; unsigned most; Pieces(std::string d, u64 seed, unsigned m) : data(std::move(d)), r(seed), most(m) {}
    int underflow() override { if(pos >= data.size()) return EOF; const size_t k = std::min<size_t>(1 + r.below(most), data.size() - pos); setg(data.data() + pos, data.data() + pos, data.data() + pos + k); pos += k; return *gptr() & 0xff; }
    std::streamsize showmanyc() override { return pos < data.size() ? std::streamsize(r.below(data.size() - pos + 1)) : -1; } };
template <size_t W> void one(const Z& z, Rng& r) {
    C.operand("value", z); const bool big = r.coin(); C.note = big ? "big-endian" : "little-endian"; C.opHash(big); const Aeu<W> n = mk<W>(z); const std::string want = bytesOf(z, W, big), bw = bytesOf(z, W, true);
    VF_AT("writeBinary"); { std::ostringstream os; n.writeBinary(os, big); C.eqs(os.str(), want); if(!os.good()) C.fail("stream not good"); } if(big) { std::ostringstream os; n.writeBinary(os); C.eqs(os.str(), bw); }
    VF_AT("readBinary"); { std::istringstream is(want); Aeu<W> m = mk<W>(genBits(r, W)); m.readBinary(is, big); C.eq(val(m), z); if(!is.good()) C.fail("stream not good after a complete read"); if(is.peek() != EOF) C.fail("bytes left over"); } if(big) { std::istringstream is(want); Aeu<W> m = mk<W>(genBits(r, W)); m.readBinary(is); C.eq(val(m), z); }
    { Source s(want, want.size(), false); std::istream is(&s); Aeu<W> m = mk<W>(genBits(r, W)); VEQ("readBinary byte by byte", (m.readBinary(is, big), val(m)), z); VOK("stream good", is.good()); }
    { const size_t lead = r.below(6); Pieces s("header" + want + "tail", r.next(), r.coin() ? 3 : 40); std::istream is(&s); char skip[8]; is.read(skip, std::streamsize(6 - lead)); for(size_t i = 0; i < lead; ++i) is.get(); if(r.coin()) is.peek(); if(r.coin()) is.tie(nullptr); if(r.coin(4)) is.exceptions(std::ios::badbit | std::ios::failbit | std::ios::eofbit); Aeu<W> m = mk<W>(genBits(r, W)); VEQ("readBinary in pieces", (m.readBinary(is, big), val(m)), z); VOK("stream good after pieces", is.good()); is.exceptions(std::ios::goodbit); std::string t; is >> t; C.eqs(t, "tail"); }
    // several numbers of different widths and other data in one stream
    { const Z y = genBits(r, W), x = genBits(r, 128); std::stringstream st; st << "head"; n.writeBinary(st, big); mk<128>(x).writeBinary(st, !big); mk<W>(y).writeBinary(st, big); st << "tail";
      VF_AT("several numbers in one stream"); C.eqs(st.str(), "head" + want + bytesOf(x, 128, !big) + bytesOf(y, W, big) + "tail"); char h[5] = {}; st.read(h, 4); Aeu<W> a = mk<W>(genBits(r, W)), c = mk<W>(genBits(r, W)); Aeu<128> b = mk<128>(genBits(r, 128)); a.readBinary(st, big); b.readBinary(st, !big); c.readBinary(st, big); C.eqs(h, "head"); C.eq(val(a), z); C.eq(val(b), x); C.eq(val(c), y); std::string t; st >> t; C.eqs(t, "tail"); }
    // raw bytes are data, also after a text in the same stream
    { std::string raw(W / 8, 0); for(char& ch: raw) ch = char(r.next()); std::istringstream is(raw + "rest"); Aeu<W> m = mk<W>(z); VEQ("readBinary of arbitrary bytes", (m.readBinary(is, big), val(m)), numberOf(raw, W, big)); VOK("position after reading", is.tellg() == std::streampos(W / 8)); }
}
template <size_t W> void shortRead(const Z& z, size_t len, int exc, bool throws, bool big) {
    C.operand("value", z); C.note = std::string(big ? "big" : "little") + "-endian, " + std::to_string(len) + " bytes available, exceptions=" + std::to_string(exc) + (throws ? ", throwing source" : ""); C.opHash(len * 16 + u64(exc) * 4 + throws * 2 + big);
    const std::string data = bytesOf(z, W, big).substr(0, len); Aeu<W> m = mk<W>(pow2(W) - 1 - z); Source src(data, len, throws); std::istream is(&src); if(exc) is.exceptions(exc == 1 ? std::ios::badbit : exc == 2 ? std::ios::badbit | std::ios::failbit : std::ios::eofbit); bool caught = false;
    VF_AT("readBinary from a short stream"); try { m.readBinary(is, big); } catch(...) { caught = true; }
    C.eq(val(m), numberOf(data, W, big)); if(!is.fail()) C.fail("the stream does not report the missing bytes");
    const bool wantCatch = throws ? (exc == 1 || exc == 2) : exc >= 2; if(caught != wantCatch) C.fail(caught ? "an exception escaped although none was asked for" : "the exception asked for was not delivered");
    { Pieces p(data, len * 7 + u64(exc), 1 + unsigned(len % 9)); std::istream ip(&p); if(exc) ip.exceptions(exc == 1 ? std::ios::badbit : exc == 2 ? std::ios::badbit | std::ios::failbit : std::ios::eofbit); Aeu<W> q = mk<W>(pow2(W) - 1 - z); bool c2 = false; VF_AT("readBinary from short pieces"); try { if(len % 2) (void)ip.peek(); q.readBinary(ip, big); } catch(...) { c2 = true; } C.eq(val(q), numberOf(data, W, big)); if(!ip.fail()) C.fail("the stream does not report the missing bytes"); if(c2 != (exc >= 2)) C.fail("exception"); }
    { std::istringstream iq("ab" + data); iq.get(); iq.get(); if(exc) iq.exceptions(exc == 1 ? std::ios::badbit : exc == 2 ? std::ios::badbit | std::ios::failbit : std::ios::eofbit); Aeu<W> q = mk<W>(pow2(W) - 1 - z); bool c2 = false; VF_AT("readBinary from a short string stream"); try { q.readBinary(iq, big); } catch(...) { c2 = true; } C.eq(val(q), numberOf(data, W, big)); if(!iq.fail()) C.fail("the stream does not report the missing bytes"); if(c2 != (exc >= 2)) C.fail("exception"); }
    FEAT("short read"); if(len % 4) FEAT("short read inside a block");
}
template <size_t W> void shortWrite(const Z& z, size_t room, int exc, bool throws, bool big) {
    C.operand("value", z); C.note = std::string(big ? "big" : "little") + "-endian, room for " + std::to_string(room) + " bytes, exceptions=" + std::to_string(exc) + (throws ? ", throwing sink" : ""); C.opHash(room * 16 + u64(exc) * 4 + throws * 2 + big + 1000003);
    const Aeu<W> n = mk<W>(z); Sink sink(room, throws); std::ostream os(&sink); if(exc) os.exceptions(exc == 1 ? std::ios::badbit : std::ios::badbit | std::ios::failbit); bool caught = false;
    VF_AT("writeBinary to a failing stream"); try { n.writeBinary(os, big); } catch(...) { caught = true; }
    C.eqs(sink.got, bytesOf(z, W, big).substr(0, room)); if(!os.fail()) C.fail("the stream does not report the failing sink"); if(caught != (exc > 0)) C.fail(caught ? "an exception escaped although none was asked for" : "the exception asked for was not delivered"); C.eq(val(n), z);
    FEAT("failing sink");
}
template <size_t W> void run() {
    for(size_t k = 0; k < W; ++k) for(int d = -1; d <= 0; ++d) if(C.begin()) { Rng r = C.rng(); const Z z = pow2(k) + d; one<W>(z, r); }
    for(u64 i = 0, e = C.n(W <= 1056 ? 6000 : 800); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z z = genBits(r, W); one<W>(z, r); }
    for(size_t len = 0; len < W / 8; len += W > 2048 ? 7 : 1) for(int exc = 0; exc < 4; ++exc) for(int k = 0; k < 4; ++k) if(C.begin()) { Rng r = C.rng(); const Z z = r.coin() ? Z(uniform(r, W)) : genBits(r, W); shortRead<W>(z, len, exc, k & 1, k & 2); }       // a fault at every byte
    for(size_t len = 0; len < W / 8; len += W > 2048 ? 7 : 1) for(int exc = 0; exc < 3; ++exc) for(int k = 0; k < 4; ++k) if(C.begin()) { Rng r = C.rng(); const Z z = r.coin() ? Z(uniform(r, W)) : genBits(r, W); shortWrite<W>(z, len, exc, k & 1, k & 2); }
    for(u64 i = 0, e = C.n(2000); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z z = genBits(r, W); const size_t len = r.below(W / 8); if(r.coin()) shortRead<W>(z, len, int(r.below(4)), r.coin(), r.coin()); else shortWrite<W>(z, len, int(r.below(3)), r.coin(), r.coin()); }
    for(u64 i = 0, e = C.n(200); i < e; ++i) if(C.begin()) { Rng r = C.rng(); const Z z = genBits(r, W); C.operand("value", z); std::istringstream is(bytesOf(z, W, true)); is.setstate(std::ios::failbit); Aeu<W> m = mk<W>(z); VEQ("reading from a failed stream yields zero", (m.readBinary(is), val(m)), Z(0)); std::ostringstream os; os.setstate(std::ios::badbit); mk<W>(z).writeBinary(os); VOK("writing to a failed stream writes nothing", os.str().empty() && os.bad()); }
}
VF_MAIN("C04", run)
