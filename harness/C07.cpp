#define AESI_GMP_INTEGRATION
#include "vf.hpp"
#include <new>
using namespace vf;
template <size_t W> void value(const Z& z, Rng& r) {
    C.resetOperands(); C.operand("gmp", z); const Z m = abs(z); if(z == 0) FEAT("zero"); if(z < 0) FEAT("negative"); if(mpz_sizeinbase(m.get_mpz_t(), 2) == W) FEAT("top bit set"); if(m != 0 && mpz_scan1(m.get_mpz_t(), 0) >= 32) FEAT("zero low blocks");
    { alignas(Aeu<W>) unsigned char mem[sizeof(Aeu<W>)]; std::memset(mem, 0xff, sizeof mem); asm volatile("" : : "r"(mem) : "memory"); const Z src = m; Aeu<W>* p = new(mem) Aeu<W>(src); VEQ("Aeu(mpz)", val(*p), m); VEQ("mpz unchanged", src, m); }
    { alignas(Aesi<W>) unsigned char mem[sizeof(Aesi<W>)]; std::memset(mem, 0xff, sizeof mem); asm volatile("" : : "r"(mem) : "memory"); const Z src = z; Aesi<W>* p = new(mem) Aesi<W>(src); VEQ("Aesi(mpz)", val(*p), z); VEQ("mpz unchanged", src, z); VEQ("Aesi(mpz) magnitude", val(p->unsignedCast()), m); }
    { Aeu<W> a = mk<W>(genBits(r, W)); a = m; VEQ("Aeu = mpz", val(a), m); Aesi<W> b = mks<W>(genSigned(r, W)); b = z; VEQ("Aesi = mpz", val(b), z); }
    { Z padded = z; mpz_realloc2(padded.get_mpz_t(), W * 2 + 640); VEQ("Aesi(mpz with spare limbs)", val(Aesi<W>(padded)), z); }
    const Z o = r.coin(3) ? z : genSigned2(r, z, W); C.operand("other", o); const Aesi<W> S = mks<W>(z); const Aeu<W> A = mk<W>(m); const Z om = abs(o); const bool e = z == o, em = m == om; if(e) FEAT("equal"); if(!e && em) FEAT("equal magnitude, other sign");
    VBOOL("Aesi == mpz", S == o, e); VBOOL("mpz == Aesi", o == S, e); VBOOL("Aesi != mpz", S != o, !e); VBOOL("Aeu == mpz", A == om, em); VBOOL("mpz == Aeu", om == A, em); VBOOL("Aeu != mpz", A != om, !em);
    const Z part = genSigned(r, W), rest = o - part; VBOOL("Aesi == mpz expression", S == part + rest, e); VBOOL("Aesi == mpz expression", S == -(-o), e); const Z pm = genBits(r, W) % (om + 1), qm = om - pm; VBOOL("Aeu == mpz expression", A == pm + qm, em); VBOOL("mpz expression != Aeu", pm + qm != A, !em);
}
template <size_t W> void run() {
    for(int i = -12; i <= 12; ++i) if(C.begin()) { Rng r = C.rng(); value<W>(Z(i), r); }
    for(size_t k = 0; k <= W; ++k) for(int d = -1; d <= 1; ++d) for(int s = 0; s < 2; ++s) if(C.begin()) { Rng r = C.rng(); Z z = mod2(pow2(k) + d, W); if(s) z = -z; value<W>(z, r); }
    for(size_t k = 0; k < W; ++k) if(C.begin()) { Rng r = C.rng(); Z z = uniform(r, W - k) << k; if(r.coin()) z = -z; value<W>(z, r); z = uniform(r, k + 1); value<W>(z, r); }            // every number of trailing zero bits and every length
    for(u64 i = 0, e = C.n(W <= 1056 ? 20000 : 3000); i < e; ++i) if(C.begin()) { Rng r = C.rng(); value<W>(genSigned(r, W), r); }
}
VF_MAIN("C07", run)
