#include "vf.hpp"
using namespace vf;
template <size_t W, size_t V> void cast(const Z& z) {
    if constexpr (W != V) {
        C.resetOperands(); C.operand("value", z); C.note = std::to_string(W) + " to " + std::to_string(V); C.opHash(V); const Z m = abs(z), wm = mod2(m, V), wz = wrapSigned(z, V); const Aeu<W> A = mk<W>(m); const Aesi<W> S = mks<W>(z);
        if(V < W && wm != m) FEAT("cropped"); if(V < W && wm == 0 && m != 0) FEAT("cropped to zero"); if(V > W) FEAT("widened"); if(z < 0) FEAT("negative");
        const Aeu<V> B = A.template precisionCast<V>(); const Aesi<V> T = S.template precisionCast<V>(); VEQ("Aeu.precisionCast", val(B), wm); VEQ("Aesi.precisionCast", val(T), wz); VEQ("Aesi.precisionCast magnitude", val(T.unsignedCast()), wm); VEQ("source unchanged", val(A), m); VEQ("signed source unchanged", val(S), z);
        if(V > W || wm == m) { VEQ("cast and back", val(B.template precisionCast<W>()), m); VEQ("signed cast and back", val(T.template precisionCast<W>()), z); }
        VBOOL("cast zero predicate", T.isZero(), wz == 0); VBOOL("cast zero equals 0", T == 0, wz == 0); VBOOL("cast sign", T < 0, wz < 0);
    }
}
template <size_t W> void all(const Z& z) { cast<W, 96>(z); cast<W, 128>(z); cast<W, 160>(z); cast<W, 256>(z); cast<W, 512>(z); cast<W, 544>(z); cast<W, 1024>(z); cast<W, 2080>(z); cast<W, W + 32>(z); cast<W, W * 2>(z); if constexpr (W > 96) cast<W, W - 32>(z); }
template <size_t W> void run() {
    for(int i = -8; i <= 8; ++i) if(C.begin()) all<W>(Z(i));
    for(size_t k = 0; k <= W; k += W > 2048 ? 5 : 1) for(int d = -1; d <= 1; ++d) if(C.begin()) { Z z = mod2(pow2(k) + d, W); if((k + size_t(d + 1)) & 1) z = -z; all<W>(z); }
    for(size_t k = 0; k < W / 32; ++k) for(int d = 0; d < 8; ++d) if(C.begin()) { Rng r = C.rng(); Z z = mod2(genBits(r, W) >> (32 * k) << (32 * k), W); if(d & 1) z = -z; all<W>(z); }      // low blocks zero
    for(u64 i = 0, e = C.n(W <= 544 ? 12000 : W <= 2048 ? 3000 : 600); i < e; ++i) if(C.begin()) { Rng r = C.rng(); all<W>(genSigned(r, W)); }
}
VF_MAIN("C06", run)
