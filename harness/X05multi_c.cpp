#define BT_UNSIGNED_ONLY
#define TU c
#include "battery.hpp"
#include "lite.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
// one translation unit's digests of the workload, and a function exchanging numbers with the other units by value and by reference
void CAT(unsigned_, TU)(lite::Digests& d, std::uint64_t seed) { bt::Rng r(seed); bt::allUnsigned<96>(d, r); bt::allUnsigned<288>(d, r); }
Aeu<288> CAT(shift_, TU)(const Aeu<288>& a, Aeu<288> b) { return (a << 37u) * b + (a % (b + 1u)); }
