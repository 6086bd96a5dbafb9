#include <AesiMultiprecision/Aeu.h>
#include <AesiMultiprecision/Aesi.h>
#define TU a
#include "battery.hpp"
#include "lite.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
// one translation unit's digests of the workload, and a function exchanging numbers with the other units by value and by reference
void CAT(unsigned_, TU)(lite::Digests& d, std::uint64_t seed) { bt::Rng r(seed); bt::allUnsigned<96>(d, r); bt::allUnsigned<288>(d, r); }
Aeu<288> CAT(shift_, TU)(const Aeu<288>& a, Aeu<288> b) { return (a << 37u) * b + (a % (b + 1u)); }
void CAT(all_, TU)(lite::Digests& d, std::uint64_t seed) { bt::Rng r(seed); bt::all<96>(d, r, true, true); bt::all<288>(d, r, true, true); }
Aesi<288> CAT(signed_, TU)(const Aesi<288>& a, Aesi<288> b) { b -= a * a; return b.isNegative() ? b : -b; }
