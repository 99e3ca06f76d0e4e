// Reference elements and geometries in a number type of many digits (C31).
#include "real.hh"
#include <config.h>
#include "geo.hh"

namespace geo {
template<> inline const char* ctName<rec::Real>() { return "real"; }
using rec::Real;
void finePart1(Trace&, const rec::Options&);
void finePart2(Trace&, const rec::Options&);
void finePart3(Trace&, const rec::Options&);
void finePart4(Trace&, const rec::Options&);
} // namespace geo
