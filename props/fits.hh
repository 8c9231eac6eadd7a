// gives the inline functions of the interpolation headers a body to verify
#include "math/approximation/TsApproximation.hh"
inline double gcv_get(TsApproximation* t, const double x, const double y) { return t->get(x, y); }
