// Exact elementary functions, which stand for the correctly rounded ones of the
// code in the real-number harnesses.
#include <cmath>
#include <cstdint>
#include "vf.h"
namespace principia::numerics::_fma::internal {
enum class FMAPresence { Unknown = 0, Absent = 1, Present = 2 };
}
namespace principia::numerics::_sin_cos::internal {
using _fma::internal::FMAPresence;
template<FMAPresence p> double Sin(double x) { return std::sin(x); }
template<FMAPresence p> double Cos(double x) { return std::cos(x); }
// An arc in [-π/4, π/4].
static double Arc(double s, double c) {
  double const α = std::atan2(s, c);
  vf_assume(s < 0 ? α < 0 : α >= 0);
  return α;
}
// The reduction modulo π/2, given by the signs of the sine and cosine.
void Reduce(double x, double& x_reduced, std::int64_t& quadrant) {
  double const s = std::sin(x), c = std::cos(x);
  if (c >= s && c >= -s) {
    quadrant = 0;
    x_reduced = Arc(s, c);
  } else if (s >= c && s >= -c) {
    quadrant = 1;
    x_reduced = Arc(-c, s);
  } else if (c <= s && c <= -s) {
    quadrant = 2;
    x_reduced = Arc(-s, -c);
  } else {
    quadrant = 3;
    x_reduced = Arc(c, -s);
  }
}
template<typename T> struct SC { T sin; T cos; };
template<FMAPresence p> SC<double> SinCos(double x) { return {std::sin(x), std::cos(x)}; }
template double Sin<FMAPresence::Absent>(double);
template double Sin<FMAPresence::Present>(double);
template double Cos<FMAPresence::Absent>(double);
template double Cos<FMAPresence::Present>(double);
template SC<double> SinCos<FMAPresence::Absent>(double);
template SC<double> SinCos<FMAPresence::Present>(double);
}
namespace principia::numerics::_cbrt::internal {
double Cbrt(double y) { return std::cbrt(y); }
}
