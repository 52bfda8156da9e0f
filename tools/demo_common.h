// Common to the demonstrations.
#pragma once
#include <cmath>
#include <cstdio>
#include <memory>
#include <vector>
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "quantities/named_quantities.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
namespace principia::geometry::_point::internal {
inline std::string DebugString(Instant const&) { return ""; }
inline std::ostream& operator<<(std::ostream& o, Instant const&) { return o; }
}
inline Instant At(double t) { return Instant() + t * Second; }
// Fails the demonstration if a and b differ.
inline void Expect(double a, double b, double tolerance, char const* what) {
  if (!(std::abs(a - b) <= tolerance)) {
    std::printf("%s: %.17g instead of %.17g\n", what, a, b);
    std::exit(1);
  }
}
