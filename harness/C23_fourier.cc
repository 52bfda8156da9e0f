// Fast Fourier transforms.
//@ entry fft_transform mode=real max-seconds=100
//@ entry fft_complex mode=real max-seconds=60
//@ entry fft_vector mode=real max-seconds=60
//@ entry fft_mode mode=real max-seconds=100
//@ src $VERIF/rt/elementary.cc
//@ bound Transforms of sizes 1 to 64 of any real values, of size 8 of any complex or vector values; the mode for sizes 4 and 8 in any range of frequencies.
//@ assume Real arithmetic instead of rounded floating point, except for the constants that the code computes in advance.
#include <list>
#include <vector>
#include "geo.h"
#include "geometry/complexification.hpp"
#include "numerics/fast_fourier_transform.hpp"

using namespace vf;
using namespace principia::geometry::_complexification;
using namespace principia::numerics::_fast_fourier_transform;
using principia::geometry::_interval::Interval;

namespace {
double cosine(int k, int n) { return std::cos(2 * M_PI * (k % n) / n); }
double sine(int k, int n) { return std::sin(2 * M_PI * (k % n) / n); }

template<int n>
void transform() {
  std::array<Length, n> u;
  for (int i = 0; i < n; ++i) u[i] = q<Length>(("u" + std::to_string(i)).c_str());
  Time const Δt = vf_real("dt", 0.1, 3) * si::Second;
  FastFourierTransform<Length, Instant, n> const f(u, Δt);
  auto const spectrum = f.PowerSpectrum();
  vf_check(spectrum.size() == n, "size of spectrum");
  auto it = spectrum.begin();
  Square<Length> power{};
  for (int s = 0; s < n; ++s, ++it) {
    Length re{}, im{};
    for (int r = 0; r < n; ++r) {
      re += u[r] * cosine(r * s, n);
      im -= u[r] * sine(r * s, n);
    }
    eq(f[s].real_part(), re, "real part", 1e-9 * n * n);
    eq(f[s].imaginary_part(), im, "imaginary part", 1e-9 * n * n);
    eq(f.frequency(s) * Δt * n / si::Radian, 2 * M_PI * s, "frequency", 1e-6);
    if (n <= 8) {
      eq(it->first * Δt * n / si::Radian, 2 * M_PI * s, "frequency of power", 1e-6);
      eq(it->second, re * re + im * im, "power", 1e-6 * n * n);
      power += it->second;
    }
  }
  if (n <= 8) {
    Square<Length> sum{};
    for (auto const& x : u) sum += x * x;
    eq(power, n * sum, "Parseval", 1e-6 * n * n);
  }
}
}  // namespace

VF_HARNESS(fft_transform) {
  switch (vf_choose(7, "size")) {
    case 0: transform<1>(); break;
    case 1: transform<2>(); break;
    case 2: transform<4>(); break;
    case 3: transform<8>(); break;
    case 4: transform<16>(); break;
    case 5: transform<32>(); break;
    case 6: transform<64>(); break;
  }
}

VF_HARNESS(fft_complex) {
  // Each way to pass the values.
  std::vector<double> u;
  for (int i = 0; i < 8; ++i) u.push_back(vf_real(("u" + std::to_string(i)).c_str(), -1, 1));
  std::list<double> const l(u.begin(), u.end());
  FastFourierTransform<double, double, 8> const f(u, 0.5), g(l, 0.5), h(u.begin(), u.end(), 0.5);
  for (int s = 0; s < 8; ++s) {
    double re = 0, im = 0;
    for (int r = 0; r < 8; ++r) {
      re += u[r] * cosine(r * s, 8);
      im -= u[r] * sine(r * s, 8);
    }
    eq(f[s].real_part(), re, "vector");
    eq(f[s].imaginary_part(), im, "vector");
    eq(g[s].real_part(), re, "list");
    eq(g[s].imaginary_part(), im, "list");
    eq(h[s].real_part(), re, "iterators");
    eq(h[s].imaginary_part(), im, "iterators");
  }
  // Real values have a symmetrical transform.
  for (int s = 1; s < 8; ++s) {
    eq(f[s].real_part(), f[8 - s].real_part(), "symmetry");
    eq(f[s].imaginary_part(), -f[8 - s].imaginary_part(), "symmetry");
  }
}

VF_HARNESS(fft_vector) {
  std::array<Displacement<W1>, 8> u;
  for (int i = 0; i < 8; ++i) u[i] = v<Length, W1>(("u" + std::to_string(i)).c_str());
  Time const Δt = vf_real("dt", 0.1, 3) * si::Second;
  FastFourierTransform<Displacement<W1>, Instant, 8> const f(u, Δt);
  auto const spectrum = f.PowerSpectrum();
  for (int s = 0; s < 8; ++s) {
    Displacement<W1> re, im;
    for (int r = 0; r < 8; ++r) {
      re += u[r] * cosine(r * s, 8);
      im -= u[r] * sine(r * s, 8);
    }
    eq(f[s].real_part(), re, "real part");
    eq(f[s].imaginary_part(), im, "imaginary part");
    eq(std::next(spectrum.begin(), s)->second, re.Norm²() + im.Norm²(), "power", 1e-3);
  }
}

namespace {
template<int n>
void mode() {
  // Values whose transform is made of real and imaginary parts that are simple
  // functions of the inputs.
  std::array<Length, n> u;
  Length a[n / 2 + 1];
  if (n == 4) {
    for (int k = 0; k <= n / 2; ++k) a[k] = vf_real(("a" + std::to_string(k)).c_str(), 0, 10) * si::Metre;
  } else {
    // One peak, which is symbolic.
    int const peak = vf_choose(n / 2 + 1, "peak");
    for (int k = 0; k <= n / 2; ++k) a[k] = (k == peak ? vf_real("a", 10, 20) : (k * 3 + 1) % 5) * si::Metre;
  }
  for (int r = 0; r < n; ++r) {
    u[r] = Length();
    for (int k = 0; k <= n / 2; ++k) u[r] += a[k] * cosine(r * k, n) * (k == 0 || k == n / 2 ? 1 : 2);
  }
  for (int i = 0; i <= n / 2; ++i)
    for (int j = 0; j < i; ++j) vf_assume(a[i] - a[j] > 0.01 * si::Metre || a[j] - a[i] > 0.01 * si::Metre);
  Time const Δt = 1 * si::Second;
  FastFourierTransform<Length, Instant, n> const f(u, Δt);
  // The range of frequencies, in units of the resolution.
  int const lo = vf_choose(n / 2 + 1, "lo");
  int const hi = lo + vf_choose(n / 2 + 1 - lo, "hi");
  bool const around = vf_choose(2, "around") == 1;
  AngularFrequency const Δω = 2 * M_PI / n * si::Radian / si::Second;
  AngularFrequency const min = around ? (lo - vf_real("below", 0.01, 0.99)) * Δω : f.frequency(lo);
  AngularFrequency const max = around ? (hi + vf_real("above", 0.01, 0.99)) * Δω : f.frequency(hi);
  auto const m = f.Mode(min, max);
  int best = lo;
  for (int k = lo; k <= hi; ++k) if (a[k] > a[best]) best = k;
  eq(m.min / Δω, std::max(0, best - 1), "lower bound");
  eq(m.max / Δω, best + 1, "upper bound");
}
}  // namespace

VF_HARNESS(fft_mode) {
  if (vf_choose(2, "size") == 0) mode<4>(); else mode<8>();
}
