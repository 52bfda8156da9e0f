// Bit manipulation and modular arithmetic on integers.
//@ entry bits_log
//@ entry bits_reversed_increment
//@ entry modulo
//@ entry modulo_offset
//@ bound FloorLog2/PowerOf2Le: every n in [0, 2^62]; BitReversedIncrement: widths 1 to 12 and every value; mod: every dividend in [-2000, 2000], 24 divisors from -97 to 97, every offset in [-300, 300].
#include "base/bits.hpp"
#include "base/mod.hpp"
#include "vf.h"

using namespace principia::base::_bits;
using namespace principia::base::_mod;

VF_HARNESS(bits_log) {
  std::int64_t const n = vf::range("n", 0, 1LL << 62);
  std::int64_t const l = FloorLog2(n);
  std::int64_t const p = PowerOf2Le(n);
  vf_observe("l", l);
  vf_observe("p", p);
  if (n == 0) {
    vf_check(l == 0 && p == 0, "zero");
  } else {
    vf_check(l >= 0 && l < 63, "range");
    vf_check((1LL << l) <= n && n - (1LL << l) < (1LL << l), "floor of the logarithm");
    vf_check(p == 1LL << l, "power of two");
  }
}

VF_HARNESS(bits_reversed_increment) {
  int const bits = 1 + vf_choose(12, "bits");
  std::int64_t const n = vf::range("n", 0, (1LL << bits) - 1);
  std::int64_t const r = BitReversedIncrement(n, bits);
  vf_observe("r", r);
  // Reverse, increment, reverse.
  std::int64_t m = 0;
  for (int i = 0; i < bits; ++i) m |= ((n >> i) & 1) << (bits - 1 - i);
  m = (m + 1) & ((1LL << bits) - 1);
  std::int64_t e = 0;
  for (int i = 0; i < bits; ++i) e |= ((m >> i) & 1) << (bits - 1 - i);
  if (m == 0) return;  // Overflow: unspecified.
  vf_check(r == e, "bit reversed increment");
}

static void CheckMod(int r, int a, int d, int lo) {
  if (d > 0) vf_check(r >= lo && r < lo + d, "range for positive divisor");
  else vf_check(r <= lo && r > lo + d, "range for negative divisor");
  vf_check((r - a) % d == 0, "congruence");
}
VF_HARNESS(modulo) {
  static constexpr int ds[] = {1, 2, 3, 4, 5, 6, 7, 12, 13, 24, 60, 97, -1, -2, -3, -4, -5, -6, -7, -12, -13, -24, -60, -97};
  int const d = ds[vf_choose(24, "d")];
  int const a = vf::range("a", -2000, 2000);
  int const r = mod(a, d);
  vf_observe("r", r);
  CheckMod(r, a, d, 0);
}
VF_HARNESS(modulo_offset) {
  static constexpr int ds[] = {1, 2, 3, 4, 5, 7, 12, 60, -1, -2, -3, -4, -7, -13};
  int const d = ds[vf_choose(14, "d")];
  int const a = vf::range("a", -2000, 2000);
  int const o = vf::range("o", -300, 300);
  int const r = mod(a, d, o);
  vf_observe("r", r);
  CheckMod(r, a, d, o);
}
