// Native counterpart of the symbolic interface: inputs come from a file of
// "name hexvalue" lines, violations are printed.
#include <dlfcn.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <vector>

#include "vf.h"

static std::map<std::string, std::uint64_t> g_in;
static std::map<std::string, int> g_count;
static bool g_abort_ok = false;
static int g_violations = 0;
extern bool g_real_mode;
bool g_real_mode = false;

static std::uint64_t Next(char const* name) {
  int c = g_count[name]++;
  std::string n = c == 0 ? name : std::string(name) + "#" + std::to_string(c);
  auto it = g_in.find(n);
  if (it == g_in.end()) {
    std::printf("VF_MISSING %s\n", n.c_str());
    return 0;
  }
  return it->second;
}
std::uint64_t vf_native_next(char const* name) { return Next(name); }

extern "C" {
std::uint64_t vf_bits(char const* name, int width) {
  std::uint64_t v = Next(name);
  return width >= 64 ? v : v & ((1ull << width) - 1);
}
double vf_double(char const* name) {
  std::uint64_t u = Next(name);
  double d;
  std::memcpy(&d, &u, 8);
  return d;
}
double vf_real(char const* name, double lo, double hi) {
  double d = vf_double(name);
  if (!(d >= lo && d <= hi)) std::printf("VF_ASSUME %s out of range\n", name);
  return d;
}
double vf_angle(char const* name) { return vf_double(name); }
int vf_choose(int n, char const* name) { return (int)Next(name); }
void vf_assume(int c) {
  if (!c) {
    std::printf("VF_ASSUME violated\n");
    if (!g_real_mode) {
      std::fflush(stdout);
      std::_Exit(0);
    }
  }
}
void vf_assume_eq(double a, double b) {
  if (std::abs(a - b) > 1e-9 * (1 + std::abs(a) + std::abs(b)))
    std::printf("VF_ASSUME equality violated %g %g\n", a, b);
}
void vf_check(int c, char const* id) {
  if (!c) {
    ++g_violations;
    std::printf("VF_VIOLATION %s\n", id);
  }
}
void vf_near(double a, double b, double tol, char const* id) {
  if (!(a == b || std::abs(a - b) <= tol)) {
    ++g_violations;
    std::printf("VF_VIOLATION %s: %.17g vs %.17g (tolerance %g)\n", id, a, b, tol);
  }
}
void vf_fail(char const* id) {
  std::printf("VF_VIOLATION %s\n", id);
  std::fflush(stdout);
  std::_Exit(1);
}
void vf_reach(char const*) {}
void vf_observe(char const* name, std::uint64_t v) {
  std::printf("VF_OBS %s %016llx\n", name, (unsigned long long)v);
}
void vf_observe_d(char const* name, double v) {
  std::uint64_t u;
  std::memcpy(&u, &v, 8);
  std::printf("VF_OBS %s %016llx\n", name, (unsigned long long)u);
}
void vf_abort_ok(int on) { g_abort_ok = on; }
void vf_check_failed(char const* what, char const* file, int line) {
  if (g_abort_ok) {
    std::printf("VF_ABORT_OK %s\n", what);
    std::fflush(stdout);
    std::_Exit(g_violations ? 1 : 0);
  }
  std::printf("VF_VIOLATION CHECK failed: %s at %s:%d\n", what, file, line);
  std::fflush(stdout);
  std::_Exit(1);
}
void vf_silent_exit() {
  std::fflush(stdout);
  std::_Exit(g_violations ? 1 : 0);
}
std::uint64_t vf_concretize(std::uint64_t v) { return v; }
int vf_is_engine() { return 0; }
int vf_real_mode() { return g_real_mode; }
void vf_angle_denominator(int) {}
void vf_sqrt_domain(int) {}
int vf_is_symbolic(double) { return 0; }
void vf_note(char const*) {}
}

#include "native_threads.inc"

// Usage: binary entry inputs-file [real]
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::ifstream f(argv[2]);
  std::string n, v;
  while (f >> n && n != "---" && f >> v) g_in[n] = std::strtoull(v.c_str(), nullptr, 16);
  g_real_mode = argc > 3;
  auto* fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) {
    std::printf("VF_NOENTRY\n");
    return 2;
  }
  fn();
  std::fflush(stdout);
  std::_Exit(g_violations ? 1 : 0);
}
