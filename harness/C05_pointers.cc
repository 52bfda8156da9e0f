// not_null pointers and associative lookup: no null ever escapes, no object is
// lost, duplicated or leaked by conversions and moves.
//@ entry not_null_raw
//@ entry not_null_unique
//@ entry not_null_dynamic
//@ entry find_or_die
//@ entry bounded_array
//@ entry fingerprint
//@ bound Raw and owning pointers, arbitrary nullness of every source pointer, every sequence of 3 moves between 3 owning pointers; maps of 3 arbitrary distinct keys and an arbitrary key looked up; bounded arrays of capacity 4.
#include <map>
#include <memory>
#include "base/array.hpp"
#include "base/fingerprint2011.hpp"
#include "base/map_util.hpp"
#include "base/not_null.hpp"
#include "vf.h"

using namespace principia::base::_array;
using namespace principia::base::_fingerprint2011;
using namespace principia::base::_map_util;
using namespace principia::base::_not_null;

VF_HARNESS(not_null_raw) {
  int x = 1, y = 2;
  bool const null = vf_choose(2, "null");
  int* const p = null ? nullptr : &x;
  int const how = vf_choose(4, "how");
  if (null) vf_abort_ok(1);  // A null pointer must stop here.
  if (how == 0) {
    not_null<int*> const n = p;
    vf_check(!null, "null not detected");
    vf_check(n == p && &*n == &x && *n == 1, "value");
  } else if (how == 1) {
    auto const n = check_not_null(p);
    vf_check(!null, "null not detected by check_not_null");
    vf_check(n == p, "value");
  } else if (how == 2) {
    not_null<int*> n = &y;
    n = p;
    vf_check(!null, "null not detected in assignment");
    vf_check(n == p, "value");
  } else {
    not_null<int const*> const n = p;
    not_null<int const*> const m(n);
    vf_check(!null, "null not detected in qualification");
    vf_check(m == p, "value");
  }
  not_null<int*> a = &x, b = &y;
  vf_check(!(a == b) && a != b && a != nullptr && !(a == nullptr) && static_cast<bool>(a), "comparisons");
  vf_check((a < b) == (&x < &y) && (a > b) == (&x > &y) && (a <= b) == (&x <= &y) && (a >= b) == (&x >= &y) && a <= a && a >= a, "order");
  a = b;
  vf_check(a == b && *a == 2, "assigned");
}

static int live = 0;
struct Base { virtual ~Base() { --live; } Base() { ++live; } int v = 0; };
struct Derived : Base { int w = 3; };
struct Other : Base {};

VF_HARNESS(not_null_unique) {
  live = 0;
  {
    std::unique_ptr<Base> null_or_not;
    bool const null = vf_choose(2, "null");
    if (!null) null_or_not = std::make_unique<Derived>();
    if (null) vf_abort_ok(1);
    not_null<std::unique_ptr<Base>> a(std::move(null_or_not));
    vf_check(!null, "null not detected");
    vf_abort_ok(0);
    auto b = make_not_null_unique<Base>();
    auto c = make_not_null_unique<Derived>();
    Base* const pa = a.get();
    Base* const pb = b.get();
    vf_check(live == 3, "objects");
    int const how = vf_choose(6, "how");
    if (how == 0) {
      a = std::move(b);
      vf_check(a.get() == pb, "moved");
    } else if (how == 1) {
      std::unique_ptr<Base> u = std::move(a);
      vf_check(u.get() == pa, "converted");
      a = std::move(c);
      vf_check(a != nullptr && u != nullptr, "valid");
    } else if (how == 2) {
      not_null<std::unique_ptr<Base>> d = std::move(c);
      vf_check(d->v == 0, "value");
      d->v = 4;
      a = std::move(d);
      vf_check(a->v == 4 && (*a).v == 4, "value moved");
    } else if (how == 3) {
      std::unique_ptr<Base> e(b.release());
      vf_check(e.get() == pb, "released");
      b = std::move(a);
      vf_check(b.get() == pa, "moved into released");
    } else if (how == 4) {
      a.reset(not_null<Base*>(new Base));
      vf_check(live == 3 && a.get() != pb, "reset destroys the former object");
    } else {
      auto s = make_not_null_shared<Derived>();
      not_null<std::shared_ptr<Base>> t = s;
      vf_check(static_cast<Base*>(t.get()) == static_cast<Base*>(s.get()) && live == 4, "shared");
    }
  }
  vf_check(live == 0, "no leak");
}

VF_HARNESS(not_null_dynamic) {
  live = 0;
  bool const right = vf_choose(2, "right");
  bool const unique = vf_choose(2, "unique");
  not_null<std::unique_ptr<Base>> a = right ? not_null<std::unique_ptr<Base>>(make_not_null_unique<Derived>())
                                            : not_null<std::unique_ptr<Base>>(make_not_null_unique<Other>());
  Base* const p = a.get();
  if (!right) vf_abort_ok(1);
  if (unique) {
    auto d = dynamic_cast_not_null<std::unique_ptr<Derived>>(std::move(a));
    vf_check(right, "bad cast not detected");
    vf_check(d.get() == p && d->w == 3 && live == 1, "cast");
  } else {
    auto d = dynamic_cast_not_null<Derived*>(a.get());
    vf_check(right, "bad cast not detected");
    vf_check(d == p && d->w == 3, "cast");
  }
}

VF_HARNESS(find_or_die) {
  int const k0 = vf::i32("k0"), k1 = vf::i32("k1"), k2 = vf::i32("k2"), k = vf::i32("k");
  vf_assume(k0 != k1 && k0 != k2 && k1 != k2);
  std::map<int, int> m{{k0, 10}, {k1, 11}, {k2, 12}};
  bool const present = k == k0 || k == k1 || k == k2;
  if (!present) vf_abort_ok(1);
  int v;
  if (vf_choose(2, "const")) {
    auto const& cm = m;
    v = FindOrDie(cm, k);
  } else {
    v = FindOrDie(m, k);
  }
  vf_check(present, "missing key not detected");
  vf_check(v == (k == k0 ? 10 : k == k1 ? 11 : 12), "value");
}

VF_HARNESS(bounded_array) {
  BoundedArray<std::uint32_t, 4> a;
  int const n = vf_choose(5, "n");
  std::uint32_t v[4];
  vf_check(a.empty(), "empty");
  for (int i = 0; i < n; ++i) {
    v[i] = vf::u32("v");
    a.push_back(v[i]);
    vf_check(a.back() == v[i] && a.front() == v[0], "ends");
  }
  vf_check((int)a.size() == n && a.empty() == (n == 0), "size");
  int i = 0;
  for (auto const x : a) vf_check(x == v[i++], "element");
  vf_check(i == n, "iteration");
  auto const& ca = a;
  for (auto it = ca.rbegin(); it != ca.rend(); ++it) vf_check(*it == v[--i], "reverse");
  vf_check(i == 0, "reverse iteration");
  // Equality of byte arrays.
  std::uint8_t x[3], y[3];
  int const nx = vf_choose(4, "nx"), ny = vf_choose(4, "ny");
  bool same = nx == ny;
  for (int j = 0; j < nx; ++j) x[j] = vf::u8("x");
  for (int j = 0; j < ny; ++j) y[j] = vf::u8("y");
  for (int j = 0; j < nx && j < ny; ++j) same &= x[j] == y[j];
  Array<std::uint8_t> const ax(x, nx), ay(y, ny);
  vf_check((ax == ay) == same, "equality");
}

VF_HARNESS(fingerprint) {
  // Deterministic, never 0 or 1, depends only on the bytes.
  std::uint64_t const a = vf::u64("a"), b = vf::u64("b");
  std::uint64_t const f = FingerprintCat2011(a, b);
  vf_observe("f", f);
  vf_check(f != 0 && f != 1, "never 0 or 1");
  char s[12], t[12];
  int const n = vf_choose(11, "n");
  for (int i = 0; i < n; ++i) s[i] = t[i] = static_cast<char>(vf::u8("c"));
  vf_check(Fingerprint2011(s, n) == Fingerprint2011(t, n), "function of the bytes");
}
