#include "expr.h"

#include <algorithm>
#include <cmath>
#include <sstream>

namespace vf {

Ctx X;

static uint64_t hmix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}

const std::vector<uint32_t>* Ctx::Union(const std::vector<uint32_t>* a,
                                        const std::vector<uint32_t>* b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  uint64_t key = hmix((uint64_t)(uintptr_t)a, (uint64_t)(uintptr_t)b);
  auto it = unions_.find(key);
  if (it != unions_.end()) return it->second;
  std::vector<uint32_t> r;
  std::set_union(a->begin(), a->end(), b->begin(), b->end(),
                 std::back_inserter(r));
  auto& p = sets_[r];
  if (!p) p = std::make_unique<std::vector<uint32_t>>(r);
  return unions_[key] = p.get();
}

E Ctx::Mk(K k, unsigned w, bool real, uint32_t aux, E a, E b, E c, u128 v,
          const mpq_class* q) {
  uint64_t h = hmix((uint64_t)k * 1000003 + w * 31 + real, aux);
  h = hmix(h, a ? a->id + 1 : 0);
  h = hmix(h, b ? b->id + 1 : 0);
  h = hmix(h, c ? c->id + 1 : 0);
  h = hmix(h, (uint64_t)v);
  h = hmix(h, (uint64_t)(v >> 64));
  h = hmix(h, (uint64_t)(uintptr_t)q);
  auto& bucket = table_[h];
  for (Expr* e : bucket) {
    if (e->k == k && e->w == w && e->real == real && e->aux == aux &&
        e->a[0] == a && e->a[1] == b && e->a[2] == c && e->c == v && e->q == q)
      return e;
  }
  Expr* e = new Expr;
  e->k = k;
  e->w = w;
  e->real = real;
  e->aux = aux;
  e->a[0] = a;
  e->a[1] = b;
  e->a[2] = c;
  e->n = c ? 3 : b ? 2 : a ? 1 : 0;
  e->c = v;
  e->q = q;
  e->id = n_++;
  std::vector<uint32_t> empty;
  auto& pe = sets_[empty];
  if (!pe) pe = std::make_unique<std::vector<uint32_t>>();
  const std::vector<uint32_t>* vs = pe.get();
  for (int i = 0; i < e->n; ++i) vs = Union(vs, e->a[i]->vs);
  if (k == K::Var || k == K::RVar) {
    std::vector<uint32_t> one{aux};
    auto& p = sets_[one];
    if (!p) p = std::make_unique<std::vector<uint32_t>>(one);
    vs = p.get();
  }
  e->vs = vs;
  bucket.push_back(e);
  return e;
}

E Ctx::Const(u128 v, unsigned w) {
  return Mk(K::Const, w, false, 0, nullptr, nullptr, nullptr, v & MaskW(w));
}
E Ctx::Var(std::string const& name, unsigned w) {
  for (uint32_t i = 0; i < vars.size(); ++i)
    if (vars[i].name == name && vars[i].w == w && !vars[i].real)
      return vars[i].e;
  VarInfo vi;
  vi.name = name;
  vi.real = false;
  vi.w = w;
  vars.push_back(vi);
  return vars.back().e = Mk(K::Var, w, false, vars.size() - 1, nullptr, nullptr, nullptr);
}
E Ctx::RVar(std::string const& name, std::vector<uint32_t> const& extra) {
  for (uint32_t i = 0; i < vars.size(); ++i)
    if (vars[i].name == name && vars[i].real) return vars[i].e;
  VarInfo vi;
  vi.name = name;
  vi.real = true;
  vi.w = 64;
  vars.push_back(vi);
  E e = Mk(K::RVar, 64, true, vars.size() - 1, nullptr, nullptr, nullptr);
  if (!extra.empty()) {
    std::vector<uint32_t> s = extra;
    s.push_back(vars.size() - 1);
    std::sort(s.begin(), s.end());
    s.erase(std::unique(s.begin(), s.end()), s.end());
    auto& p = sets_[s];
    if (!p) p = std::make_unique<std::vector<uint32_t>>(s);
    const_cast<Expr*>(e)->vs = p.get();
  }
  vars.back().e = e;
  return e;
}
E Ctx::RConst(mpq_class const& q0) {
  mpq_class q = q0;
  q.canonicalize();
  std::string s = q.get_str(62);
  auto it = rconsts_.find(s);
  if (it != rconsts_.end()) return it->second;
  auto* p = new mpq_class(q);
  return rconsts_[s] = Mk(K::RConst, 64, true, 0, nullptr, nullptr, nullptr, 0, p);
}
E Ctx::RConstD(double d) { return RConst(mpq_class(d)); }

// ------------------------------------------------------------------- folding
static double AsD(u128 v) {
  uint64_t u = (uint64_t)v;
  double d;
  memcpy(&d, &u, 8);
  return d;
}
static u128 OfD(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
static float AsF(u128 v) {
  uint32_t u = (uint32_t)v;
  float d;
  memcpy(&d, &u, 4);
  return d;
}
static u128 OfF(float d) {
  uint32_t u;
  memcpy(&u, &d, 4);
  return u;
}

static u128 FoldBin(K k, unsigned w, u128 a, u128 b) {
  u128 m = MaskW(w);
  switch (k) {
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: return b == 0 ? m : a / b;
    case K::URem: return b == 0 ? a : a % b;
    case K::SDiv: {
      i128 x = SExtTo(a, w), y = SExtTo(b, w);
      if (y == 0) return x >= 0 ? m : 1;
      if (y == -1) return (u128)(0 - (u128)x) & m;
      return (u128)(x / y) & m;
    }
    case K::SRem: {
      i128 x = SExtTo(a, w), y = SExtTo(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case K::AShr: {
      i128 x = SExtTo(a, w);
      return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m;
    }
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return SExtTo(a, w) < SExtTo(b, w);
    case K::Sle: return SExtTo(a, w) <= SExtTo(b, w);
    default: abort();
  }
}

static u128 FoldF(K k, unsigned w, uint32_t aux, unsigned aw, u128 a, u128 b,
                  u128 c) {
  if (k == K::FCvt) {
    if (aw == 64 && w == 32) return OfF((float)AsD(a));
    if (aw == 32 && w == 64) return OfD((double)AsF(a));
    return a;
  }
  if (k == K::SIToF || k == K::UIToF) {
    if (k == K::SIToF) {
      i128 x = SExtTo(a, aw);
      return w == 64 ? OfD((double)x) : OfF((float)x);
    }
    return w == 64 ? OfD((double)a) : OfF((float)a);
  }
  if (k == K::FToSI || k == K::FToUI) {
    long double x = aw == 64 ? AsD(a) : AsF(a);
    if (std::isnan(x) || std::isinf(x)) return ((u128)1 << (w - 1));
    i128 t = (i128)std::trunc(x);
    return (u128)t & MaskW(w);
  }
#define FF(T, AS, OF)                                              \
  {                                                                \
    T x = AS(a), y = AS(b);                                        \
    switch (k) {                                                   \
      case K::FAdd: return OF(x + y);                              \
      case K::FSub: return OF(x - y);                              \
      case K::FMul: return OF(x * y);                              \
      case K::FDiv: return OF(x / y);                              \
      case K::FRem: return OF(std::fmod(x, y));                    \
      case K::FSqrt: return OF(std::sqrt(x));                      \
      case K::FFma: return OF(std::fma(x, y, (T)AS(c)));           \
      case K::FOeq: return x == y;                                 \
      case K::FOlt: return x < y;                                  \
      case K::FOle: return x <= y;                                 \
      case K::FUno: return std::isnan(x) || std::isnan(y);         \
      case K::FRound:                                              \
        switch (aux) {                                             \
          case 0: return OF(std::nearbyint(x));                    \
          case 1: return OF(std::floor(x));                        \
          case 2: return OF(std::ceil(x));                         \
          case 3: return OF(std::trunc(x));                        \
          default: return OF(std::round(x));                       \
        }                                                          \
      default: abort();                                            \
    }                                                              \
  }
  if (aw == 64) FF(double, AsD, OfD)
  FF(float, AsF, OfF)
}

u128 Ctx::umax(E e) {
  if (e->k == K::Const) return e->c;
  auto it = umax_.find(e);
  if (it != umax_.end()) return it->second;
  u128 r = MaskW(e->w);
  switch (e->k) {
    case K::ZExt: r = umax(e->a[0]); break;
    case K::And: r = std::min(umax(e->a[0]), umax(e->a[1])); break;
    case K::Or: case K::Xor: {
      u128 m = std::max(umax(e->a[0]), umax(e->a[1]));
      unsigned b = 0;
      while (b < 128 && (m >> b) != 0) ++b;
      r = MaskW(b) & r;
      if (b == 0) r = 0;
      break;
    }
    case K::LShr:
      if (e->a[1]->k == K::Const)
        r = e->a[1]->c >= e->w ? 0 : umax(e->a[0]) >> (unsigned)e->a[1]->c;
      else
        r = umax(e->a[0]);
      break;
    case K::Shl:
      if (e->a[1]->k == K::Const && e->a[1]->c < e->w) {
        u128 m = umax(e->a[0]);
        unsigned s = (unsigned)e->a[1]->c;
        if (m <= (r >> s)) r = m << s;
      }
      break;
    case K::Add: {
      u128 x = umax(e->a[0]), y = umax(e->a[1]);
      if (x <= r - y) r = x + y;
      break;
    }
    case K::Mul: {
      u128 x = umax(e->a[0]), y = umax(e->a[1]);
      if (x == 0 || y <= r / x) r = x * y;
      break;
    }
    case K::UDiv:
      if (e->a[1]->k == K::Const && e->a[1]->c != 0) r = umax(e->a[0]) / e->a[1]->c;
      break;
    case K::URem:
      if (e->a[1]->k == K::Const && e->a[1]->c != 0)
        r = std::min(umax(e->a[0]), e->a[1]->c - 1);
      break;
    case K::Ite: r = std::max(umax(e->a[1]), umax(e->a[2])); break;
    case K::Concat: {
      u128 h = umax(e->a[0]);
      r = (h << e->a[1]->w) | MaskW(e->a[1]->w);
      break;
    }
    case K::Extract:
      if (e->aux == 0) r = std::min(r, umax(e->a[0]));
      break;
    default: break;
  }
  umax_[e] = r;
  return r;
}

// If `a` is a sum of multiples of atoms, without overflow, splits it into
// c * q + r with r < c.
bool Ctx::DivRem(E a, u128 c, E& q, E& r) {
  unsigned const w = a->w;
  if (w > 64) return false;
  std::vector<std::pair<u128, E>> terms;
  u128 constant = 0;
  // The operations in `e` don't overflow in its own width, so they don't in w.
  std::function<bool(E, u128, int)> collect = [&](E e, u128 m, int depth) {
    if (terms.size() > 32 || depth > 100 || m > MaskW(64)) return false;
    switch (e->k) {
      case K::Const: constant += m * e->c; return true;
      case K::ZExt: return collect(e->a[0], m, depth + 1);
      case K::Add:
        if (umax(e->a[0]) + umax(e->a[1]) <= MaskW(e->w))
          return collect(e->a[0], m, depth + 1) && collect(e->a[1], m, depth + 1);
        break;
      case K::Mul:
        if (e->a[1]->k == K::Const && e->a[1]->c != 0 &&
            umax(e->a[0]) <= MaskW(e->w) / e->a[1]->c)
          return collect(e->a[0], m * e->a[1]->c, depth + 1);
        break;
      case K::Concat:
        if (e->a[1]->k == K::Const && e->a[1]->c == 0)
          return collect(e->a[0], m << e->a[1]->w, depth + 1);
        break;
      default: break;
    }
    terms.emplace_back(m, e);
    return true;
  };
  if (a->k != K::Add && a->k != K::Mul && a->k != K::Concat && a->k != K::ZExt)
    return false;
  if (!collect(a, 1, 0)) return false;
  if (constant > MaskW(w)) return false;
  u128 max = constant % c;
  for (auto const& [m, e] : terms) {
    if (m > MaskW(w)) return false;
    if (m % c != 0 && umax(e) > (c - 1 - max) / (m % c)) return false;
    max += (m % c) * umax(e);
  }
  bool split = constant >= c;
  for (auto const& [m, e] : terms) split |= m >= c;
  if (!split) return false;
  q = Const(constant / c, w);
  r = Const(constant % c, w);
  for (auto const& [m, e] : terms) {
    if (m / c) q = Bin(K::Add, q, Bin(K::Mul, ZExt(e, w), Const(m / c, w)));
    if (m % c) r = Bin(K::Add, r, Bin(K::Mul, ZExt(e, w), Const(m % c, w)));
  }
  return true;
}

E Ctx::Bin(K k, E a, E b) {
  unsigned w = a->w;
  bool cmp = k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle;
  if (a->k == K::Const && b->k == K::Const)
    return Const(FoldBin(k, w, a->c, b->c), cmp ? 1 : w);
  u128 ones = MaskW(w);
  // Constants to the right for commutative operators.
  if (k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor) {
    if (a->k == K::Const) std::swap(a, b);
    else if (b->k != K::Const && a->id > b->id) std::swap(a, b);
  }
  bool bc = b->k == K::Const;
  u128 c = b->c;
  switch (k) {
    case K::Add:
      if (w == 1) return Bin(K::Xor, a, b);
      if (bc) {
        if (c == 0) return a;
        if (a->k == K::Add && a->a[1]->k == K::Const)
          return Bin(K::Add, a->a[0], Const(a->a[1]->c + c, w));
      } else {
        // Float constants outwards.
        if (a->k == K::Add && a->a[1]->k == K::Const)
          return Bin(K::Add, Bin(K::Add, a->a[0], b), a->a[1]);
        if (b->k == K::Add && b->a[1]->k == K::Const)
          return Bin(K::Add, Bin(K::Add, a, b->a[0]), b->a[1]);
        if (a->k == K::Sub && a->a[1] == b) return a->a[0];
        if (b->k == K::Sub && b->a[1] == a) return b->a[0];
      }
      break;
    case K::Sub:
      if (w == 1) return Bin(K::Xor, a, b);
      if (a == b) return Const(0, w);
      if (bc) return Bin(K::Add, a, Const((u128)0 - c, w));
      if (a->k == K::Add && a->a[1]->k == K::Const) {
        if (b->k == K::Add && b->a[1]->k == K::Const)
          return Bin(K::Add, Bin(K::Sub, a->a[0], b->a[0]),
                     Const(a->a[1]->c - b->a[1]->c, w));
        return Bin(K::Add, Bin(K::Sub, a->a[0], b), a->a[1]);
      }
      if (b->k == K::Add && b->a[1]->k == K::Const)
        return Bin(K::Add, Bin(K::Sub, a, b->a[0]), Const((u128)0 - b->a[1]->c, w));
      if (a->k == K::Add && a->a[0] == b) return a->a[1];
      if (a->k == K::Add && a->a[1] == b) return a->a[0];
      break;
    case K::Mul:
      if (w == 1) return Bin(K::And, a, b);
      if (bc) {
        if (c == 0) return b;
        if (c == 1) return a;
        if ((c & (c - 1)) == 0) {
          unsigned s = 0;
          while (((u128)1 << s) != c) ++s;
          return Bin(K::Shl, a, Const(s, w));
        }
        if (a->k == K::Mul && a->a[1]->k == K::Const)
          return Bin(K::Mul, a->a[0], Const(a->a[1]->c * c, w));
      }
      break;
    case K::UDiv:
      if (bc && c == 1) return a;
      if (bc && c && (c & (c - 1)) == 0) {
        unsigned s = 0;
        while (((u128)1 << s) != c) ++s;
        return Bin(K::LShr, a, Const(s, w));
      }
      if (bc && c && umax(a) < c) return Const(0, w);
      if (bc && c) {
        if (E q, r; DivRem(a, c, q, r)) return q;
        if (a->k == K::ZExt && c <= MaskW(a->a[0]->w))
          return ZExt(Bin(K::UDiv, a->a[0], Const(c, a->a[0]->w)), w);
      }
      break;
    case K::URem:
      if (bc && c && (c & (c - 1)) == 0) return Bin(K::And, a, Const(c - 1, w));
      if (bc && c && umax(a) < c) return a;
      if (bc && c) {
        if (E q, r; DivRem(a, c, q, r)) return r;
        if (a->k == K::ZExt && c <= MaskW(a->a[0]->w))
          return ZExt(Bin(K::URem, a->a[0], Const(c, a->a[0]->w)), w);
      }
      break;
    case K::SDiv:
      if (bc && c == 1) return a;
      if (bc && SExtTo(c, w) > 0 && umax(a) < ((u128)1 << (w - 1)))
        return Bin(K::UDiv, a, b);
      break;
    case K::SRem:
      if (bc && SExtTo(c, w) > 0 && umax(a) < ((u128)1 << (w - 1)))
        return Bin(K::URem, a, b);
      break;
    case K::And:
      if (a == b) return a;
      if (bc) {
        if (c == 0) return b;
        if (c == ones) return a;
        // Low-bit mask: zext(extract).
        u128 c1 = c + 1;
        if ((c & c1) == 0) {
          unsigned s = 0;
          while (((u128)1 << s) != c1) ++s;
          if (umax(a) <= c) return a;
          return ZExt(Extract(a, 0, s), w);
        }
        if (a->k == K::And && a->a[1]->k == K::Const)
          return Bin(K::And, a->a[0], Const(a->a[1]->c & c, w));
        if (a->k == K::ZExt) {
          unsigned iw = a->a[0]->w;
          return ZExt(Bin(K::And, a->a[0], Const(c & MaskW(iw), iw)), w);
        }
        if (a->k == K::Concat) {
          unsigned lw = a->a[1]->w;
          return Concat(Bin(K::And, a->a[0], Const(c >> lw, a->a[0]->w)),
                        Bin(K::And, a->a[1], Const(c & MaskW(lw), lw)));
        }
      }
      if (w == 1 && (a == Not(b))) return False();
      break;
    case K::Or:
      if (a == b) return a;
      if (bc) {
        if (c == 0) return a;
        if (c == ones) return b;
        if (a->k == K::Concat) {
          unsigned lw = a->a[1]->w;
          return Concat(Bin(K::Or, a->a[0], Const(c >> lw, a->a[0]->w)),
                        Bin(K::Or, a->a[1], Const(c & MaskW(lw), lw)));
        }
      } else {
        // Disjoint concatenations: (x . 0) | zext(y).
        E x = a, y = b;
        for (int s = 0; s < 2; ++s, std::swap(x, y)) {
          if (x->k == K::Concat && x->a[1]->k == K::Const && x->a[1]->c == 0) {
            unsigned lw = x->a[1]->w;
            if (umax(y) <= MaskW(lw))
              return Concat(x->a[0], Extract(y, 0, lw));
          }
          if (x->k == K::Concat && y->k == K::Concat &&
              x->a[1]->w == y->a[1]->w)
            return Concat(Bin(K::Or, x->a[0], y->a[0]),
                          Bin(K::Or, x->a[1], y->a[1]));
        }
      }
      if (w == 1 && a == Not(b)) return True();
      break;
    case K::Xor:
      if (a == b) return Const(0, w);
      if (bc) {
        if (c == 0) return a;
        if (a->k == K::Xor && a->a[1]->k == K::Const)
          return Bin(K::Xor, a->a[0], Const(a->a[1]->c ^ c, w));
        if (a->k == K::Concat) {
          unsigned lw = a->a[1]->w;
          return Concat(Bin(K::Xor, a->a[0], Const(c >> lw, a->a[0]->w)),
                        Bin(K::Xor, a->a[1], Const(c & MaskW(lw), lw)));
        }
        if (w == 1 && a->k == K::Ite)
          return Ite(a->a[0], Not(a->a[1]), Not(a->a[2]));
      }
      break;
    case K::Shl:
      if (bc) {
        if (c == 0) return a;
        if (c >= w) return Const(0, w);
        return Concat(Extract(a, 0, w - (unsigned)c), Const(0, (unsigned)c));
      }
      if (a->k == K::Const && a->c == 0) return a;
      break;
    case K::LShr:
      if (bc) {
        if (c == 0) return a;
        if (c >= w) return Const(0, w);
        return ZExt(Extract(a, (unsigned)c, w - (unsigned)c), w);
      }
      if (a->k == K::Const && a->c == 0) return a;
      break;
    case K::AShr:
      if (bc) {
        if (c == 0) return a;
        unsigned s = c >= w ? w - 1 : (unsigned)c;
        return SExt(Extract(a, s, w - s), w);
      }
      break;
    default: break;
  }
  return Mk(k, cmp ? 1 : w, false, 0, a, b, nullptr);
}

E Ctx::Not(E a) {
  if (a->k == K::Const) return Const(~a->c, a->w);
  return Bin(K::Xor, a, Const(MaskW(a->w), a->w));
}

E Ctx::Eq(E a, E b) {
  if (a == b) return True();
  if (a->k == K::Const && b->k == K::Const) return Const(a->c == b->c, 1);
  if (a->k == K::Const || (b->k != K::Const && a->id > b->id)) std::swap(a, b);
  unsigned w = a->w;
  if (w == 1) {
    if (b->k == K::Const) return b->c ? a : Not(a);
    return Not(Bin(K::Xor, a, b));
  }
  if (b->k == K::Const) {
    u128 c = b->c;
    if (c > umax(a)) return False();
    switch (a->k) {
      case K::ZExt: return Eq(a->a[0], Const(c, a->a[0]->w));
      case K::SExt: {
        unsigned iw = a->a[0]->w;
        u128 low = c & MaskW(iw);
        if (((u128)SExtTo(low, iw) & MaskW(w)) != c) return False();
        return Eq(a->a[0], Const(low, iw));
      }
      case K::Add:
        if (a->a[1]->k == K::Const) return Eq(a->a[0], Const(c - a->a[1]->c, w));
        break;
      case K::Sub:
        if (c == 0) return Eq(a->a[0], a->a[1]);
        break;
      case K::Xor:
        if (a->a[1]->k == K::Const) return Eq(a->a[0], Const(c ^ a->a[1]->c, w));
        if (c == 0) return Eq(a->a[0], a->a[1]);
        break;
      case K::Concat: {
        unsigned lw = a->a[1]->w;
        return AndB(Eq(a->a[0], Const(c >> lw, a->a[0]->w)),
                    Eq(a->a[1], Const(c & MaskW(lw), lw)));
      }
      case K::Ite:
        if (a->a[1]->k == K::Const || a->a[2]->k == K::Const)
          return Ite(a->a[0], Eq(a->a[1], b), Eq(a->a[2], b));
        break;
      default: break;
    }
  } else {
    if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w)
      return Eq(a->a[0], b->a[0]);
    if (a->k == K::Concat && b->k == K::Concat && a->a[1]->w == b->a[1]->w)
      return AndB(Eq(a->a[0], b->a[0]), Eq(a->a[1], b->a[1]));
  }
  return Mk(K::Eq, 1, false, 0, a, b, nullptr);
}
E Ctx::Ult(E a, E b) {
  if (a == b) return False();
  if (a->k == K::Const && b->k == K::Const) return Const(a->c < b->c, 1);
  if (b->k == K::Const) {
    if (b->c == 0) return False();
    if (umax(a) < b->c) return True();
    if (b->c == 1) return Eq(a, Const(0, a->w));
    if (a->k == K::ZExt)
      return Ult(a->a[0], Const(b->c, a->a[0]->w));  // c <= umax fits
  }
  if (a->k == K::Const) {
    if (a->c >= umax(b)) return False();
    if (a->c == 0) return Not(Eq(b, a));
    if (b->k == K::ZExt) return Ult(Const(a->c, b->a[0]->w), b->a[0]);
  }
  if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w)
    return Ult(a->a[0], b->a[0]);
  if (a->w == 1) return AndB(Not(a), b);
  return Mk(K::Ult, 1, false, 0, a, b, nullptr);
}
E Ctx::Ule(E a, E b) { return Not(Ult(b, a)); }
E Ctx::Slt(E a, E b) {
  if (a == b) return False();
  unsigned w = a->w;
  if (a->k == K::Const && b->k == K::Const)
    return Const(SExtTo(a->c, w) < SExtTo(b->c, w), 1);
  u128 half = (u128)1 << (w - 1);
  bool an = umax(a) < half, bn = umax(b) < half;
  if (an && bn) return Ult(a, b);
  if (an && b->k == K::Const) return False();  // b is negative
  if (bn && a->k == K::Const) return True();
  if (b->k == K::Const && b->c == 0) return Extract(a, w - 1, 1);
  if (a->k == K::Const && a->c == MaskW(w)) return Not(Extract(b, w - 1, 1));
  if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w)
    return Slt(a->a[0], b->a[0]);
  if (a->k == K::SExt && b->k == K::Const) {
    unsigned iw = a->a[0]->w;
    i128 c = SExtTo(b->c, w);
    i128 mx = ((i128)1 << (iw - 1)) - 1, mn = -((i128)1 << (iw - 1));
    if (c > mx) return True();
    if (c <= mn) return False();
    return Slt(a->a[0], Const((u128)c, iw));
  }
  if (b->k == K::SExt && a->k == K::Const) {
    unsigned iw = b->a[0]->w;
    i128 c = SExtTo(a->c, w);
    i128 mx = ((i128)1 << (iw - 1)) - 1, mn = -((i128)1 << (iw - 1));
    if (c >= mx) return False();
    if (c < mn) return True();
    return Slt(Const((u128)c, iw), b->a[0]);
  }
  return Mk(K::Slt, 1, false, 0, a, b, nullptr);
}
E Ctx::Sle(E a, E b) { return Not(Slt(b, a)); }

E Ctx::Concat(E hi, E lo) {
  if (hi->k == K::Const && lo->k == K::Const)
    return Const((hi->c << lo->w) | lo->c, hi->w + lo->w);
  if (hi->k == K::Extract && lo->k == K::Extract && hi->a[0] == lo->a[0] &&
      hi->aux == lo->aux + lo->w)
    return Extract(hi->a[0], lo->aux, hi->w + lo->w);
  if (hi->k == K::Const && hi->c == 0) return ZExt(lo, hi->w + lo->w);
  if (lo->k == K::Concat) {
    // Right-nested: merge (hi . (x . y)) when hi.x merges.
    E x = lo->a[0];
    if ((hi->k == K::Extract && x->k == K::Extract && hi->a[0] == x->a[0] &&
         hi->aux == x->aux + x->w) ||
        (hi->k == K::Const && x->k == K::Const))
      return Concat(Concat(hi, x), lo->a[1]);
  }
  if (hi->k == K::Concat) return Concat(hi->a[0], Concat(hi->a[1], lo));
  if (hi->k == K::ZExt)
    return ZExt(Concat(hi->a[0], lo), hi->w + lo->w);
  return Mk(K::Concat, hi->w + lo->w, false, 0, hi, lo, nullptr);
}

E Ctx::Extract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (a->k == K::Const) return Const(a->c >> off, w);
  switch (a->k) {
    case K::Extract: return Extract(a->a[0], a->aux + off, w);
    case K::Concat: {
      unsigned lw = a->a[1]->w;
      if (off >= lw) return Extract(a->a[0], off - lw, w);
      if (off + w <= lw) return Extract(a->a[1], off, w);
      return Concat(Extract(a->a[0], 0, off + w - lw),
                    Extract(a->a[1], off, lw - off));
    }
    case K::ZExt: {
      unsigned iw = a->a[0]->w;
      if (off >= iw) return Const(0, w);
      if (off + w <= iw) return Extract(a->a[0], off, w);
      return ZExt(Extract(a->a[0], off, iw - off), w);
    }
    case K::SExt: {
      unsigned iw = a->a[0]->w;
      if (off + w <= iw) return Extract(a->a[0], off, w);
      if (off < iw) return SExt(Extract(a->a[0], off, iw - off), w);
      return SExt(Extract(a->a[0], iw - 1, 1), w);
    }
    case K::And: case K::Or: case K::Xor:
      return Bin(a->k, Extract(a->a[0], off, w), Extract(a->a[1], off, w));
    case K::Ite:
      if (a->a[1]->k == K::Const || a->a[2]->k == K::Const)
        return Ite(a->a[0], Extract(a->a[1], off, w), Extract(a->a[2], off, w));
      break;
    case K::Add: case K::Sub: case K::Mul:
      if (off == 0)
        return Bin(a->k, Extract(a->a[0], 0, w), Extract(a->a[1], 0, w));
      break;
    default: break;
  }
  return Mk(K::Extract, w, false, off, a, nullptr, nullptr);
}
E Ctx::ZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->k == K::Const) return Const(a->c, w);
  if (a->k == K::ZExt) return ZExt(a->a[0], w);
  if (a->k == K::Add && a->a[1]->k == K::Const &&
      umax(a->a[0]) <= MaskW(a->w) - a->a[1]->c)
    return Bin(K::Add, ZExt(a->a[0], w), Const(a->a[1]->c, w));
  // Same thing for a disjoint or.
  if (a->k == K::Or && a->a[1]->k == K::Const && umax(a->a[0]) < (a->a[1]->c & -a->a[1]->c))
    return Bin(K::Add, ZExt(a->a[0], w), Const(a->a[1]->c, w));
  return Mk(K::ZExt, w, false, 0, a, nullptr, nullptr);
}
E Ctx::SExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->k == K::Const) return Const((u128)SExtTo(a->c, a->w), w);
  if (a->k == K::SExt) return SExt(a->a[0], w);
  if (a->w > 1 && umax(a) < ((u128)1 << (a->w - 1))) return ZExt(a, w);
  return Mk(K::SExt, w, false, 0, a, nullptr, nullptr);
}
E Ctx::Ite(E c, E a, E b) {
  if (c->k == K::Const) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K::Xor && c->a[1]->k == K::Const) return Ite(c->a[0], b, a);
  if (a->k == K::Ite && a->a[0] == c) a = a->a[1];
  if (b->k == K::Ite && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  if (a->w == 1) {
    if (a->k == K::Const && b->k == K::Const) return a->c ? c : Not(c);
    if (a->k == K::Const) return a->c ? OrB(c, b) : AndB(Not(c), b);
    if (b->k == K::Const) return b->c ? OrB(Not(c), a) : AndB(c, a);
  }
  return Mk(K::Ite, a->w, false, 0, c, a, b);
}
E Ctx::FOp(K k, unsigned w, E a, E b, E c, uint32_t aux) {
  bool con = a->k == K::Const && (!b || b->k == K::Const) && (!c || c->k == K::Const);
  if (con)
    return Const(FoldF(k, w, aux, a->w, a->c, b ? b->c : 0, c ? c->c : 0), w);
  if ((k == K::FAdd || k == K::FMul || k == K::FOeq) && a->id > b->id) std::swap(a, b);
  return Mk(k, w, false, aux, a, b, c);
}
E Ctx::UF(std::string const& name, unsigned w, E a, E b, E c) {
  uint32_t i = 0;
  for (; i < ufs.size() && ufs[i] != name; ++i) {}
  if (i == ufs.size()) ufs.push_back(name);
  return Mk(K::UF, w, false, i, a, b, c);
}

E Ctx::FromBV(E a, bool sgn) {
  if (a->k == K::Const) {
    mpz_class z;
    i128 v = sgn ? SExtTo(a->c, a->w) : (i128)a->c;
    bool neg = v < 0;
    u128 u = neg ? (u128)0 - (u128)v : (u128)v;
    z = (unsigned long)(u >> 64);
    z <<= 64;
    z += (unsigned long)(uint64_t)u;
    if (neg) z = -z;
    return RConst(mpq_class(z));
  }
  std::string name = std::string(sgn ? "!s2r" : "!u2r") + std::to_string(a->id);
  E e = RVar(name, *a->vs);
  VarInfo& vi = vars[e->aux];
  vi.special = VarInfo::FromBV;
  vi.arg = a;
  vi.arg_signed = sgn;
  return e;
}

// --------------------------------------------------------------------- reals
E Ctx::RAdd(E a, E b) {
  if (a->k == K::RConst && b->k == K::RConst) return RConst(*a->q + *b->q);
  if (a->k == K::RConst) std::swap(a, b);
  if (b->k == K::RConst && *b->q == 0) return a;
  if (b->k != K::RConst && a->id > b->id) std::swap(a, b);
  return Mk(K::RAdd, 64, true, 0, a, b, nullptr);
}
E Ctx::RNeg(E a) { return RMul(a, RConst(-1)); }
E Ctx::RSub(E a, E b) {
  if (a == b) return RConst(0);
  return RAdd(a, RNeg(b));
}
E Ctx::RMul(E a, E b) {
  if (a->k == K::RConst && b->k == K::RConst) return RConst(*a->q * *b->q);
  if (a->k == K::RConst) std::swap(a, b);
  if (b->k == K::RConst) {
    if (*b->q == 0) return b;
    if (*b->q == 1) return a;
    if (a->k == K::RMul && a->a[1]->k == K::RConst)
      return RMul(a->a[0], RConst(*a->a[1]->q * *b->q));
  } else if (a->id > b->id) {
    std::swap(a, b);
  }
  return Mk(K::RMul, 64, true, 0, a, b, nullptr);
}
E Ctx::RDiv(E a, E b) {
  if (b->k == K::RConst && *b->q != 0) return RMul(a, RConst(1 / *b->q));
  return Mk(K::RDiv, 64, true, 0, a, b, nullptr);
}

// Comparisons with zero.  The normal form is used so that equivalent
// conditions get the same node.
static E CanonNum(E a, bool need_sign, bool* ok) {
  // Returns an expression equal in sign (need_sign) or zeroness to a.
  const RF* f = P.nf(a);
  *ok = false;
  if (f == nullptr) return a;
  *ok = true;
  if (f->num.isconst() && f->den.empty()) return X.RConst(f->num.cst());
  Poly n = f->num;
  if (need_sign) {
    for (auto const& [d, e] : f->den) {
      if (e % 2) {
        Poly r;
        if (!P.mul(n, P.polys[d], r)) {
          *ok = false;
          return a;
        }
        n = r;
      }
    }
  }
  // Scale to monic in absolute value.
  MonoId l = P.lead(n);
  mpq_class lc;
  for (auto const& [m, c] : n.t) if (m == l) lc = c;
  if (!need_sign || lc > 0) n = P.scale(n, 1 / lc);
  else n = P.scale(n, -1 / lc);
  return P.ToExpr(n);
}
E Ctx::REq0(E a) {
  if (a->k == K::RConst) return Const(*a->q == 0, 1);
  bool ok;
  E c = CanonNum(a, false, &ok);
  if (c->k == K::RConst) return Const(*c->q == 0, 1);
  return Mk(K::REq0, 1, false, 0, c, nullptr, nullptr);
}
E Ctx::RLt0(E a) {
  if (a->k == K::RConst) return Const(*a->q < 0, 1);
  bool ok;
  E c = CanonNum(a, true, &ok);
  if (c->k == K::RConst) return Const(*c->q < 0, 1);
  return Mk(K::RLt0, 1, false, 0, c, nullptr, nullptr);
}
E Ctx::RLe0(E a) {
  // a <= 0  iff  not (-a < 0)
  return Not(RLt0(RNeg(a)));
}

// ------------------------------------------------------------------ evaluate
u128 Ctx::Eval(E e, Model const& m) {
  if (e->k == K::Const) return e->c;
  if (evstamp_.size() < n_) {
    evstamp_.resize(n_ + 1024, 0);
    evval_.resize(n_ + 1024);
    evvalr_.resize(n_ + 1024);
  }
  if (evstamp_[e->id] == evgen) return evval_[e->id];
  u128 r = 0;
  switch (e->k) {
    case K::Var:
      r = e->aux < m.bv.size() ? m.bv[e->aux] & MaskW(e->w) : 0;
      break;
    case K::Ite: r = Eval(e->a[0], m) ? Eval(e->a[1], m) : Eval(e->a[2], m); break;
    case K::Concat: r = (Eval(e->a[0], m) << e->a[1]->w) | Eval(e->a[1], m); break;
    case K::Extract: r = (Eval(e->a[0], m) >> e->aux) & MaskW(e->w); break;
    case K::ZExt: r = Eval(e->a[0], m); break;
    case K::SExt: r = (u128)SExtTo(Eval(e->a[0], m), e->a[0]->w) & MaskW(e->w); break;
    case K::UF: r = 0; break;
    case K::REq0: { double d = EvalR(e->a[0], m); r = std::abs(d) < 1e-12; break; }
    case K::RLt0: { double d = EvalR(e->a[0], m); r = d < 0; break; }
    case K::RLe0: { double d = EvalR(e->a[0], m); r = d <= 0; break; }
    default:
      if (e->k >= K::FAdd && e->k <= K::FRound)
        r = FoldF(e->k, e->w, e->aux, e->a[0]->w, Eval(e->a[0], m),
                  e->n > 1 ? Eval(e->a[1], m) : 0,
                  e->n > 2 ? Eval(e->a[2], m) : 0);
      else
        r = FoldBin(e->k, e->a[0]->w, Eval(e->a[0], m), Eval(e->a[1], m));
  }
  evstamp_[e->id] = evgen;
  evval_[e->id] = r;
  return r;
}

double Ctx::EvalR(E e, Model const& m) {
  if (e->k == K::RConst) return e->q->get_d();
  if (!e->real) { abort(); }
  if (evstamp_.size() < n_) {
    evstamp_.resize(n_ + 1024, 0);
    evval_.resize(n_ + 1024);
    evvalr_.resize(n_ + 1024);
  }
  if (evstamp_[e->id] == evgen) return evvalr_[e->id];
  double r = 0;
  switch (e->k) {
    case K::RVar: {
      VarInfo const& v = vars[e->aux];
      if (v.special == VarInfo::Root) {
        double a = EvalR(v.arg, m);
        r = v.n == 2 ? std::sqrt(std::max(a, 0.0)) : std::cbrt(a);
      } else if (v.special == VarInfo::Cos) {
        r = std::cos(EvalR(v.arg, m));
      } else if (v.special == VarInfo::Sin) {
        r = std::sin(EvalR(v.arg, m));
      } else if (v.special == VarInfo::FromBV) {
        u128 x = Eval(v.arg, m);
        r = v.arg_signed ? (double)SExtTo(x, v.arg->w) : (double)x;
      } else if (v.special == VarInfo::Atan2) {
        r = std::atan2(EvalR(v.arg, m), EvalR(v.arg2, m));
      } else if (v.special == VarInfo::Fn) {
        double a = EvalR(v.arg, m);
        double b = v.arg2 ? EvalR(v.arg2, m) : 0;
        r = v.fn == "exp"    ? std::exp(a)
            : v.fn == "log"  ? std::log(a)
            : v.fn == "sinh" ? std::sinh(a)
            : v.fn == "cosh" ? std::cosh(a)
            : v.fn == "tanh" ? std::tanh(a)
            : v.fn == "asinh" ? std::asinh(a)
            : v.fn == "acosh" ? std::acosh(a)
            : v.fn == "atanh" ? std::atanh(a)
            : v.fn == "pow"  ? std::pow(a, b)
            : v.fn == "log2" ? std::log2(a)
            : v.fn == "log10" ? std::log10(a)
            : v.fn == "exp2" ? std::exp2(a)
            : v.fn == "cbrt" ? std::cbrt(a)
                             : 0;
      } else {
        r = e->aux < m.re.size() ? m.re[e->aux] : 0;
      }
      break;
    }
    case K::RAdd: r = EvalR(e->a[0], m) + EvalR(e->a[1], m); break;
    case K::RMul: r = EvalR(e->a[0], m) * EvalR(e->a[1], m); break;
    case K::RDiv: r = EvalR(e->a[0], m) / EvalR(e->a[1], m); break;
    default: abort();
  }
  evstamp_[e->id] = evgen;
  evvalr_[e->id] = r;
  return r;
}

E Ctx::Rebuild(E e, std::vector<E> const& k) {
  switch (e->k) {
    case K::Const: case K::Var: case K::RConst: case K::RVar: return e;
    case K::Concat: return Concat(k[0], k[1]);
    case K::Extract: return Extract(k[0], e->aux, e->w);
    case K::ZExt: return ZExt(k[0], e->w);
    case K::SExt: return SExt(k[0], e->w);
    case K::Ite: return Ite(k[0], k[1], k[2]);
    case K::Eq: return Eq(k[0], k[1]);
    case K::Ult: return Ult(k[0], k[1]);
    case K::Ule: return Ule(k[0], k[1]);
    case K::Slt: return Slt(k[0], k[1]);
    case K::Sle: return Sle(k[0], k[1]);
    case K::UF:
      return Mk(K::UF, e->w, false, e->aux, k[0], k.size() > 1 ? k[1] : nullptr,
                k.size() > 2 ? k[2] : nullptr);
    case K::RAdd: return RAdd(k[0], k[1]);
    case K::RMul: return RMul(k[0], k[1]);
    case K::RDiv: return RDiv(k[0], k[1]);
    case K::REq0: return REq0(k[0]);
    case K::RLt0: return RLt0(k[0]);
    case K::RLe0: return RLe0(k[0]);
    default:
      if (e->k >= K::FAdd && e->k <= K::FRound)
        return FOp(e->k, e->w, k[0], k.size() > 1 ? k[1] : nullptr,
                   k.size() > 2 ? k[2] : nullptr, e->aux);
      return Bin(e->k, k[0], k[1]);
  }
}

std::string Ctx::Str(E e, int depth) {
  static const char* names[] = {
      "Const", "Var", "Add", "Sub", "Mul", "UDiv", "SDiv", "URem", "SRem",
      "And", "Or", "Xor", "Shl", "LShr", "AShr", "Concat", "Extract", "ZExt",
      "SExt", "Ite", "Eq", "Ult", "Ule", "Slt", "Sle", "FAdd", "FSub", "FMul",
      "FDiv", "FRem", "FSqrt", "FFma", "FOeq", "FOlt", "FOle", "FUno", "FToSI",
      "FToUI", "SIToF", "UIToF", "FCvt", "FRound", "UF", "RConst", "RVar",
      "RAdd", "RMul", "RDiv", "REq0", "RLt0", "RLe0"};
  std::ostringstream o;
  if (e->k == K::Const) {
    o << "0x" << std::hex << (uint64_t)e->c << ":" << std::dec << e->w;
    return o.str();
  }
  if (e->k == K::RConst) return std::to_string(e->q->get_d());
  if (e->k == K::Var || e->k == K::RVar) return vars[e->aux].name;
  if (depth == 0) return "...";
  o << "(" << names[(int)e->k];
  if (e->k == K::Extract) o << "[" << e->aux << "+" << e->w << "]";
  if (e->k == K::ZExt || e->k == K::SExt) o << e->w;
  for (int i = 0; i < e->n; ++i) o << " " << Str(e->a[i], depth - 1);
  o << ")";
  return o.str();
}

}  // namespace vf
