#include <algorithm>
#include <cmath>
#include <sstream>

#include "expr.h"

namespace vf {

PolyCtx P;

PolyCtx::PolyCtx() {
  monos.push_back(Mono{});
  index[{}] = 0;
}

MonoId PolyCtx::mono(Mono const& m) {
  auto it = index.find(m.v);
  if (it != index.end()) return it->second;
  MonoId id = monos.size();
  monos.push_back(m);
  uint32_t d = 0;
  for (auto& [v, e] : monos.back().v) d += e;
  monos.back().deg = d;
  index[m.v] = id;
  return id;
}

MonoId PolyCtx::mul(MonoId a, MonoId b) {
  if (a == 0) return b;
  if (b == 0) return a;
  if (a > b) std::swap(a, b);
  uint64_t key = ((uint64_t)a << 32) | b;
  auto it = mulcache.find(key);
  if (it != mulcache.end()) return it->second;
  Mono r;
  auto const& x = monos[a].v;
  auto const& y = monos[b].v;
  size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first))
      r.v.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first)
      r.v.push_back(y[j++]);
    else {
      r.v.push_back({x[i].first, x[i].second + y[j].second});
      ++i;
      ++j;
    }
  }
  return mulcache[key] = mono(r);
}

Poly PolyCtx::cst(mpq_class const& q) {
  Poly p;
  if (q != 0) p.t.push_back({0, q});
  return p;
}
Poly PolyCtx::var(uint32_t v) {
  Poly p;
  Mono m;
  m.v.push_back({v, 1});
  p.t.push_back({mono(m), 1});
  return p;
}
Poly PolyCtx::add(Poly const& a, Poly const& b, mpq_class const& kb) {
  Poly r;
  r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first))
      r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].first < a.t[i].first) {
      r.t.push_back({b.t[j].first, b.t[j].second * kb});
      ++j;
    } else {
      mpq_class s = a.t[i].second + b.t[j].second * kb;
      if (s != 0) r.t.push_back({a.t[i].first, s});
      ++i;
      ++j;
    }
  }
  if (kb == 0) return a;
  return r;
}
Poly PolyCtx::scale(Poly const& a, mpq_class const& k) {
  Poly r;
  if (k == 0) return r;
  r = a;
  for (auto& t : r.t) t.second *= k;
  return r;
}

const Poly* PolyCtx::reduce(MonoId m) {
  auto it = red.find(m);
  if (it != red.end()) return it->second.get();
  Mono mm = monos[m];
  for (size_t i = mm.v.size(); i-- > 0;) {
    auto r = rules.find(mm.v[i].first);
    if (r == rules.end() || mm.v[i].second < r->second.first) continue;
    // m = rest * v^(e-n) * v^n
    Mono rest = mm;
    rest.v[i].second -= r->second.first;
    if (rest.v[i].second == 0) rest.v.erase(rest.v.begin() + i);
    MonoId rid = mono(rest);
    Poly one;
    one.t.push_back({rid, 1});
    auto res = std::make_unique<Poly>();
    if (!mul(one, r->second.second, *res)) res->t.clear();
    auto* p = res.get();
    red[m] = std::move(res);
    return p;
  }
  red[m] = nullptr;
  return nullptr;
}

bool PolyCtx::mul(Poly const& a, Poly const& b, Poly& out) {
  if (a.zero() || b.zero()) {
    out.t.clear();
    return true;
  }
  if (b.isconst()) {
    out = scale(a, b.cst());
    return true;
  }
  if (a.isconst()) {
    out = scale(b, a.cst());
    return true;
  }
  if (a.t.size() * b.t.size() > limit * 40) return false;
  std::unordered_map<MonoId, mpq_class> acc;
  acc.reserve(a.t.size() * b.t.size());
  for (auto const& x : a.t) {
    for (auto const& y : b.t) {
      MonoId m = mul(x.first, y.first);
      mpq_class c = x.second * y.second;
      const Poly* r = rules.empty() ? nullptr : reduce(m);
      if (r == nullptr) acc[m] += c;
      else
        for (auto const& z : r->t) acc[z.first] += c * z.second;
    }
    if (acc.size() > limit) return false;
  }
  Poly p;
  for (auto& [m, c] : acc)
    if (c != 0) p.t.push_back({m, c});
  std::sort(p.t.begin(), p.t.end(),
            [](auto const& l, auto const& r) { return l.first < r.first; });
  out = std::move(p);
  return true;
}

bool PolyCtx::less(MonoId a, MonoId b) {
  if (a == b) return false;
  if (monos[a].deg != monos[b].deg) return monos[a].deg < monos[b].deg;
  // graded lex: the smallest variable with different exponent decides.
  auto const& x = monos[a].v;
  auto const& y = monos[b].v;
  size_t i = 0;
  for (;; ++i) {
    if (i == x.size() || i == y.size()) return x.size() < y.size();
    if (x[i].first != y[i].first) return x[i].first > y[i].first;
    if (x[i].second != y[i].second) return x[i].second < y[i].second;
  }
}
MonoId PolyCtx::lead(Poly const& p) {
  MonoId l = p.t[0].first;
  for (auto const& t : p.t)
    if (less(l, t.first)) l = t.first;
  return l;
}

static bool MonoDiv(PolyCtx& c, MonoId a, MonoId b, MonoId& q) {
  Mono const& x = c.monos[a];
  Mono const& y = c.monos[b];
  Mono r;
  size_t i = 0;
  for (auto const& [v, e] : y.v) {
    while (i < x.v.size() && x.v[i].first < v) r.v.push_back(x.v[i++]);
    if (i == x.v.size() || x.v[i].first != v || x.v[i].second < e) return false;
    if (x.v[i].second > e) r.v.push_back({v, x.v[i].second - e});
    ++i;
  }
  while (i < x.v.size()) r.v.push_back(x.v[i++]);
  q = c.mono(r);
  return true;
}

bool PolyCtx::divexact(Poly const& a, Poly const& b, Poly& q) {
  if (b.zero()) return false;
  if (b.isconst()) {
    q = scale(a, 1 / b.cst());
    return true;
  }
  if (a.t.size() > 3000 || b.t.size() > 300) return false;
  MonoId lb = lead(b);
  mpq_class cb;
  for (auto const& t : b.t)
    if (t.first == lb) cb = t.second;
  auto cmp = [this](MonoId x, MonoId y) { return less(y, x); };
  std::map<MonoId, mpq_class, decltype(cmp)> rem(cmp);
  for (auto const& t : a.t) rem[t.first] = t.second;
  Poly res;
  int steps = 0;
  while (!rem.empty()) {
    auto it = rem.begin();
    MonoId m;
    if (!MonoDiv(*this, it->first, lb, m)) return false;
    if (++steps > 2000) return false;
    mpq_class k = it->second / cb;
    res.t.push_back({m, k});
    for (auto const& t : b.t) {
      MonoId mm = mul(m, t.first);
      auto& c = rem[mm];
      c -= k * t.second;
      if (c == 0) rem.erase(mm);
    }
  }
  std::sort(res.t.begin(), res.t.end(),
            [](auto const& l, auto const& r) { return l.first < r.first; });
  q = std::move(res);
  return true;
}

static bool QSqrt(mpq_class const& q, mpq_class& r) {
  if (q < 0) return false;
  mpz_class n = q.get_num(), d = q.get_den();
  if (!mpz_perfect_square_p(n.get_mpz_t()) ||
      !mpz_perfect_square_p(d.get_mpz_t()))
    return false;
  mpz_class sn = ::sqrt(n), sd = ::sqrt(d);
  r = mpq_class(sn, sd);
  return true;
}

bool PolyCtx::sqrt(Poly const& a, Poly& r) {
  if (a.zero()) {
    r.t.clear();
    return true;
  }
  MonoId l = lead(a);
  mpq_class lc;
  for (auto const& t : a.t)
    if (t.first == l) lc = t.second;
  mpq_class sc;
  if (!QSqrt(lc, sc)) return false;
  Mono m = monos[l];
  for (auto& [v, e] : m.v) {
    if (e % 2) return false;
    e /= 2;
  }
  MonoId lm = mono(m);
  Poly root;
  root.t.push_back({lm, sc});
  // Newton-like term by term extraction.
  Poly rem = a;
  {
    Poly sq;
    if (!mul(root, root, sq)) return false;
    rem = add(rem, sq, -1);
  }
  int steps = 0;
  while (!rem.zero()) {
    if (++steps > 64) return false;
    MonoId lr = lead(rem);
    mpq_class c;
    for (auto const& t : rem.t)
      if (t.first == lr) c = t.second;
    MonoId q;
    if (!MonoDiv(*this, lr, lm, q)) return false;
    if (!less(q, lm)) return false;
    Poly term;
    term.t.push_back({q, c / (2 * sc)});
    // rem -= 2*root*term + term^2
    Poly p1, p2;
    if (!mul(root, term, p1) || !mul(term, term, p2)) return false;
    rem = add(add(rem, p1, -2), p2, -1);
    root = add(root, term);
  }
  // Verify (rules may interfere).
  Poly v;
  if (!mul(root, root, v)) return false;
  if (!add(v, a, -1).zero()) return false;
  r = root;
  return true;
}

std::string PolyCtx::Str(Poly const& p) {
  std::ostringstream o;
  bool first = true;
  for (auto const& [m, c] : p.t) {
    if (!first) o << " + ";
    first = false;
    o << c.get_str();
    for (auto const& [v, e] : monos[m].v) {
      o << "*" << X.vars[v].name;
      if (e > 1) o << "^" << e;
    }
  }
  if (first) o << "0";
  return o.str();
}

uint32_t PolyCtx::intern(Poly const& p) {
  std::string s;
  for (auto const& [m, c] : p.t) s += std::to_string(m) + ":" + c.get_str(62) + ";";
  auto it = polyindex.find(s);
  if (it != polyindex.end()) return it->second;
  polys.push_back(p);
  return polyindex[s] = polys.size() - 1;
}

void PolyCtx::AddRule(uint32_t var, uint32_t n, Poly const& p,
                      bool fresh) {
  rules[var] = {n, p};
  if (fresh) return;
  red.clear();
  ++gen;
}

void PolyCtx::RemoveRule(uint32_t var) {
  rules.erase(var);
  red.clear();
  ++gen;
}

bool PolyCtx::den_poly(RF const& a, Poly& out) {
  out = cst(1);
  for (auto const& [d, e] : a.den)
    for (uint32_t i = 0; i < e; ++i)
      if (!mul(Poly(out), polys[d], out)) return false;
  return true;
}

// Cancels denominators factors that divide the numerator.
bool PolyCtx::norm(RF& f) {
  if (f.num.zero()) {
    f.den.clear();
    return true;
  }
  for (size_t i = 0; i < f.den.size();) {
    bool again = true;
    while (f.den[i].second > 0 && again) {
      Poly q;
      again = divexact(f.num, polys[f.den[i].first], q);
      if (again) {
        f.num = q;
        --f.den[i].second;
      }
    }
    if (f.den[i].second == 0) f.den.erase(f.den.begin() + i);
    else ++i;
  }
  return true;
}

bool PolyCtx::rf_add(RF const& a, RF const& b, RF& out) {
  RF r;
  Poly na = a.num, nb = b.num;
  size_t i = 0, j = 0;
  while (i < a.den.size() || j < b.den.size()) {
    uint32_t d, ea = 0, eb = 0;
    if (j == b.den.size() || (i < a.den.size() && a.den[i].first < b.den[j].first)) {
      d = a.den[i].first;
      ea = a.den[i++].second;
    } else if (i == a.den.size() || b.den[j].first < a.den[i].first) {
      d = b.den[j].first;
      eb = b.den[j++].second;
    } else {
      d = a.den[i].first;
      ea = a.den[i++].second;
      eb = b.den[j++].second;
    }
    uint32_t e = std::max(ea, eb);
    r.den.push_back({d, e});
    Poly dp = polys[d];
    for (; ea < e; ++ea)
      if (!mul(Poly(na), dp, na)) return false;
    for (; eb < e; ++eb)
      if (!mul(Poly(nb), dp, nb)) return false;
  }
  r.num = add(na, nb);
  if (r.num.t.size() > limit) return false;
  if (!norm(r)) return false;
  out = std::move(r);
  return true;
}

bool PolyCtx::rf_mul(RF const& a, RF const& b, RF& out) {
  RF r;
  if (!mul(a.num, b.num, r.num)) return false;
  std::map<uint32_t, uint32_t> d;
  for (auto const& [x, e] : a.den) d[x] += e;
  for (auto const& [x, e] : b.den) d[x] += e;
  for (auto const& x : d) r.den.push_back(x);
  if (!norm(r)) return false;
  out = std::move(r);
  return true;
}

bool PolyCtx::rf_inv(RF const& a, RF& out) {
  if (a.num.zero()) return false;
  RF r;
  if (!den_poly(a, r.num)) return false;
  // Factor the numerator: content, monomial content, rest.
  Poly n = a.num;
  std::map<uint32_t, uint32_t> content;
  bool first = true;
  for (auto const& [m, c] : n.t) {
    std::map<uint32_t, uint32_t> me;
    for (auto const& [v, e] : monos[m].v) me[v] = e;
    if (first) content = me;
    else {
      for (auto it = content.begin(); it != content.end();) {
        auto jt = me.find(it->first);
        uint32_t e = jt == me.end() ? 0 : std::min(it->second, jt->second);
        if (e == 0) it = content.erase(it);
        else {
          it->second = e;
          ++it;
        }
      }
    }
    first = false;
  }
  std::map<uint32_t, uint32_t> den;
  std::vector<std::pair<Poly, uint32_t>> todo;
  if (!content.empty()) {
    Mono cm;
    for (auto const& x : content) cm.v.push_back(x);
    MonoId cid = mono(cm);
    Poly rest;
    for (auto const& [m, c] : n.t) {
      MonoId q;
      if (!MonoDiv(*this, m, cid, q)) return false;
      rest.t.push_back({q, c});
    }
    std::sort(rest.t.begin(), rest.t.end(),
              [](auto const& l, auto const& r2) { return l.first < r2.first; });
    n = rest;
    for (auto const& [v, e] : content) {
      auto rule = rules.find(v);
      if (rule != rules.end()) {
        // 1/v^e = v^(k*n - e) / P^k
        uint32_t k = (e + rule->second.first - 1) / rule->second.first;
        Poly vp = var(v);
        for (uint32_t i = e; i < k * rule->second.first; ++i)
          if (!mul(Poly(r.num), vp, r.num)) return false;
        todo.push_back({rule->second.second, k});
      } else {
        den[intern(var(v))] += e;
      }
    }
  }
  todo.push_back({n, 1});
  mpq_class k = 1;
  for (auto& [p, e] : todo) {
    if (p.isconst()) {
      for (uint32_t i = 0; i < e; ++i) k *= p.cst();
      continue;
    }
    MonoId l = lead(p);
    mpq_class lc;
    for (auto const& t : p.t)
      if (t.first == l) lc = t.second;
    for (uint32_t i = 0; i < e; ++i) k *= lc;
    Poly mon = scale(p, 1 / lc);
    // Perfect squares are split so that factors are shared.
    Poly s;
    if (sqrt(mon, s)) den[intern(s)] += 2 * e;
    else den[intern(mon)] += e;
  }
  r.num = scale(r.num, 1 / k);
  for (auto const& x : den) r.den.push_back(x);
  if (!norm(r)) return false;
  out = std::move(r);
  return true;
}

const RF* PolyCtx::nf(E e) {
  if (e->nfgen == gen) return e->nffail ? nullptr : e->nf;
  RF r;
  bool ok = true;
  switch (e->k) {
    case K::RConst: r.num = cst(*e->q); break;
    case K::RVar: {
      Poly v = var(e->aux);
      // A rule of degree 1 substitutes.
      auto it = rules.find(e->aux);
      if (it != rules.end() && it->second.first == 1) v = it->second.second;
      r.num = v;
      break;
    }
    case K::RAdd: case K::RMul: case K::RDiv: {
      const RF* a = nf(e->a[0]);
      const RF* b = a ? nf(e->a[1]) : nullptr;
      ok = a && b;
      if (ok) {
        if (e->k == K::RAdd) ok = rf_add(*a, *b, r);
        else if (e->k == K::RMul) ok = rf_mul(*a, *b, r);
        else {
          RF i;
          ok = rf_inv(*b, i) && rf_mul(*a, i, r);
        }
      }
      break;
    }
    default: ok = false;
  }
  e->nfgen = gen;
  e->nffail = !ok;
  if (!ok) return nullptr;
  store.push_back(std::make_unique<RF>(std::move(r)));
  e->nf = store.back().get();
  return e->nf;
}

E PolyCtx::ToExpr(Poly const& p) {
  std::vector<std::pair<MonoId, mpq_class>> t = p.t;
  std::sort(t.begin(), t.end(),
            [this](auto const& l, auto const& r) { return less(r.first, l.first); });
  E acc = X.RConst(0);
  for (auto const& [m, c] : t) {
    E x = nullptr;
    for (auto const& [v, e] : monos[m].v)
      for (uint32_t i = 0; i < e; ++i)
        x = x ? X.RMul(x, X.vars[v].e) : X.vars[v].e;
    E term = x ? X.RMul(x, X.RConst(c)) : X.RConst(c);
    acc = X.RAdd(acc, term);
  }
  return acc;
}

double PolyCtx::Eval(Poly const& p, Model const& m) {
  double r = 0;
  for (auto const& [mo, c] : p.t) {
    double t = c.get_d();
    for (auto const& [v, e] : monos[mo].v) {
      double x = X.EvalR(X.vars[v].e, m);
      for (uint32_t i = 0; i < e; ++i) t *= x;
    }
    r += t;
  }
  return r;
}

}  // namespace vf
