#include "solver.h"

#include <optional>
#include <z3++.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <iostream>

namespace vf {

struct Solver::Impl {
  z3::context c;
  std::unordered_map<E, z3::expr> bv, fp, bo, re;
  z3::expr_vector side{c};
  struct Cached {
    Res r;
    std::vector<std::pair<uint32_t, u128>> bv;
    std::vector<std::pair<uint32_t, double>> re;
  };
  std::map<std::vector<uint32_t>, Cached> cache;

  z3::sort FS(unsigned w) { return w == 64 ? c.fpa_sort<64>() : c.fpa_sort<32>(); }

  z3::expr BvConst(u128 v, unsigned w) {
    if (w <= 64) return c.bv_val((uint64_t)v, w);
    mpz_class z = (unsigned long)(uint64_t)(v >> 64);
    z <<= 64;
    z += (unsigned long)(uint64_t)v;
    return c.bv_val(z.get_str().c_str(), w);
  }
  z3::expr Ex(Z3_ast a) { return z3::to_expr(c, a); }

  z3::expr Fp(E e) {
    auto it = fp.find(e);
    if (it != fp.end()) return it->second;
    z3::expr r(c);
    auto rne = [&] { return Ex(Z3_mk_fpa_rne(c)); };
    switch (e->k) {
      case K::FAdd: r = Ex(Z3_mk_fpa_add(c, rne(), Fp(e->a[0]), Fp(e->a[1]))); break;
      case K::FSub: r = Ex(Z3_mk_fpa_sub(c, rne(), Fp(e->a[0]), Fp(e->a[1]))); break;
      case K::FMul: r = Ex(Z3_mk_fpa_mul(c, rne(), Fp(e->a[0]), Fp(e->a[1]))); break;
      case K::FDiv: r = Ex(Z3_mk_fpa_div(c, rne(), Fp(e->a[0]), Fp(e->a[1]))); break;
      case K::FSqrt: r = Ex(Z3_mk_fpa_sqrt(c, rne(), Fp(e->a[0]))); break;
      case K::FFma:
        r = Ex(Z3_mk_fpa_fma(c, rne(), Fp(e->a[0]), Fp(e->a[1]), Fp(e->a[2])));
        break;
      case K::FCvt: r = Ex(Z3_mk_fpa_to_fp_float(c, rne(), Fp(e->a[0]), FS(e->w))); break;
      case K::SIToF: r = Ex(Z3_mk_fpa_to_fp_signed(c, rne(), Bv(e->a[0]), FS(e->w))); break;
      case K::UIToF: r = Ex(Z3_mk_fpa_to_fp_unsigned(c, rne(), Bv(e->a[0]), FS(e->w))); break;
      case K::FRound: {
        z3::expr rm = e->aux == 0   ? rne()
                      : e->aux == 1 ? Ex(Z3_mk_fpa_rtn(c))
                      : e->aux == 2 ? Ex(Z3_mk_fpa_rtp(c))
                      : e->aux == 3 ? Ex(Z3_mk_fpa_rtz(c))
                                    : Ex(Z3_mk_fpa_rna(c));
        r = Ex(Z3_mk_fpa_round_to_integral(c, rm, Fp(e->a[0])));
        break;
      }
      case K::Ite:
        if (e->w == 64 || e->w == 32) {
          r = z3::ite(Bool(e->a[0]), Fp(e->a[1]), Fp(e->a[2]));
          break;
        }
        [[fallthrough]];
      default: r = Ex(Z3_mk_fpa_to_fp_bv(c, Bv(e), FS(e->w)));
    }
    fp.emplace(e, r);
    return r;
  }

  z3::expr Bool(E e) {
    auto it = bo.find(e);
    if (it != bo.end()) return it->second;
    z3::expr r(c);
    switch (e->k) {
      case K::Const: r = c.bool_val(e->c != 0); break;
      case K::And: r = Bool(e->a[0]) && Bool(e->a[1]); break;
      case K::Or: r = Bool(e->a[0]) || Bool(e->a[1]); break;
      case K::Xor:
        if (e->a[1]->k == K::Const) r = e->a[1]->c ? !Bool(e->a[0]) : Bool(e->a[0]);
        else r = Bool(e->a[0]) != Bool(e->a[1]);
        break;
      case K::Ite: r = z3::ite(Bool(e->a[0]), Bool(e->a[1]), Bool(e->a[2])); break;
      case K::Eq: r = Bv(e->a[0]) == Bv(e->a[1]); break;
      case K::Ult: r = z3::ult(Bv(e->a[0]), Bv(e->a[1])); break;
      case K::Ule: r = z3::ule(Bv(e->a[0]), Bv(e->a[1])); break;
      case K::Slt: r = z3::slt(Bv(e->a[0]), Bv(e->a[1])); break;
      case K::Sle: r = z3::sle(Bv(e->a[0]), Bv(e->a[1])); break;
      case K::FOeq: r = Ex(Z3_mk_fpa_eq(c, Fp(e->a[0]), Fp(e->a[1]))); break;
      case K::FOlt: r = Ex(Z3_mk_fpa_lt(c, Fp(e->a[0]), Fp(e->a[1]))); break;
      case K::FOle: r = Ex(Z3_mk_fpa_leq(c, Fp(e->a[0]), Fp(e->a[1]))); break;
      case K::FUno:
        r = Ex(Z3_mk_fpa_is_nan(c, Fp(e->a[0]))) || Ex(Z3_mk_fpa_is_nan(c, Fp(e->a[1])));
        break;
      case K::REq0: r = Re(e->a[0]) == c.real_val(0); break;
      case K::RLt0: r = Re(e->a[0]) < c.real_val(0); break;
      case K::RLe0: r = Re(e->a[0]) <= c.real_val(0); break;
      default: r = Bv(e) == c.bv_val(1, 1);
    }
    bo.emplace(e, r);
    return r;
  }

  z3::expr Bv(E e) {
    auto it = bv.find(e);
    if (it != bv.end()) return it->second;
    z3::expr r(c);
    switch (e->k) {
      case K::Const: r = BvConst(e->c, e->w); break;
      case K::Var:
        r = c.bv_const(("b" + std::to_string(e->aux)).c_str(), e->w);
        break;
      case K::Add: r = Bv(e->a[0]) + Bv(e->a[1]); break;
      case K::Sub: r = Bv(e->a[0]) - Bv(e->a[1]); break;
      case K::Mul: r = Bv(e->a[0]) * Bv(e->a[1]); break;
      case K::UDiv: r = z3::udiv(Bv(e->a[0]), Bv(e->a[1])); break;
      case K::SDiv: r = Bv(e->a[0]) / Bv(e->a[1]); break;
      case K::URem: r = z3::urem(Bv(e->a[0]), Bv(e->a[1])); break;
      case K::SRem: r = z3::srem(Bv(e->a[0]), Bv(e->a[1])); break;
      case K::And: case K::Or: case K::Xor:
        if (e->w == 1) {
          r = z3::ite(Bool(e), c.bv_val(1, 1), c.bv_val(0, 1));
          break;
        }
        r = e->k == K::And  ? Bv(e->a[0]) & Bv(e->a[1])
            : e->k == K::Or ? Bv(e->a[0]) | Bv(e->a[1])
                            : Bv(e->a[0]) ^ Bv(e->a[1]);
        break;
      case K::Shl: r = z3::shl(Bv(e->a[0]), Bv(e->a[1])); break;
      case K::LShr: r = z3::lshr(Bv(e->a[0]), Bv(e->a[1])); break;
      case K::AShr: r = z3::ashr(Bv(e->a[0]), Bv(e->a[1])); break;
      case K::Concat: r = z3::concat(Bv(e->a[0]), Bv(e->a[1])); break;
      case K::Extract: r = Bv(e->a[0]).extract(e->aux + e->w - 1, e->aux); break;
      case K::ZExt: r = z3::zext(Bv(e->a[0]), e->w - e->a[0]->w); break;
      case K::SExt: r = z3::sext(Bv(e->a[0]), e->w - e->a[0]->w); break;
      case K::Ite: r = z3::ite(Bool(e->a[0]), Bv(e->a[1]), Bv(e->a[2])); break;
      case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle:
      case K::FOeq: case K::FOlt: case K::FOle: case K::FUno:
      case K::REq0: case K::RLt0: case K::RLe0:
        r = z3::ite(Bool(e), c.bv_val(1, 1), c.bv_val(0, 1));
        break;
      case K::FToSI:
        r = Ex(Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), Fp(e->a[0]), e->w));
        break;
      case K::FToUI:
        r = Ex(Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), Fp(e->a[0]), e->w));
        break;
      case K::UF: {
        z3::sort_vector dom(c);
        z3::expr_vector args(c);
        for (int i = 0; i < e->n; ++i) {
          z3::expr x = Bv(e->a[i]);
          dom.push_back(x.get_sort());
          args.push_back(x);
        }
        z3::func_decl f = c.function(X.ufs[e->aux].c_str(), dom, c.bv_sort(e->w));
        r = f(args);
        break;
      }
      default: r = Ex(Z3_mk_fpa_to_ieee_bv(c, Fp(e)));
    }
    bv.emplace(e, r);
    return r;
  }

  z3::expr Re(E e) {
    auto it = re.find(e);
    if (it != re.end()) return it->second;
    z3::expr r(c);
    switch (e->k) {
      case K::RConst: r = c.real_val(e->q->get_str().c_str()); break;
      case K::RVar: r = c.real_const(("r" + std::to_string(e->aux)).c_str()); break;
      case K::RAdd: r = Re(e->a[0]) + Re(e->a[1]); break;
      case K::RMul: r = Re(e->a[0]) * Re(e->a[1]); break;
      case K::RDiv: r = Re(e->a[0]) / Re(e->a[1]); break;
      default: std::cerr << "Re of non-real\n"; abort();
    }
    re.emplace(e, r);
    return r;
  }

  // Axioms about a special variable, as expressions.
  void Axioms(uint32_t v, std::vector<z3::expr>& out, std::set<uint32_t>& seen,
              std::vector<uint32_t>& todo) {
    VarInfo const& vi = X.vars[v];
    switch (vi.special) {
      case VarInfo::Root: {
        z3::expr s = Re(vi.e);
        z3::expr a = Re(vi.arg);
        if (vi.n == 2) {
          out.push_back(s >= 0);
          out.push_back(s * s == a);
        } else {
          out.push_back(s * s * s == a);
        }
        for (uint32_t u : *vi.arg->vs)
          if (seen.insert(u).second) todo.push_back(u);
        break;
      }
      case VarInfo::Cos: {
        z3::expr x = Re(vi.e), y = Re(X.vars[vi.n].e);
        out.push_back(x * x + y * y == 1);
        break;
      }
      case VarInfo::Sin: {
        z3::expr x = Re(vi.e), y = Re(X.vars[vi.n].e);
        out.push_back(x * x + y * y == 1);
        break;
      }
      case VarInfo::FromBV: {
        z3::expr b = Bv(vi.arg);
        z3::expr i = Ex(Z3_mk_bv2int(c, b, vi.arg_signed));
        out.push_back(Re(vi.e) == Ex(Z3_mk_int2real(c, i)));
        break;
      }
      default: break;
    }
  }
};

Solver::Solver() : impl_(new Impl) {}
Solver::~Solver() { impl_.release(); }

static bool HasKind(E e, std::set<E>& seen, int& flags) {
  if (!seen.insert(e).second) return false;
  if (e->k >= K::FAdd && e->k <= K::FRound) flags |= 1;
  if (e->real || (e->k >= K::REq0)) flags |= 2;
  if (!e->real && e->k < K::REq0 && e->w > 1) flags |= 4;
  for (int i = 0; i < e->n; ++i) HasKind(e->a[i], seen, flags);
  return true;
}

static double NumeralToDouble(z3::context& c, z3::expr const& v) {
  if (v.is_algebraic()) {
    z3::expr a(c, Z3_get_algebraic_number_lower(c, v, 20));
    return mpq_class(a.get_decimal_string(0) == "" ? "0" : Z3_get_numeral_string(c, a)).get_d();
  }
  if (v.is_numeral()) {
    try {
      mpq_class q(Z3_get_numeral_string(c, v));
      q.canonicalize();
      return q.get_d();
    } catch (...) {
      return 0;
    }
  }
  return 0;
}

Res Solver::CheckAll(std::vector<E> const& cs0, Model* model, int timeout_ms) {
  std::vector<E> cs;
  for (E e : cs0) {
    if (e->k == K::Const) {
      if (e->c == 0) {
        ++stats.queries;
        ++stats.unsat;
        return Res::Unsat;
      }
      continue;
    }
    cs.push_back(e);
  }
  std::vector<uint32_t> key;
  for (E e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  std::set<uint32_t> vars;
  for (E e : cs)
    for (uint32_t v : *e->vs) vars.insert(v);
  auto it = impl_->cache.find(key);
  if (it == impl_->cache.end()) {
    ++stats.queries;
    auto t0 = std::chrono::steady_clock::now();
    auto& I = *impl_;
    std::set<E> seenk;
    int flags = 0;
    for (E e : cs) HasKind(e, seenk, flags);
    Impl::Cached cc;
    cc.r = Res::Unknown;
    try {
      std::vector<z3::expr> ax;
      std::set<uint32_t> seen(vars.begin(), vars.end());
      std::vector<uint32_t> todo(vars.begin(), vars.end());
      while (!todo.empty()) {
        uint32_t v = todo.back();
        todo.pop_back();
        if (X.vars[v].special == VarInfo::Cos || X.vars[v].special == VarInfo::Sin)
          seen.insert(X.vars[v].n);
        I.Axioms(v, ax, seen, todo);
      }
      vars = seen;
      z3::solver s = [&]() -> z3::solver {
        if (flags == 2) {
          for (uint32_t v : vars)
            if (X.vars[v].special == VarInfo::FromBV) return z3::solver(I.c);
          return z3::solver(I.c, "QF_NRA");
        }
        if (flags & 2) return z3::solver(I.c);
        if (flags & 1) return z3::solver(I.c, "QF_BVFP");
        return z3::solver(I.c, "QF_BV");
      }();
      z3::params p(I.c);
      p.set("timeout", (unsigned)timeout_ms);
      s.set(p);
      for (E e : cs) s.add(I.Bool(e));
      for (auto& a : ax) s.add(a);
      z3::check_result r = s.check();
      if (getenv("VF_SMT")) std::cerr << "SMT " << r << "\n" << s.to_smt2() << "\n";
      if (r == z3::sat) {
        cc.r = Res::Sat;
        z3::model m = s.get_model();
        for (uint32_t v : vars) {
          VarInfo const& vi = X.vars[v];
          if (vi.real) {
            z3::expr val = m.eval(I.Re(vi.e), true);
            cc.re.push_back({v, NumeralToDouble(I.c, val)});
          } else {
            z3::expr val = m.eval(I.Bv(vi.e), true);
            u128 x = 0;
            if (val.is_numeral()) {
              mpz_class z(Z3_get_numeral_string(I.c, val));
              mpz_class lo = z & mpz_class("18446744073709551615");
              mpz_class hi = z >> 64;
              x = ((u128)hi.get_ui() << 64) | lo.get_ui();
            }
            cc.bv.push_back({v, x});
          }
        }
      } else if (r == z3::unsat) {
        cc.r = Res::Unsat;
      }
    } catch (z3::exception& ex) {
      std::cerr << "z3 exception: " << ex.msg() << "\n";
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    stats.seconds += dt;
    stats.max_seconds = std::max(stats.max_seconds, dt);
    if (cc.r == Res::Sat) ++stats.sat;
    else if (cc.r == Res::Unsat) ++stats.unsat;
    else ++stats.unknown;
    it = impl_->cache.emplace(key, cc).first;
  } else {
    ++stats.cached;
  }
  if (it->second.r == Res::Sat && model) {
    for (auto const& [v, x] : it->second.bv) {
      if (model->bv.size() <= v) model->bv.resize(v + 1, 0);
      model->bv[v] = x;
    }
    for (auto const& [v, x] : it->second.re) {
      if (model->re.size() <= v) model->re.resize(v + 1, 0);
      model->re[v] = x;
    }
    // Angles: recover the angle from its cosine and sine where it is a plain
    // multiple of an input.
    for (auto const& [v, x] : it->second.re) {
      VarInfo const& vi = X.vars[v];
      if (vi.special != VarInfo::Cos) continue;
      E arg = vi.arg;
      mpq_class k = 1;
      if (arg->k == K::RMul && arg->a[1]->k == K::RConst) {
        k = *arg->a[1]->q;
        arg = arg->a[0];
      }
      if (arg->k != K::RVar || X.vars[arg->aux].special != VarInfo::None) continue;
      if (model->re.size() <= arg->aux) model->re.resize(arg->aux + 1, 0);
      double& value = model->re[arg->aux];
      std::optional<double> s;
      for (auto const& [v2, x2] : it->second.re)
        if (v2 == vi.n) s = x2;
      if (vars.count(arg->aux) &&
          std::abs(std::cos(k.get_d() * value) - x) < 1e-9 &&
          (!s || std::abs(std::sin(k.get_d() * value) - *s) < 1e-9))
        continue;
      if (!s) s = std::copysign(std::sqrt(std::max(0.0, 1 - x * x)), value * k.get_d());
      double const old = value;
      value = std::atan2(*s, x) / k.get_d();
      if (vars.count(arg->aux)) {
        X.NewEval();
        for (E c : cs) {
          if (c->k == K::REq0 ? std::abs(X.EvalR(c->a[0], *model)) < 1e-9
                              : X.Eval(c, *model) & 1)
            continue;
          value = old;
          break;
        }
      }
    }
  }
  return it->second.r;
}

Res Solver::Check(std::vector<E> const& pc, E extra, Model* model, int timeout_ms) {
  if (extra->k == K::Const) return extra->c ? Res::Sat : Res::Unsat;
  std::set<uint32_t> vars(extra->vs->begin(), extra->vs->end());
  auto close = [&](std::set<uint32_t>& s) {
    std::vector<uint32_t> todo(s.begin(), s.end());
    while (!todo.empty()) {
      uint32_t v = todo.back();
      todo.pop_back();
      VarInfo const& vi = X.vars[v];
      std::vector<uint32_t> more;
      if (vi.special == VarInfo::Root || vi.special == VarInfo::FromBV)
        more = *vi.arg->vs;
      if (vi.special == VarInfo::Cos || vi.special == VarInfo::Sin) more = {vi.n};
      for (uint32_t u : more)
        if (s.insert(u).second) todo.push_back(u);
    }
  };
  close(vars);
  std::vector<E> slice{extra};
  std::vector<bool> used(pc.size(), false);
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < pc.size(); ++i) {
      if (used[i]) continue;
      bool hit = pc[i]->vs->empty();
      for (uint32_t v : *pc[i]->vs)
        if (vars.count(v)) {
          hit = true;
          break;
        }
      if (!hit) continue;
      used[i] = true;
      slice.push_back(pc[i]);
      size_t n = vars.size();
      vars.insert(pc[i]->vs->begin(), pc[i]->vs->end());
      if (vars.size() != n) {
        close(vars);
        changed = true;
      }
    }
  }
  return CheckAll(slice, model, timeout_ms);
}

Res Solver::LinearBound(Poly const& p, std::map<uint32_t, double> const& bounds,
                        double tol) {
  ++stats.queries;
  auto t0 = std::chrono::steady_clock::now();
  auto& I = *impl_;
  Res r = Res::Unknown;
  try {
    z3::solver s(I.c, "QF_LRA");
    z3::expr sum = I.c.real_val(0);
    for (auto const& [m, q] : p.t) {
      double b = 1;
      for (auto const& [v, e] : P.monos[m].v) {
        auto it = bounds.find(v);
        if (it == bounds.end()) return Res::Unknown;
        for (uint32_t i = 0; i < e; ++i) b *= it->second;
      }
      z3::expr x = m == 0 ? I.c.real_val(1)
                          : I.c.real_const(("m" + std::to_string(m)).c_str());
      if (m != 0) {
        std::string bs = mpq_class(b * (1 + 1e-12)).get_str();
        z3::expr bb = I.c.real_val(bs.c_str());
        s.add(x <= bb && x >= -bb);
      }
      sum = sum + I.c.real_val(q.get_str().c_str()) * x;
    }
    z3::expr t = I.c.real_val(mpq_class(tol).get_str().c_str());
    s.add(sum > t || sum < -t);
    z3::check_result cr = s.check();
    r = cr == z3::unsat ? Res::Unsat : cr == z3::sat ? Res::Sat : Res::Unknown;
  } catch (z3::exception& ex) {
    std::cerr << "z3 exception: " << ex.msg() << "\n";
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  stats.seconds += dt;
  if (r == Res::Unsat) ++stats.unsat;
  else if (r == Res::Sat) ++stats.sat;
  else ++stats.unknown;
  return r;
}

}  // namespace vf
