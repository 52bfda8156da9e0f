// Included by exec.cc.
static std::map<std::string, int>& X86Names() {
  static std::map<std::string, int> m;
  return m;
}

static Val Lanewise(Val const& a, std::function<Val(Val const&)> f) {
  if (!a.agg) return f(a);
  std::vector<Val> v;
  for (auto& x : *a.agg) v.push_back(f(x));
  return MkAgg(v);
}
static Val Lanewise2(Val const& a, Val const& b, std::function<Val(Val const&, Val const&)> f) {
  if (!a.agg) return f(a, b);
  std::vector<Val> v;
  for (size_t i = 0; i < a.agg->size(); ++i) v.push_back(f((*a.agg)[i], (*b.agg)[i]));
  return MkAgg(v);
}

bool Executor::Intrinsic(KInst const& k, KFunc* f, std::vector<Val>& args, Val& ret, bool& pushed) {
  auto advance = [&] {
    Frame& fr = S->top();
    KInst const& kk = fr.f->insts[fr.pc];
    if (auto* inv = dyn_cast<InvokeInst>(kk.I)) Branch(inv->getNormalDest());
    else ++fr.pc;
  };
  auto setret = [&](State& s, Val v) {
    State* save = S;
    S = &s;
    Frame& fr = s.top();
    KInst const& kk = fr.f->insts[fr.pc];
    if (kk.dest >= 0) fr.regs[kk.dest] = v;
    if (auto* inv = dyn_cast<InvokeInst>(kk.I)) Branch(inv->getNormalDest());
    else ++fr.pc;
    S = save;
  };
  auto uniq = [&](std::string const& n) {
    int c = S->names[n]++;
    return c == 0 ? n : n + "#" + std::to_string(c);
  };
  Type* rt = f->F->getReturnType();
  Type* ft = rt->isVectorTy() ? cast<FixedVectorType>(rt)->getElementType() : rt;
  Type* DT = Type::getDoubleTy(M.getContext());

  auto unary_real = [&](char const* fn, Val const& a) -> Val {
    // Opaque function of a real.
    E x = ToReal(a);
    std::string key = std::string("f") + fn + "|" + CanonKey(x);
    auto it = trig_.find(key);
    if (it != trig_.end()) return Val(it->second.first);
    E v = X.RVar("!fn" + std::to_string(trig_.size()), Deps(x));
    X.vars[v->aux].special = VarInfo::Fn;
    X.vars[v->aux].fn = fn;
    X.vars[v->aux].arg = x;
    trig_[key] = {v, v};
    assumptions.insert(std::string(fn) + " is an uninterpreted function of its argument");
    return Val(v);
  };
  // Logarithms are variables, one for each pair {y, 1/y}.
  std::function<Val(E)> real_log = [&](E x) -> Val {
    if (x->k == K::RConst) return FromE(X.RConstD(std::log(x->q->get_d())));
    if (sqrt_domain_) {
      if (Decide(X.RLt0(x))) return Val(DBits(NAN));
    } else {
      assumptions.insert("arguments of logarithms are positive");
    }
    if (const RF* f = P.nf(x)) {
      // Products of exponentials.
      if (f->num.t.size() == 1 && f->num.t[0].second == 1) {
        E r = X.RConst(0);
        bool ok = true;
        auto add = [&](MonoId m, int sign) {
          for (auto const& [v, e] : P.monos[m].v) {
            VarInfo const& vi = X.vars[v];
            if (vi.special != VarInfo::Fn || vi.fn != "exp") { ok = false; return; }
            r = X.RAdd(r, X.RMul(X.RConst(sign * (long)e), vi.arg));
          }
        };
        add(f->num.t[0].first, 1);
        for (auto const& [d, e] : f->den) {
          Poly const& p = P.polys[d];
          if (p.t.size() != 1 || p.t[0].second != 1) ok = false;
          else for (uint32_t i = 0; i < e; ++i) add(p.t[0].first, -1);
        }
        if (ok) return FromE(r);
      }
      // Squares.
      Poly n, d = P.cst(1), t;
      if (P.sqrt(f->num, n)) {
        bool ok = true;
        for (auto const& [q, e] : f->den) {
          Poly b = P.polys[q];
          if (e % 2 && !P.sqrt(P.polys[q], b)) ok = false;
          for (uint32_t i = 0; ok && i < (e % 2 ? e : e / 2); ++i) {
            ok = P.mul(d, b, t);
            d = t;
          }
        }
        E r = X.RDiv(P.ToExpr(n), P.ToExpr(d));
        if (ok && r->k != K::RConst) {
          if (Decide(X.RLt0(r))) r = X.RNeg(r);
          return FromE(X.RMul(X.RConst(2), ToReal(real_log(r))));
        }
      }
    }
    std::string inv = g_rulesignature + "flog|" + CanonKey(X.RDiv(X.RConst(1), x));
    auto it = trig_.find(inv);
    if (it != trig_.end()) return FromE(X.RNeg(it->second.first));
    std::string key = g_rulesignature + "flog|" + CanonKey(x);
    it = trig_.find(key);
    if (it != trig_.end()) return Val(it->second.first);
    E v = X.RVar("!fn" + std::to_string(trig_.size()), Deps(x));
    X.vars[v->aux].special = VarInfo::Fn;
    X.vars[v->aux].fn = "log";
    X.vars[v->aux].arg = x;
    trig_[key] = {v, v};
    return Val(v);
  };
  auto real_exp = [&](E x) -> E {
    const RF* f = P.nf(x);
    auto base = [&](E arg) -> E {
      std::string key = g_rulesignature + "fexp|" + CanonKey(arg);
      auto it = trig_.find(key);
      if (it == trig_.end()) {
        E v = X.RVar("!fn" + std::to_string(trig_.size()), Deps(arg));
        X.vars[v->aux].special = VarInfo::Fn;
        X.vars[v->aux].fn = "exp";
        X.vars[v->aux].arg = arg;
        it = trig_.emplace(key, std::make_pair(v, v)).first;
      }
      if (!Assume(X.RLt(X.RConst(0), it->second.first))) throw Terminate{};
      return it->second.first;
    };
    if (!f || !f->den.empty()) return base(x);
    E r = X.RConst(1);
    for (auto const& [m, q] : f->num.t) {
      if (m == 0) {
        r = X.RMul(r, X.RConstD(std::exp(q.get_d())));
        continue;
      }
      auto const& mv = P.monos[m].v;
      E b = nullptr;
      mpq_class k = q;
      if (mv.size() == 1 && mv[0].second == 1 && X.vars[mv[0].first].special == VarInfo::Fn &&
          X.vars[mv[0].first].fn == "log" && k.get_den() == 1) {
        b = X.vars[mv[0].first].arg;
      } else {
        k = q * angle_den_;
        Poly p;
        p.t.push_back({m, mpq_class(1, angle_den_)});
        if (k.get_den() != 1 || abs(k) > 64) {
          k = q < 0 ? -1 : 1;
          p.t[0].second = abs(q);
        }
        p.t[0].second.canonicalize();
        b = base(P.ToExpr(p));
      }
      long n = k.get_num().get_si();
      for (long i = 0; i < std::abs(n); ++i) r = n > 0 ? X.RMul(r, b) : X.RDiv(r, b);
    }
    return r;
  };
  auto fmath = [&](int h, std::vector<Val> const& a) -> Val {
    bool sym = false;
    for (auto& x : a) sym |= x.e != nullptr;
    if (ft->isX86_FP80Ty() && sym) throw Unsupported{"long double math"};
    if (!sym) {
      bool f32 = ft->isFloatTy();
      auto D = [&](size_t i) {
        if (!f32) return BitsD(a[i].c);
        uint32_t u = a[i].c;
        float x;
        memcpy(&x, &u, 4);
        return (double)x;
      };
      double x = D(0), y = a.size() > 1 ? D(1) : 0, z = a.size() > 2 ? D(2) : 0, r;
      switch (h) {
        case H_sqrt: r = std::sqrt(x); break;
        case H_sin: r = std::sin(x); break;
        case H_cos: r = std::cos(x); break;
        case H_tan: r = std::tan(x); break;
        case H_atan2: r = std::atan2(x, y); break;
        case H_asin: r = std::asin(x); break;
        case H_acos: r = std::acos(x); break;
        case H_atan: r = std::atan(x); break;
        case H_exp: r = std::exp(x); break;
        case H_log: r = std::log(x); break;
        case H_pow: r = std::pow(x, y); break;
        case H_cbrt: r = std::cbrt(x); break;
        case H_sinh: r = std::sinh(x); break;
        case H_cosh: r = std::cosh(x); break;
        case H_tanh: r = std::tanh(x); break;
        case H_asinh: r = std::asinh(x); break;
        case H_acosh: r = std::acosh(x); break;
        case H_atanh: r = std::atanh(x); break;
        case H_fmod: r = std::fmod(x, y); break;
        case H_floor: r = std::floor(x); break;
        case H_ceil: r = std::ceil(x); break;
        case H_trunc: r = std::trunc(x); break;
        case H_round: r = std::round(x); break;
        case H_rint: r = std::nearbyint(x); break;
        case H_fabs: r = std::fabs(x); break;
        case H_fma: r = std::fma(x, y, z); break;
        case H_fmin: r = std::fmin(x, y); break;
        case H_fmax: r = std::fmax(x, y); break;
        case H_log2: r = std::log2(x); break;
        case H_log10: r = std::log10(x); break;
        case H_exp2: r = std::exp2(x); break;
        case H_remainder: r = std::remainder(x, y); break;
        case H_copysign: r = std::copysign(x, y); break;
        case H_hypot: r = std::hypot(x, y); break;
        case H_expm1: r = std::expm1(x); break;
        case H_logb: r = std::logb(x); break;
        case H_nextafter: r = std::nextafter(x, y); break;
        default: throw Unsupported{"math function"};
      }
      if (f32) {
        float fr = (float)r;
        if (h == H_sqrt) fr = std::sqrt((float)x);
        uint32_t u;
        memcpy(&u, &fr, 4);
        return Val((uint64_t)u);
      }
      return Val(DBits(r));
    }
    if (!opt.real) {
      unsigned w = ft->getPrimitiveSizeInBits();
      E x = ToE(a[0], w);
      switch (h) {
        case H_sqrt: return FromE(X.FOp(K::FSqrt, w, x));
        case H_floor: return FromE(X.FOp(K::FRound, w, x, nullptr, nullptr, 1));
        case H_ceil: return FromE(X.FOp(K::FRound, w, x, nullptr, nullptr, 2));
        case H_trunc: return FromE(X.FOp(K::FRound, w, x, nullptr, nullptr, 3));
        case H_round: return FromE(X.FOp(K::FRound, w, x, nullptr, nullptr, 4));
        case H_rint: return FromE(X.FOp(K::FRound, w, x, nullptr, nullptr, 0));
        case H_fabs: return FromE(X.Bin(K::And, x, X.Const(MaskW(w - 1), w)));
        case H_copysign: {
          E y = ToE(a[1], w);
          return FromE(X.OrB(X.AndB(x, X.Const(MaskW(w - 1), w)),
                             X.AndB(y, X.Const((u128)1 << (w - 1), w))));
        }
        case H_fma: return FromE(X.FOp(K::FFma, w, x, ToE(a[1], w), ToE(a[2], w)));
        case H_fmin: case H_fmax: {
          E y = ToE(a[1], w);
          E lt = h == H_fmin ? X.FOp(K::FOlt, 1, x, y) : X.FOp(K::FOlt, 1, y, x);
          E r = X.Ite(lt, x, y);
          r = X.Ite(X.FOp(K::FUno, 1, y, y), x, r);
          return FromE(r);
        }
        case H_logb: case H_nextafter: default: {
          std::string nm = "fn" + std::to_string(h);
          assumptions.insert("math library function is uninterpreted");
          return Val(X.UF(nm, w, x, a.size() > 1 ? ToE(a[1], w) : nullptr,
                          a.size() > 2 ? ToE(a[2], w) : nullptr));
        }
      }
    }
    // Real mode.
    if (h != H_fmin && h != H_fmax)
      for (auto const& x : a)
        if (!x.e && std::isnan(BitsD(x.c))) return x;
    switch (h) {
      case H_sqrt: return RealSqrt(a[0], 2);
      case H_cbrt: return RealSqrt(a[0], 3);
      case H_sin: { E s, c; RealSinCos(ToReal(a[0]), &s, &c); return FromE(s); }
      case H_cos: { E s, c; RealSinCos(ToReal(a[0]), &s, &c); return FromE(c); }
      case H_tan: {
        E s, c;
        RealSinCos(ToReal(a[0]), &s, &c);
        return RealDiv(FromE(s), FromE(c));
      }
      case H_atan2: return RealAtan2(a[0], a[1]);
      case H_atan: return RealAtan2(a[0], Val(DBits(1.0)));
      case H_acos: {
        E x = ToReal(a[0]);
        Val y = RealSqrt(FromE(X.RSub(X.RConst(1), X.RMul(x, x))), 2);
        return RealAtan2(y, a[0]);
      }
      case H_asin: {
        E x = ToReal(a[0]);
        Val y = RealSqrt(FromE(X.RSub(X.RConst(1), X.RMul(x, x))), 2);
        return RealAtan2(a[0], y);
      }
      case H_fmod: {
        Val q = RealDiv(a[0], a[1]);
        Val n = RealRound(3, q);
        return FromE(X.RSub(ToReal(a[0]), X.RMul(ToReal(n), ToReal(a[1]))));
      }
      case H_remainder: {
        Val q = RealDiv(a[0], a[1]);
        Val n = RealRound(0, q);
        return FromE(X.RSub(ToReal(a[0]), X.RMul(ToReal(n), ToReal(a[1]))));
      }
      case H_floor: return RealRound(1, a[0]);
      case H_ceil: return RealRound(2, a[0]);
      case H_trunc: return RealRound(3, a[0]);
      case H_round: return RealRound(4, a[0]);
      case H_rint: return RealRound(0, a[0]);
      case H_fabs: {
        E x = ToReal(a[0]);
        return Decide(X.RLt0(x)) ? FromE(X.RNeg(x)) : a[0];
      }
      case H_fma: return FromE(X.RAdd(X.RMul(ToReal(a[0]), ToReal(a[1])), ToReal(a[2])));
      case H_fmin: case H_fmax: {
        Val lt = FCmp(h == H_fmin ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, DT, a[0], a[1]);
        return DecideVal(lt) ? a[0] : a[1];
      }
      case H_copysign: {
        bool sn = a[1].e ? Decide(X.RLt0(ToReal(a[1]))) : std::signbit(BitsD(a[1].c));
        if (!a[0].e) {
          double d = BitsD(a[0].c);
          return Val(DBits(std::copysign(d, sn ? -1.0 : 1.0)));
        }
        E x = ToReal(a[0]);
        bool xn = Decide(X.RLt0(x));
        return sn == xn ? a[0] : FromE(X.RNeg(x));
      }
      case H_hypot: {
        E x = ToReal(a[0]), y = ToReal(a[1]);
        return RealSqrt(FromE(X.RAdd(X.RMul(x, x), X.RMul(y, y))), 2);
      }
      case H_pow:
        if (!a[1].e) {
          double p = BitsD(a[1].c);
          if (p == std::trunc(p) && std::abs(p) <= 16) {
            E r = X.RConst(1), x = ToReal(a[0]);
            for (int i = 0; i < std::abs((int)p); ++i) r = X.RMul(r, x);
            return p < 0 ? RealDiv(Val(DBits(1.0)), FromE(r)) : FromE(r);
          }
          if (p == 0.5) return RealSqrt(a[0], 2);
          if (p == 1.0 / 3) return RealSqrt(a[0], 3);
        }
        throw Unsupported{"pow of reals"};
      case H_exp: return FromE(real_exp(ToReal(a[0])));
      case H_log: return real_log(ToReal(a[0]));
      case H_sinh: case H_cosh: case H_tanh: {
        E e = real_exp(ToReal(a[0])), i = X.RDiv(X.RConst(1), e);
        E s = X.RSub(e, i), c = X.RAdd(e, i);
        if (h == H_tanh) return FromE(X.RDiv(s, c));
        return FromE(X.RMul(X.RConst(mpq_class(1, 2)), h == H_sinh ? s : c));
      }
      case H_asinh: case H_acosh: {
        E x = ToReal(a[0]), one = X.RConst(1);
        if (h == H_acosh) {
          if (sqrt_domain_) {
            if (Decide(X.RLt(x, one))) return Val(DBits(NAN));
          } else {
            assumptions.insert("arguments of acosh are at least 1");
            if (!Assume(X.RLe(one, x))) throw Terminate{};
          }
        }
        bool domain = sqrt_domain_;
        sqrt_domain_ = false;
        Val y = RealSqrt(FromE(h == H_asinh ? X.RAdd(X.RMul(x, x), one) : X.RSub(X.RMul(x, x), one)), 2);
        sqrt_domain_ = domain;
        return real_log(X.RAdd(x, ToReal(y)));
      }
      case H_atanh: {
        E x = ToReal(a[0]), one = X.RConst(1);
        Val l = real_log(X.RDiv(X.RAdd(one, x), X.RSub(one, x)));
        return FromE(X.RMul(X.RConst(mpq_class(1, 2)), ToReal(l)));
      }
      case H_log2: return unary_real("log2", a[0]);
      case H_log10: return unary_real("log10", a[0]);
      case H_exp2: return unary_real("exp2", a[0]);
      default: throw Unsupported{"math function in real mode"};
    }
  };
  auto lmath = [&](int h) -> Val {
    if (args[0].agg) {
      std::vector<Val> v;
      for (size_t i = 0; i < args[0].agg->size(); ++i) {
        std::vector<Val> a;
        for (auto& x : args) a.push_back((*x.agg)[i]);
        v.push_back(fmath(h, a));
      }
      return MkAgg(v);
    }
    return fmath(h, args);
  };

  switch (f->handler) {
    case H_NONE: break;
    case H_vf_bits: {
      std::string n = uniq(CString(args[0].c));
      unsigned w = (unsigned)args[1].c;
      E e = X.Var(n, w);
      S->inputs.push_back({n, e, 0, false});
      ret = FromE(X.ZExt(e, 64));
      return true;
    }
    case H_vf_double: case H_vf_real: case H_vf_angle: {
      // All of them may be re-executed after a fork only through Assume,
      // which does not fork.
      std::string n = uniq(CString(args[0].c));
      E e = opt.real ? X.RVar(n) : X.Var(n, 64);
      S->inputs.push_back({n, e, 0, true});
      if (f->handler == H_vf_real) {
        double lo = BitsD(args[1].c), hi = BitsD(args[2].c);
        if (opt.real) {
          bounds_[e->aux] = std::max(std::abs(lo), std::abs(hi));
          Assume(X.RLe(X.RConstD(lo), e));
          Assume(X.RLe(e, X.RConstD(hi)));
        } else {
          Assume(X.FOp(K::FOle, 1, X.Const(DBits(lo), 64), e));
          Assume(X.FOp(K::FOle, 1, e, X.Const(DBits(hi), 64)));
        }
      } else if (f->handler == H_vf_angle) {
        bounds_[e->aux] = 3.1415926535897936;
        angles_.insert(e->aux);
        vf_angles_.insert(e->aux);
      }
      ret = Val(e);
      return true;
    }
    case H_vf_assume: {
      Val c = args[0];
      if (!c.e) {
        if (!(c.c & 1) && c.c == 0) throw Terminate{};
        return true;
      }
      E e = c.e;
      if (e->w > 1) e = X.Not(X.Eq(e, X.Const(0, e->w)));
      if (!Assume(e)) throw Terminate{};
      return true;
    }
    case H_vf_assume_eq: {
      if (!args[0].e && !args[1].e) {
        if (BitsD(args[0].c) != BitsD(args[1].c)) throw Terminate{};
        return true;
      }
      if (!opt.real) {
        if (!Assume(X.FOp(K::FOeq, 1, ToE(args[0], 64), ToE(args[1], 64)))) throw Terminate{};
        return true;
      }
      E d = X.RSub(ToReal(args[0]), ToReal(args[1]));
      // As a rewriting rule: a variable with a constant-coefficient power as
      // its only occurrence.
      const RF* nf = P.nf(d);
      if (nf && nf->num.zero()) return true;
      bool ruled = false;
      if (nf && nf->den.empty()) {
        for (auto const& [m, c] : nf->num.t) {
          auto const& mv = P.monos[m].v;
          if (mv.size() != 1 || P.HasRule(mv[0].first)) continue;
          uint32_t v = mv[0].first, n = mv[0].second;
          if (X.vars[v].special != VarInfo::None) continue;
          bool only = true;
          for (auto const& [m2, c2] : nf->num.t) {
            if (m2 == m) continue;
            for (auto const& [v2, e2] : P.monos[m2].v)
              if (v2 == v) only = false;
          }
          if (!only || n > 4) continue;
          Poly rest;
          for (auto const& [m2, c2] : nf->num.t)
            if (m2 != m) rest.t.push_back({m2, -c2 / c});
          E z = X.REq0(d);
          if (!Assume(z)) throw Terminate{};
          P.AddRule(v, n, rest, false);
          if (S->forked) {
            S->rules.push_back({v, n, rest});
            installed_.push_back(v);
            SetRuleSignature();
          }
          ruled = true;
          break;
        }
      }
      if (!ruled) {
        if (!Assume(X.REq0(d))) throw Terminate{};
      }
      return true;
    }
    case H_vf_check: {
      std::string id = CString(args[1].c);
      Val c = args[0];
      E e = c.e ? c.e : X.Const(c.c != 0, 1);
      if (e->w > 1) e = X.Not(X.Eq(e, X.Const(0, e->w)));
      CheckCond(e, id);
      return true;
    }
    case H_vf_near: {
      CheckNear(args[0], args[1], BitsD(args[2].c), CString(args[3].c));
      return true;
    }
    case H_vf_reach: {
      auto& st = checks[CString(args[0].c)];
      ++st.reached;
      ++st.proved;
      return true;
    }
    case H_vf_choose: {
      uint64_t n = Concrete(args[0], 32) & 0xffffffff;
      std::string nm = uniq(CString(args[1].c));
      for (uint64_t i = n; i-- > 1;) {
        auto c = std::make_unique<State>(*S);
        c->id = next_state_++;
        c->forked = true;
        c->inputs.push_back({nm, nullptr, i, false});
        setret(*c, Val(i));
        ++forks;
        work_.push_back(std::move(c));
      }
      if (n > 1) S->forked = true;
      if (n == 0) throw Terminate{};
      S->inputs.push_back({nm, nullptr, 0, false});
      setret(*S, Val((uint64_t)0));
      pushed = true;
      return true;
    }
    case H_vf_observe:
      S->obs.push_back({CString(args[0].c), args[1], false});
      return true;
    case H_vf_observe_d:
      S->obs.push_back({CString(args[0].c), args[1], true});
      return true;
    case H_vf_is_engine: ret = Val((uint64_t)1); return true;
    case H_vf_real_mode: ret = Val((uint64_t)opt.real); return true;
    case H_vf_is_symbolic: ret = Val((uint64_t)(args[0].e != nullptr)); return true;
    case H_vf_angle_denominator: angle_den_ = args[0].c; return true;
    case H_vf_sqrt_domain: sqrt_domain_ = args[0].c; return true;
    case H_vf_abort_ok: S->abort_ok = args[0].c & 1; return true;
    case H_vf_silent_exit: throw Terminate{};
    case H_vf_note: assumptions.insert(CString(args[0].c)); return true;
    case H_vf_fail: {
      CheckCond(X.False(), CString(args[0].c));
      throw Terminate{};
    }
    case H_vf_check_failed: {
      std::string s = CString(args[0].c);
      throw PathViolation{"abort", "CHECK failed: " + s};
    }
    case H_vf_concretize: ret = Val(Concrete(args[0], 64)); return true;
    case H_abort: throw PathViolation{"abort", f->name};
    case H_throw: throw PathViolation{"abort", "exception thrown"};
    case H_vf_thread_create: {
      Thread t;
      uint64_t a = Concrete(args[0], 64);
      auto it = byaddr_.find(a);
      if (it == byaddr_.end()) throw Unsupported{"thread entry"};
      KFunc* kf = it->second;
      if (!kf->prepared) Prepare(kf);
      if (kf->visits++ == 0) functions_seen.insert(kf);
      auto fr = std::make_shared<Frame>();
      fr->f = kf;
      fr->regs.resize(kf->nregs);
      fr->regs[0] = args[1];
      t.stack.push_back(fr);
      S->threads.push_back(t);
      uint64_t id = S->threads.size() - 1;
      setret(*S, Val(id));
      Schedule(false);
      pushed = true;
      return true;
    }
    case H_vf_thread_self: ret = Val((uint64_t)S->cur); return true;
    case H_vf_thread_done:
      ret = Val((uint64_t)S->threads[args[0].c].done);
      return true;
    case H_vf_thread_exit: {
      S->th().stack.clear();
      S->th().done = true;
      if (S->cur != 0) Schedule(true);
      pushed = true;
      return true;
    }
    case H_vf_block_on: case H_vf_block_on_timed: {
      S->th().timed = f->handler == H_vf_block_on_timed;
      // Blocks while *(int*)args[0] == args[1].
      setret(*S, Val((uint64_t)0));
      S->th().blocked = true;
      S->th().block_addr = args[0].c;
      S->th().block_val = args[1].c & 0xffffffff;
      Schedule(false);
      pushed = true;
      return true;
    }
    case H_vf_sleep: {
      setret(*S, Val((uint64_t)0));
      if (S->threads.size() > 1) Schedule(false, true);
      pushed = true;
      return true;
    }
    case H_vf_yield: {
      setret(*S, Val((uint64_t)0));
      if (S->threads.size() > 1) Schedule(false);
      pushed = true;
      return true;
    }
    case H_malloc: case H_aligned_alloc: case H_calloc: {
      uint64_t n = Concrete(args[0], 64);
      if (f->handler == H_aligned_alloc) n = Concrete(args[1], 64);
      if (f->handler == H_calloc) n *= Concrete(args[1], 64);
      if (n >= (1ull << kShift) - 4096) {
        if (f->name[0] == '_') throw PathViolation{"memory", "allocation of absurd size"};
        ret = Val((uint64_t)0);
        return true;
      }
      MemObj* o = S->mem.alloc(n, MemObj::Heap, "heap block");
      if (f->handler == H_calloc) std::fill(o->data.begin(), o->data.end(), 0);
      ret = Val(o->base);
      return true;
    }
    case H_posix_memalign: {
      uint64_t n = Concrete(args[2], 64);
      MemObj* o = S->mem.alloc(n, MemObj::Heap, "heap block");
      uint64_t b = o->base;
      Store(PointerType::get(M.getContext(), 0), Val(b), args[0]);
      ret = Val((uint64_t)0);
      return true;
    }
    case H_realloc: {
      uint64_t p = args[0].c, n = Concrete(args[1], 64);
      MemObj* o = S->mem.alloc(n, MemObj::Heap, "heap block");
      uint64_t b = o->base;
      if (p) {
        uint64_t off;
        MemObj const* old = Obj(p, 0, false, off);
        MemCopy(b, p, std::min(n, old->size));
        S->mem.write(p >> kShift)->freed = true;
      }
      ret = Val(b);
      return true;
    }
    case H_free: {
      uint64_t p = Concrete(args[0], 64);
      if (p == 0) return true;
      MemObj const* o = S->mem.get(p >> kShift);
      if (!o || o->base != p || o->kind != MemObj::Heap)
        throw PathViolation{"memory", "free of a pointer that was not allocated"};
      if (o->freed) throw PathViolation{"memory", "double free"};
      MemObj* w = S->mem.write(p >> kShift);
      w->freed = true;
      w->data.clear();
      w->data.shrink_to_fit();
      w->sym.reset();
      return true;
    }
    case H_malloc_usable_size: {
      uint64_t off;
      ret = Val(Obj(args[0].c, 0, false, off)->size);
      return true;
    }
    case H_memcpy: case H_memmove: {
      uint64_t n = Concrete(args[2], 64);
      MemCopy(Concrete(args[0], 64), Concrete(args[1], 64), n);
      ret = args[0];
      return true;
    }
    case H_memset: {
      uint64_t n = Concrete(args[2], 64);
      uint64_t d = Concrete(args[0], 64), off;
      if (n) {
        MemObj const* o = Obj(d, n, true, off);
        MemObj* w = S->mem.write(o->base >> kShift);
        Val b = args[1].e ? FromE(X.Extract(args[1].e, 0, 8)) : Val(args[1].c & 0xff);
        for (uint64_t i = 0; i < n; ++i) StoreScalar(w, off + i, 1, b, 8);
      }
      ret = args[0];
      return true;
    }
    case H_memcmp: {
      uint64_t n = Concrete(args[2], 64);
      if (n == 0) {
        ret = Val((uint64_t)0);
        return true;
      }
      uint64_t ao, bo, a = Concrete(args[0], 64), b = Concrete(args[1], 64);
      MemObj const* oa = Obj(a, n, false, ao);
      MemObj const* ob = Obj(b, n, false, bo);
      E r = X.Const(0, 32);
      for (uint64_t i = n; i-- > 0;) {
        E x = ToE(LoadScalar(oa, ao + i, 1, 8), 8), y = ToE(LoadScalar(ob, bo + i, 1, 8), 8);
        if (f->name == "bcmp")
          r = X.Ite(X.Eq(x, y), r, X.Const(1, 32));
        else
          r = X.Ite(X.Eq(x, y), r, X.Ite(X.Ult(x, y), X.Const(~0u, 32), X.Const(1, 32)));
      }
      ret = FromE(r);
      return true;
    }
    case H_memchr: {
      uint64_t p = Concrete(args[0], 64), n = Concrete(args[2], 64);
      E c = X.Extract(ToE(args[1], 32), 0, 8);
      for (uint64_t i = 0; i < n; ++i) {
        uint64_t off;
        MemObj const* o = Obj(p + i, 1, false, off);
        if (Decide(X.Eq(ToE(LoadScalar(o, off, 1, 8), 8), c))) {
          ret = Val(p + i);
          return true;
        }
      }
      ret = Val((uint64_t)0);
      return true;
    }
    case H_strlen: {
      uint64_t p = Concrete(args[0], 64), n = 0;
      for (;; ++n) {
        uint64_t off;
        MemObj const* o = Obj(p + n, 1, false, off);
        Val v = LoadScalar(o, off, 1, 8);
        if (!v.e) {
          if (v.c == 0) break;
          continue;
        }
        if (Decide(X.Eq(v.e, X.Const(0, 8)))) break;
      }
      ret = Val(n);
      return true;
    }
    case H_nothing: return true;
    case H_zero: ret = Val((uint64_t)0); return true;
    case H_ldexp: case H_scalbn: {
      if (!args[0].e && !args[1].e) {
        ret = Val(DBits(std::ldexp(BitsD(args[0].c), (int)args[1].c)));
        return true;
      }
      if (opt.real) {
        int n = (int)Concrete(args[1], 32);
        ret = FromE(X.RMul(ToReal(args[0]), X.RConstD(std::ldexp(1.0, n))));
        return true;
      }
      throw Unsupported{"ldexp"};
    }
    case H_ilogb:
      if (args[0].e) throw Unsupported{"ilogb"};
      ret = Val((uint64_t)(uint32_t)std::ilogb(BitsD(args[0].c)));
      return true;
    case H_lround: case H_llround: case H_lrint: {
      Val r = fmath(f->handler == H_lrint ? H_rint : H_round, {args[0]});
      ret = Cast(Instruction::FPToSI, DT, rt, r);
      return true;
    }
    case H_frexp: case H_modf: throw Unsupported{"frexp"};
    default:
      if (f->handler >= H_sqrt && f->handler <= H_nextafter) {
        // Math functions may fork: everything happens before the assignment.
        Type* save = ft;
        if (ft->isVoidTy()) ft = DT;
        ret = lmath(f->handler);
        ft = save;
        return true;
      }
      return false;
  }

  // LLVM intrinsics.
  if (f->F->isIntrinsic()) {
    unsigned w = ft->isIntegerTy() ? ft->getIntegerBitWidth() : 0;
    auto ovf = [&](unsigned op, bool sgn) {
      Type* t = cast<StructType>(rt)->getElementType(0);
      if (t->isVectorTy()) throw Unsupported{"vector overflow"};
      unsigned n = t->getIntegerBitWidth();
      Val r = BinOp(op, t, args[0], args[1]);
      E a = ToE(args[0], n), b = ToE(args[1], n);
      if (n > 64) throw Unsupported{"wide overflow"};
      unsigned nn = op == Instruction::Mul ? 2 * n : n + 1;
      E xa = sgn ? X.SExt(a, nn) : X.ZExt(a, nn), xb = sgn ? X.SExt(b, nn) : X.ZExt(b, nn);
      K kk = op == Instruction::Add ? K::Add : op == Instruction::Sub ? K::Sub : K::Mul;
      E full = X.Bin(kk, xa, xb);
      E rr = X.Extract(full, 0, n);
      E o = X.Not(X.Eq(sgn ? X.SExt(rr, nn) : X.ZExt(rr, nn), full));
      ret = MkAgg({r, FromE(o)});
    };
    auto minmax = [&](unsigned pred) {
      Type* t = ft;
      ret = Lanewise2(args[0], args[1], [&](Val const& a, Val const& b) {
        Val c = ICmp(pred, t, a, b);
        if (!c.e) return c.c ? a : b;
        return FromE(X.Ite(c.e, ToE(a, w), ToE(b, w)));
      });
    };
    switch (f->F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        uint64_t n = Concrete(args[2], 64);
        MemCopy(Concrete(args[0], 64), Concrete(args[1], 64), n);
        return true;
      }
      case Intrinsic::memset: {
        uint64_t n = Concrete(args[2], 64);
        uint64_t d = Concrete(args[0], 64), off;
        if (n == 0) return true;
        MemObj const* o = Obj(d, n, true, off);
        MemObj* wo = S->mem.write(o->base >> kShift);
        if (!args[1].e) {
          wo->version = ++version_;
          memset(&wo->data[off], (int)args[1].c, n);
          if (wo->sym)
            for (uint64_t i = 0; i < n; ++i) (*wo->sym)[off + i].e = nullptr;
        } else {
          for (uint64_t i = 0; i < n; ++i) StoreScalar(wo, off + i, 1, args[1], 8);
        }
        return true;
      }
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
      case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::var_annotation:
      case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::invariant_end: case Intrinsic::stackrestore:
      case Intrinsic::sideeffect: case Intrinsic::dbg_value: case Intrinsic::dbg_declare:
        return true;
      case Intrinsic::invariant_start: case Intrinsic::stacksave:
        ret = Val((uint64_t)0);
        return true;
      case Intrinsic::expect: case Intrinsic::expect_with_probability:
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
      case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: case Intrinsic::canonicalize:
      case Intrinsic::arithmetic_fence:
        ret = args[0];
        return true;
      case Intrinsic::threadlocal_address: {
        ret = args[0];
        if (S->cur == 0) return true;
        auto key = std::make_pair(S->cur, (uint64_t)args[0].c);
        auto it = S->tls.find(key);
        if (it == S->tls.end()) {
          auto* g = dyn_cast<GlobalVariable>(cast<CallBase>(k.I)->getArgOperand(0));
          if (!g || !g->hasInitializer()) throw Unsupported{"thread-local variable"};
          MemObj* o = S->mem.alloc((uint64_t)DL.getTypeAllocSize(g->getValueType()), MemObj::Global, g->getName().str());
          InitObject(*S, o, g->getInitializer(), 0);
          it = S->tls.emplace(key, o->base).first;
        }
        ret = Val(it->second);
        return true;
      }
      case Intrinsic::is_constant: ret = Val((uint64_t)0); return true;
      case Intrinsic::objectsize: ret = Val(args[1].c & 1 ? (uint64_t)0 : ~0ull); return true;
      case Intrinsic::trap: case Intrinsic::debugtrap:
        throw PathViolation{"abort", "trap"};
      case Intrinsic::ubsantrap:
        throw PathViolation{"undefined", "undefined behaviour (sanitizer trap " +
                                             std::to_string(args[0].c) + ")"};
      case Intrinsic::uadd_with_overflow: ovf(Instruction::Add, false); return true;
      case Intrinsic::sadd_with_overflow: ovf(Instruction::Add, true); return true;
      case Intrinsic::usub_with_overflow: ovf(Instruction::Sub, false); return true;
      case Intrinsic::ssub_with_overflow: ovf(Instruction::Sub, true); return true;
      case Intrinsic::umul_with_overflow: ovf(Instruction::Mul, false); return true;
      case Intrinsic::smul_with_overflow: ovf(Instruction::Mul, true); return true;
      case Intrinsic::umax: minmax(CmpInst::ICMP_UGT); return true;
      case Intrinsic::umin: minmax(CmpInst::ICMP_ULT); return true;
      case Intrinsic::smax: minmax(CmpInst::ICMP_SGT); return true;
      case Intrinsic::smin: minmax(CmpInst::ICMP_SLT); return true;
      case Intrinsic::ucmp: case Intrinsic::scmp: {
        bool sg = f->F->getIntrinsicID() == Intrinsic::scmp;
        Type* at = f->F->getFunctionType()->getParamType(0);
        Val lt = ICmp(sg ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, at, args[0], args[1]);
        Val gt = ICmp(sg ? CmpInst::ICMP_SGT : CmpInst::ICMP_UGT, at, args[0], args[1]);
        E r = X.Ite(ToE(lt, 1), X.Const(~(u128)0, w), X.ZExt(ToE(gt, 1), w));
        ret = FromE(r);
        return true;
      }
      case Intrinsic::usub_sat: {
        ret = Lanewise2(args[0], args[1], [&](Val const& a, Val const& b) {
          E x = ToE(a, w), y = ToE(b, w);
          return FromE(X.Ite(X.Ult(x, y), X.Const(0, w), X.Sub(x, y)));
        });
        return true;
      }
      case Intrinsic::uadd_sat: {
        ret = Lanewise2(args[0], args[1], [&](Val const& a, Val const& b) {
          E x = ToE(a, w), y = ToE(b, w);
          E s = X.Add(x, y);
          return FromE(X.Ite(X.Ult(s, x), X.Const(~(u128)0, w), s));
        });
        return true;
      }
      case Intrinsic::abs:
        ret = Lanewise(args[0], [&](Val const& a) {
          if (!a.e) {
            int64_t v = (int64_t)SExtTo(a.c, w);
            return Val((v < 0 ? (uint64_t)0 - (uint64_t)v : (uint64_t)v) & Mask64(w));
          }
          return FromE(X.Ite(X.Slt(a.e, X.Const(0, w)), X.Sub(X.Const(0, w), a.e), a.e));
        });
        return true;
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:
      case Intrinsic::bswap: case Intrinsic::bitreverse: {
        auto id = f->F->getIntrinsicID();
        ret = Lanewise(args[0], [&](Val const& a) -> Val {
          E x = ToE(a, w);
          if (id == Intrinsic::ctpop) {
            E s = X.Const(0, w);
            for (unsigned i = 0; i < w; ++i) s = X.Add(s, X.ZExt(X.Extract(x, i, 1), w));
            return FromE(s);
          }
          if (id == Intrinsic::ctlz) {
            E s = X.Const(w, w);
            for (unsigned i = 0; i < w; ++i)
              s = X.Ite(X.Extract(x, i, 1), X.Const(w - 1 - i, w), s);
            return FromE(s);
          }
          if (id == Intrinsic::cttz) {
            E s = X.Const(w, w);
            for (unsigned i = w; i-- > 0;) s = X.Ite(X.Extract(x, i, 1), X.Const(i, w), s);
            return FromE(s);
          }
          E r = nullptr;
          unsigned step = id == Intrinsic::bswap ? 8 : 1;
          for (unsigned i = 0; i < w; i += step) {
            E b = X.Extract(x, i, step);
            r = r ? X.Concat(r, b) : b;
          }
          return FromE(r);
        });
        return true;
      }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        bool left = f->F->getIntrinsicID() == Intrinsic::fshl;
        if (args[0].agg) throw Unsupported{"vector fshl"};
        E a = ToE(args[0], w), b = ToE(args[1], w), s = ToE(args[2], w);
        s = X.Bin(K::URem, s, X.Const(w, w));
        E n = X.Sub(X.Const(w, w), s);
        E r = left ? X.OrB(X.Bin(K::Shl, a, s), X.Bin(K::LShr, b, n))
                   : X.OrB(X.Bin(K::Shl, a, n), X.Bin(K::LShr, b, s));
        ret = FromE(r);
        return true;
      }
      case Intrinsic::sqrt: ret = lmath(H_sqrt); return true;
      case Intrinsic::fabs: ret = lmath(H_fabs); return true;
      case Intrinsic::floor: ret = lmath(H_floor); return true;
      case Intrinsic::ceil: ret = lmath(H_ceil); return true;
      case Intrinsic::trunc: ret = lmath(H_trunc); return true;
      case Intrinsic::round: ret = lmath(H_round); return true;
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven:
        ret = lmath(H_rint);
        return true;
      case Intrinsic::copysign: ret = lmath(H_copysign); return true;
      case Intrinsic::minnum: ret = lmath(H_fmin); return true;
      case Intrinsic::maxnum: ret = lmath(H_fmax); return true;
      case Intrinsic::fma: ret = lmath(H_fma); return true;
      case Intrinsic::fmuladd: {
        // The project compiles with -ffp-contract=off; not expected.
        ret = FBin(Instruction::FAdd, rt, FBin(Instruction::FMul, rt, args[0], args[1]), args[2]);
        return true;
      }
      case Intrinsic::pow: ret = lmath(H_pow); return true;
      case Intrinsic::sin: ret = lmath(H_sin); return true;
      case Intrinsic::cos: ret = lmath(H_cos); return true;
      case Intrinsic::exp: ret = lmath(H_exp); return true;
      case Intrinsic::log: ret = lmath(H_log); return true;
      case Intrinsic::exp2: ret = lmath(H_exp2); return true;
      case Intrinsic::log2: ret = lmath(H_log2); return true;
      case Intrinsic::log10: ret = lmath(H_log10); return true;
      case Intrinsic::ldexp: {
        if (!args[0].e && !args[1].e) {
          ret = Val(DBits(std::ldexp(BitsD(args[0].c), (int)args[1].c)));
          return true;
        }
        if (opt.real) {
          int n = (int)Concrete(args[1], 32);
          ret = FromE(X.RMul(ToReal(args[0]), X.RConstD(std::ldexp(1.0, n))));
          return true;
        }
        throw Unsupported{"ldexp"};
      }
      case Intrinsic::powi: {
        int n = (int)Concrete(args[1], 32);
        if (!args[0].e) {
          ret = Val(DBits(std::pow(BitsD(args[0].c), n)));
          return true;
        }
        ret = fmath(H_pow, {args[0], Val(DBits(n))});
        return true;
      }
      case Intrinsic::lround: case Intrinsic::llround: case Intrinsic::lrint:
      case Intrinsic::llrint: {
        ft = DT;
        bool ri = f->F->getIntrinsicID() == Intrinsic::lrint || f->F->getIntrinsicID() == Intrinsic::llrint;
        Val r = fmath(ri ? H_rint : H_round, {args[0]});
        ret = Cast(Instruction::FPToSI, DT, rt, r);
        return true;
      }
      case Intrinsic::is_fpclass: {
        unsigned mask = (unsigned)args[1].c;
        Type* at = f->F->getFunctionType()->getParamType(0);
        if (args[0].e && args[0].e->real) {
          // Finite.  Normal or zero.
          bool neg = Decide(X.RLt0(args[0].e));
          bool zero = !neg && Decide(X.REq0(args[0].e));
          bool r = zero ? mask & fcPosZero : neg ? mask & fcNegNormal : mask & fcPosNormal;
          ret = Val((uint64_t)r);
          return true;
        }
        unsigned n = at->getPrimitiveSizeInBits();
        unsigned mb = n == 64 ? 52 : 23;
        E x = ToE(args[0], n);
        E ex = X.Extract(x, mb, n - 1 - mb), ma = X.Extract(x, 0, mb), sg = X.Extract(x, n - 1, 1);
        E e0 = X.Eq(ex, X.Const(0, ex->w)), e1 = X.Eq(ex, X.Const(~(u128)0, ex->w));
        E m0 = X.Eq(ma, X.Const(0, ma->w)), q = X.Extract(ma, mb - 1, 1);
        E r = X.False();
        auto add = [&](unsigned bit, E c) {
          if (mask & bit) r = X.OrB(r, c);
        };
        E nan = X.AndB(e1, X.Not(m0)), inf = X.AndB(e1, m0), zer = X.AndB(e0, m0),
          sub = X.AndB(e0, X.Not(m0)), nor = X.AndB(X.Not(e0), X.Not(e1));
        add(fcSNan, X.AndB(nan, X.Not(q)));
        add(fcQNan, X.AndB(nan, q));
        add(fcNegInf, X.AndB(sg, inf));
        add(fcPosInf, X.AndB(X.Not(sg), inf));
        add(fcNegZero, X.AndB(sg, zer));
        add(fcPosZero, X.AndB(X.Not(sg), zer));
        add(fcNegSubnormal, X.AndB(sg, sub));
        add(fcPosSubnormal, X.AndB(X.Not(sg), sub));
        add(fcNegNormal, X.AndB(sg, nor));
        add(fcPosNormal, X.AndB(X.Not(sg), nor));
        ret = FromE(r);
        return true;
      }
      case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: {
        bool sg = f->F->getIntrinsicID() == Intrinsic::fptosi_sat;
        ret = Cast(sg ? Instruction::FPToSI : Instruction::FPToUI,
                   f->F->getFunctionType()->getParamType(0), rt, args[0]);
        return true;
      }
      case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul:
      case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or:
      case Intrinsic::vector_reduce_xor: {
        unsigned op;
        switch (f->F->getIntrinsicID()) {
          case Intrinsic::vector_reduce_add: op = Instruction::Add; break;
          case Intrinsic::vector_reduce_mul: op = Instruction::Mul; break;
          case Intrinsic::vector_reduce_and: op = Instruction::And; break;
          case Intrinsic::vector_reduce_or: op = Instruction::Or; break;
          default: op = Instruction::Xor;
        }
        Val r = (*args[0].agg)[0];
        for (size_t i = 1; i < args[0].agg->size(); ++i) r = BinOp(op, rt, r, (*args[0].agg)[i]);
        ret = r;
        return true;
      }
      case Intrinsic::eh_typeid_for: ret = Val((uint64_t)1); return true;
      case Intrinsic::returnaddress: case Intrinsic::frameaddress:
        ret = Val((uint64_t)0);
        return true;
      case Intrinsic::load_relative: break;
      default: break;
    }
    std::string n = f->name;
    auto starts = [&](char const* p) { return n.rfind(p, 0) == 0; };
    if (n == "llvm.x86.sse41.dppd") {
      unsigned imm = (unsigned)args[2].c;
      Val s(DBits(0.0));
      bool any = false;
      for (int i = 0; i < 2; ++i)
        if (imm & (16u << i)) {
          Val p = FBin(Instruction::FMul, DT, (*args[0].agg)[i], (*args[1].agg)[i]);
          s = any ? FBin(Instruction::FAdd, DT, s, p) : p;
          any = true;
        }
      std::vector<Val> v;
      for (int i = 0; i < 2; ++i) v.push_back(imm & (1u << i) ? s : Val(DBits(0.0)));
      ret = MkAgg(v);
      return true;
    }
    if (starts("llvm.x86.sse2.cmp.sd") || starts("llvm.x86.sse2.cmp.pd")) {
      static unsigned const preds[] = {CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE,
                                       CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE,
                                       CmpInst::FCMP_UGT, CmpInst::FCMP_ORD};
      std::vector<Val> v = *args[0].agg;
      size_t lanes = n.find(".sd") != std::string::npos ? 1 : 2;
      for (size_t i = 0; i < lanes; ++i) {
        Val c = FCmp(preds[args[2].c & 7], DT, (*args[0].agg)[i], (*args[1].agg)[i]);
        v[i] = c.e ? FromE(X.SExt(c.e, 64)) : Val(c.c ? ~0ull : 0ull);
      }
      ret = MkAgg(v);
      return true;
    }
    if (starts("llvm.x86.sse2.min.") || starts("llvm.x86.sse2.max.")) {
      bool mn = n.find(".min.") != std::string::npos;
      std::vector<Val> v = *args[0].agg;
      size_t lanes = n.find(".sd") != std::string::npos ? 1 : 2;
      for (size_t i = 0; i < lanes; ++i) {
        Val const& a = (*args[0].agg)[i];
        Val const& b = (*args[1].agg)[i];
        Val c = FCmp(mn ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, DT, a, b);
        v[i] = Select(c, a, b, DT);
      }
      ret = MkAgg(v);
      return true;
    }
    if (n == "llvm.x86.sse2.movmsk.pd") {
      E r = X.Const(0, 32);
      for (int i = 0; i < 2; ++i) {
        Val const& a = (*args[0].agg)[i];
        E b;
        if (a.e && a.e->real) b = X.Const(Decide(X.RLt0(a.e)), 1);
        else b = X.Extract(ToE(a, 64), 63, 1);
        r = X.OrB(r, X.Bin(K::Shl, X.ZExt(b, 32), X.Const(i, 32)));
      }
      ret = FromE(r);
      return true;
    }
    if (starts("llvm.x86.sse41.round.sd") || starts("llvm.x86.sse41.round.pd")) {
      bool sd = n.find(".sd") != std::string::npos;
      unsigned imm = (unsigned)args[sd ? 2 : 1].c & 3;
      int h = imm == 0 ? H_rint : imm == 1 ? H_floor : imm == 2 ? H_ceil : H_trunc;
      ft = DT;
      Val src = sd ? args[1] : args[0];
      std::vector<Val> v = *args[0].agg;
      for (size_t i = 0; i < (sd ? 1u : 2u); ++i) v[i] = fmath(h, {(*src.agg)[i]});
      ret = MkAgg(v);
      return true;
    }
    if (n == "llvm.x86.sse2.cvtsd2si64" || n == "llvm.x86.sse2.cvtsd2si" ||
        n == "llvm.x86.sse2.cvttsd2si64" || n == "llvm.x86.sse2.cvttsd2si") {
      ft = DT;
      Val a = (*args[0].agg)[0];
      if (n.find("cvtt") == std::string::npos) a = fmath(H_rint, {a});
      ret = Cast(Instruction::FPToSI, DT, rt, a);
      return true;
    }
    return false;
  }
  if (f->name.rfind("_ZN9principia8numerics", 0) == 0) return false;
  return false;
}
