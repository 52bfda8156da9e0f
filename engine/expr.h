// Hash-consed expression DAG (bit-vectors, IEEE floats over bit-vectors, exact
// reals) plus a polynomial/rational normal form for the real sort.
#pragma once
#include <gmpxx.h>

#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace vf {

using u128 = unsigned __int128;
using i128 = __int128;

enum class K : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle,
  // IEEE floats, operands are bit-vectors of width 32 or 64.
  FAdd, FSub, FMul, FDiv, FRem, FSqrt, FFma, FOeq, FOlt, FOle, FUno,
  FToSI, FToUI, SIToF, UIToF, FCvt, FRound,
  // Uninterpreted function of aux (name index).
  UF,
  // Reals.
  RConst, RVar, RAdd, RMul, RDiv, REq0, RLt0, RLe0,  // comparisons with zero
};

struct RF;  // rational function normal form

struct Expr {
  K k;
  bool real;
  uint16_t w;
  uint32_t aux;
  uint32_t id;
  uint8_t n;
  const Expr* a[3];
  u128 c;                 // Const
  const mpq_class* q;     // RConst
  const std::vector<uint32_t>* vs;  // sorted variable indices
  mutable const RF* nf = nullptr;
  mutable uint32_t nfgen = 0;
  mutable bool nffail = false;
};
using E = const Expr*;

inline u128 MaskW(unsigned w) {
  return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}
inline i128 SExtTo(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= MaskW(w);
  return (i128)((v ^ s) - s);
}

struct VarInfo {
  std::string name;
  bool real;
  uint16_t w;
  // Special real variables.
  enum Special { None, Root, Cos, Sin, FromBV, Atan2, Fn } special = None;
  std::string fn;
  E arg2 = nullptr;
  E arg = nullptr;   // Root: radicand (real); FromBV: bit-vector.
  uint32_t n = 0;    // Root order; or the index of the partner variable.
  bool arg_signed = true;
  E e = nullptr;
};

struct Model {
  std::vector<u128> bv;
  std::vector<double> re;
  std::vector<uint8_t> has;
  std::map<std::string, std::string> uf;
};

struct Ctx {
  std::vector<VarInfo> vars;
  std::vector<std::string> ufs;

  E Const(u128 v, unsigned w);
  E True() { return Const(1, 1); }
  E False() { return Const(0, 1); }
  E Var(std::string const& name, unsigned w);
  E RVar(std::string const& name, std::vector<uint32_t> const& extra = {});
  E RConst(mpq_class const& q);
  E RConstD(double d);

  E Bin(K k, E a, E b);
  E Add(E a, E b) { return Bin(K::Add, a, b); }
  E Sub(E a, E b) { return Bin(K::Sub, a, b); }
  E Eq(E a, E b);
  E Not(E a);
  E AndB(E a, E b) { return Bin(K::And, a, b); }
  E OrB(E a, E b) { return Bin(K::Or, a, b); }
  E Ult(E a, E b);
  E Ule(E a, E b);
  E Slt(E a, E b);
  E Sle(E a, E b);
  E Concat(E hi, E lo);
  E Extract(E a, unsigned off, unsigned w);
  E ZExt(E a, unsigned w);
  E SExt(E a, unsigned w);
  E Ite(E c, E a, E b);
  E FOp(K k, unsigned w, E a, E b = nullptr, E c = nullptr, uint32_t aux = 0);
  E UF(std::string const& name, unsigned w, E a, E b = nullptr, E c = nullptr);

  E RAdd(E a, E b);
  E RSub(E a, E b);
  E RNeg(E a);
  E RMul(E a, E b);
  E RDiv(E a, E b);
  E REq0(E a);
  E RLt0(E a);
  E RLe0(E a);
  E REq(E a, E b) { return REq0(RSub(a, b)); }
  E RLt(E a, E b) { return RLt0(RSub(a, b)); }
  E RLe(E a, E b) { return RLe0(RSub(a, b)); }
  E FromRF(const RF* f);
  E FromBV(E a, bool sgn);

  u128 umax(E e);
  bool DivRem(E a, u128 c, E& q, E& r);
  u128 Eval(E e, Model const& m);
  double EvalR(E e, Model const& m);
  void NewEval() { ++evgen; }
  uint64_t count() const { return n_; }
  std::string Str(E e, int depth = 6);

  // Rebuild with leaves replaced.
  E Rebuild(E e, std::vector<E> const& kids);

 private:
  E Mk(K k, unsigned w, bool real, uint32_t aux, E a, E b, E c, u128 v = 0,
       const mpq_class* q = nullptr);
  const std::vector<uint32_t>* Union(const std::vector<uint32_t>* a,
                                     const std::vector<uint32_t>* b);
  std::unordered_map<uint64_t, std::vector<Expr*>> table_;
  std::map<std::vector<uint32_t>, std::unique_ptr<std::vector<uint32_t>>> sets_;
  std::unordered_map<uint64_t, const std::vector<uint32_t>*> unions_;
  std::map<std::string, E> rconsts_;
  std::vector<u128> evval_;
  std::vector<uint32_t> evstamp_;
  std::vector<double> evvalr_;
  uint32_t evgen = 1;
  std::unordered_map<E, u128> umax_;
  uint64_t n_ = 0;
  friend struct Evaluator;
};

extern Ctx X;

// ---------------------------------------------------------------- polynomials
using MonoId = uint32_t;
struct Mono {
  std::vector<std::pair<uint32_t, uint32_t>> v;  // (var, exponent), sorted
  uint32_t deg = 0;
};
struct Poly {
  std::vector<std::pair<MonoId, mpq_class>> t;  // sorted by id; no zeros
  bool zero() const { return t.empty(); }
  bool isconst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
  mpq_class cst() const { return t.empty() ? mpq_class(0) : t[0].second; }
};
struct RF {
  Poly num;
  std::vector<std::pair<uint32_t, uint32_t>> den;  // (poly id, exponent)
};

struct PolyCtx {
  std::vector<Mono> monos;
  std::vector<Poly> polys;  // interned (denominator factors)
  uint32_t gen = 1;
  size_t limit = 30000;

  PolyCtx();
  MonoId mono(Mono const& m);
  MonoId mul(MonoId a, MonoId b);
  Poly cst(mpq_class const& q);
  Poly var(uint32_t v);
  Poly add(Poly const& a, Poly const& b, mpq_class const& kb = 1);
  bool mul(Poly const& a, Poly const& b, Poly& out);
  Poly scale(Poly const& a, mpq_class const& k);
  bool divexact(Poly const& a, Poly const& b, Poly& q);
  bool sqrt(Poly const& a, Poly& r);
  uint32_t intern(Poly const& p);
  bool less(MonoId a, MonoId b);  // admissible order
  MonoId lead(Poly const& p);
  // Rule: var^n -> poly.
  void AddRule(uint32_t var, uint32_t n, Poly const& p, bool fresh);
  void RemoveRule(uint32_t var);
  bool HasRule(uint32_t var) const { return rules.count(var); }
  std::map<uint32_t, std::pair<uint32_t, Poly>> rules;
  const RF* nf(E e);  // null when too big
  bool rf_add(RF const& a, RF const& b, RF& out);
  bool rf_mul(RF const& a, RF const& b, RF& out);
  bool rf_inv(RF const& a, RF& out);
  bool den_poly(RF const& a, Poly& out);
  std::string Str(Poly const& p);
  E ToExpr(Poly const& p);
  double Eval(Poly const& p, Model const& m);

 private:
  bool norm(RF& f);
  const Poly* reduce(MonoId m);  // null if already reduced
  std::map<std::vector<std::pair<uint32_t, uint32_t>>, MonoId> index;
  std::unordered_map<uint64_t, MonoId> mulcache;
  std::unordered_map<MonoId, std::unique_ptr<Poly>> red;
  std::map<std::string, uint32_t> polyindex;
  std::vector<std::unique_ptr<RF>> store;
};
extern PolyCtx P;

}  // namespace vf
