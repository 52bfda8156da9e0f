#include "exec.h"

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>

namespace vf {

using namespace llvm;

static std::chrono::steady_clock::time_point g_start;
static double Elapsed() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_start).count();
}
static double BitsD(uint64_t u) {
  double d;
  memcpy(&d, &u, 8);
  return d;
}
static uint64_t DBits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
static uint64_t Mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

enum H {
  H_NONE = -1,
  H_vf_bits, H_vf_double, H_vf_real, H_vf_angle, H_vf_assume, H_vf_assume_eq,
  H_vf_check, H_vf_near, H_vf_choose, H_vf_observe, H_vf_observe_d,
  H_vf_is_engine, H_vf_abort_ok, H_vf_check_failed, H_vf_concretize,
  H_vf_real_mode, H_vf_fail, H_vf_note, H_vf_reach,
  H_vf_thread_create, H_vf_thread_exit, H_vf_thread_self, H_vf_block_on, H_vf_block_on_timed, H_vf_yield, H_vf_sleep,
  H_vf_thread_done, H_vf_is_symbolic, H_vf_angle_denominator, H_vf_sqrt_domain, H_vf_silent_exit,
  H_malloc, H_calloc, H_realloc, H_free, H_memcpy, H_memmove, H_memset,
  H_memcmp, H_strlen, H_abort, H_throw, H_memchr,
  H_sqrt, H_sin, H_cos, H_tan, H_atan2, H_asin, H_acos, H_atan, H_exp, H_log,
  H_pow, H_cbrt, H_sinh, H_cosh, H_tanh, H_asinh, H_acosh, H_atanh, H_fmod,
  H_floor, H_ceil, H_trunc, H_round, H_rint, H_fabs, H_fma, H_fmin, H_fmax,
  H_log2, H_log10, H_exp2, H_remainder, H_ldexp, H_copysign, H_hypot, H_expm1,
  H_nothing, H_zero, H_malloc_usable_size, H_lround, H_llround, H_lrint,
  H_sincos, H_aligned_alloc, H_posix_memalign, H_ilogb, H_scalbn, H_logb, H_frexp,
  H_nextafter, H_modf, H_clock
};

static std::map<std::string, int> const& HandlerMap() {
  static std::map<std::string, int> m = {
      {"vf_bits", H_vf_bits}, {"vf_double", H_vf_double}, {"vf_real", H_vf_real},
      {"vf_angle", H_vf_angle}, {"vf_assume", H_vf_assume},
      {"vf_assume_eq", H_vf_assume_eq}, {"vf_check", H_vf_check},
      {"vf_near", H_vf_near}, {"vf_choose", H_vf_choose},
      {"vf_observe", H_vf_observe}, {"vf_observe_d", H_vf_observe_d},
      {"vf_is_engine", H_vf_is_engine}, {"vf_abort_ok", H_vf_abort_ok},
      {"vf_check_failed", H_vf_check_failed}, {"vf_concretize", H_vf_concretize},
      {"vf_real_mode", H_vf_real_mode}, {"vf_fail", H_vf_fail},
      {"vf_note", H_vf_note}, {"vf_reach", H_vf_reach},
      {"vf_thread_create", H_vf_thread_create}, {"vf_thread_exit", H_vf_thread_exit},
      {"vf_thread_self", H_vf_thread_self}, {"vf_block_on", H_vf_block_on},
      {"vf_yield", H_vf_yield}, {"vf_sleep", H_vf_sleep}, {"vf_block_on_timed", H_vf_block_on_timed}, {"vf_thread_done", H_vf_thread_done},
      {"vf_is_symbolic", H_vf_is_symbolic},
      {"vf_angle_denominator", H_vf_angle_denominator},
      {"vf_sqrt_domain", H_vf_sqrt_domain},
      {"vf_silent_exit", H_vf_silent_exit},
      {"malloc", H_malloc}, {"calloc", H_calloc}, {"realloc", H_realloc},
      {"free", H_free}, {"_Znwm", H_malloc}, {"_Znam", H_malloc},
      {"_ZnwmSt11align_val_t", H_malloc}, {"_ZnamSt11align_val_t", H_malloc},
      {"_ZnwmRKSt9nothrow_t", H_malloc}, {"_ZnamRKSt9nothrow_t", H_malloc},
      {"_ZnwmSt11align_val_tRKSt9nothrow_t", H_malloc},
      {"_ZdlPv", H_free}, {"_ZdaPv", H_free}, {"_ZdlPvm", H_free}, {"_ZdaPvm", H_free},
      {"_ZdlPvSt11align_val_t", H_free}, {"_ZdlPvmSt11align_val_t", H_free},
      {"_ZdaPvSt11align_val_t", H_free}, {"_ZdaPvmSt11align_val_t", H_free},
      {"_ZdlPvRKSt9nothrow_t", H_free},
      {"_ZdlPvSt11align_val_tRKSt9nothrow_t", H_free},
      {"aligned_alloc", H_aligned_alloc}, {"posix_memalign", H_posix_memalign},
      {"malloc_usable_size", H_malloc_usable_size},
      {"memcpy", H_memcpy}, {"memmove", H_memmove}, {"memset", H_memset},
      {"memcmp", H_memcmp}, {"bcmp", H_memcmp}, {"strlen", H_strlen}, {"memchr", H_memchr},
      {"abort", H_abort}, {"exit", H_abort}, {"_exit", H_abort}, {"_ZSt9terminatev", H_abort},
      {"__cxa_throw", H_throw}, {"__cxa_rethrow", H_throw},
      {"__cxa_pure_virtual", H_abort}, {"__cxa_bad_cast", H_throw},
      {"__cxa_call_terminate", H_abort}, {"__cxa_throw_bad_array_new_length", H_throw},
      {"__cxa_call_unexpected", H_abort}, {"__cxa_bad_typeid", H_throw},
      {"_Unwind_Resume", H_abort}, {"__stack_chk_fail", H_abort},
      {"sqrt", H_sqrt}, {"sin", H_sin}, {"cos", H_cos}, {"tan", H_tan},
      {"atan2", H_atan2}, {"asin", H_asin}, {"acos", H_acos}, {"atan", H_atan},
      {"exp", H_exp}, {"log", H_log}, {"pow", H_pow}, {"cbrt", H_cbrt},
      {"sinh", H_sinh}, {"cosh", H_cosh}, {"tanh", H_tanh}, {"asinh", H_asinh},
      {"acosh", H_acosh}, {"atanh", H_atanh}, {"fmod", H_fmod},
      {"floor", H_floor}, {"ceil", H_ceil}, {"trunc", H_trunc}, {"round", H_round},
      {"rint", H_rint}, {"nearbyint", H_rint}, {"fabs", H_fabs}, {"fma", H_fma},
      {"fmin", H_fmin}, {"fmax", H_fmax}, {"log2", H_log2}, {"log10", H_log10},
      {"exp2", H_exp2}, {"remainder", H_remainder}, {"ldexp", H_ldexp},
      {"copysign", H_copysign}, {"hypot", H_hypot}, {"expm1", H_expm1},
      {"lround", H_lround}, {"llround", H_llround}, {"lrint", H_lrint}, {"llrint", H_lrint},
      {"ilogb", H_ilogb}, {"scalbn", H_scalbn}, {"logb", H_logb}, {"scalbln", H_scalbn},
      {"frexp", H_frexp}, {"nextafter", H_nextafter},
      {"__cxa_atexit", H_zero}, {"__cxa_thread_atexit", H_zero}, {"atexit", H_zero},
      {"__cxa_guard_abort", H_nothing},
      {"_ZNSt8ios_base4InitC1Ev", H_nothing}, {"_ZNSt8ios_base4InitD1Ev", H_nothing},
  };
  return m;
}

Executor::Executor(Module& m, Options const& o) : opt(o), M(m), DL(m.getDataLayout()) {}

KFunc* Executor::Get(Function* f) {
  auto& p = funcs_[f];
  if (!p) {
    p = std::make_unique<KFunc>();
    p->F = f;
    p->name = f->getName().str();
    p->demangled = demangle(p->name);
    p->repo = p->demangled.find("principia::") != std::string::npos;
    auto it = HandlerMap().find(p->name);
    p->handler = it == HandlerMap().end() ? -1 : it->second;
    if (p->handler == -1) {
      // The correctly-rounded functions of the project live in a separate
      // translation unit that needs core-math.
      if (p->demangled.rfind("principia::numerics::_sin_cos::", 0) == 0 ||
          p->demangled.find("_sin_cos::internal::Sin") != std::string::npos ||
          p->demangled.find("_sin_cos::internal::Cos") != std::string::npos) {
        if (f->isDeclaration()) {
          if (p->demangled.find("::Sin(") != std::string::npos) p->handler = H_sin;
          else if (p->demangled.find("::Cos(") != std::string::npos) p->handler = H_cos;
        }
      }
    }
  }
  return p.get();
}

uint64_t Executor::AddrOf(GlobalValue const* g) {
  auto it = gaddr_.find(g);
  if (it == gaddr_.end()) throw Unsupported{"unknown global " + g->getName().str()};
  return it->second;
}

// ------------------------------------------------------------------ constants
Val Executor::EvalConst(Constant const* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
      auto v = std::make_shared<std::vector<Val>>();
      unsigned n = t->isStructTy() ? t->getStructNumElements()
                   : t->isArrayTy() ? t->getArrayNumElements()
                                    : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; ++i) {
        Type* et = t->isStructTy() ? t->getStructElementType(i)
                   : t->isArrayTy() ? t->getArrayElementType()
                                    : cast<FixedVectorType>(t)->getElementType();
        v->push_back(EvalConst(isa<UndefValue>(c) ? UndefValue::get(et)
                                                  : Constant::getNullValue(et)));
      }
      Val r;
      r.agg = v;
      return r;
    }
    if (t->isIntegerTy() && t->getIntegerBitWidth() > 64)
      return Val(X.Const(0, t->getIntegerBitWidth()));
    return Val((uint64_t)0);
  }
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) {
      if (ci->getBitWidth() > 128) throw Unsupported{"wide integer"};
      APInt v = ci->getValue();
      u128 x = ((u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64) |
               v.extractBitsAsZExtValue(64, 0);
      return Val(X.Const(x, v.getBitWidth()));
    }
    return Val(ci->getZExtValue());
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (t->isDoubleTy() || t->isFloatTy())
      return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
    if (t->isX86_FP80Ty()) {
      // Only ever used concretely; kept as a double.
      bool lossy;
      APFloat f = cf->getValueAPF();
      f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lossy);
      return Val(DBits(f.convertToDouble()));
    }
    throw Unsupported{"float type"};
  }
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) return EvalConst(ga->getAliasee());
    return Val(AddrOf(gv));
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    auto v = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < ca->getNumOperands(); ++i)
      v->push_back(EvalConst(ca->getOperand(i)));
    Val r;
    r.agg = v;
    return r;
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    auto v = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < cd->getNumElements(); ++i)
      v->push_back(EvalConst(cd->getElementAsConstant(i)));
    Val r;
    r.agg = v;
    return r;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto* gep = cast<GEPOperator>(ce);
        if (!gep->accumulateConstantOffset(DL, off)) throw Unsupported{"const gep"};
        return Val(EvalConst(ce->getOperand(0)).c + off.getSExtValue());
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
      case Instruction::AddrSpaceCast:
        return EvalConst(ce->getOperand(0));
      case Instruction::Add:
        return Val(EvalConst(ce->getOperand(0)).c + EvalConst(ce->getOperand(1)).c);
      case Instruction::Sub:
        return Val((EvalConst(ce->getOperand(0)).c - EvalConst(ce->getOperand(1)).c) &
                   Mask64(t->getScalarSizeInBits()));
      case Instruction::Trunc:
        return Val(EvalConst(ce->getOperand(0)).c & Mask64(t->getScalarSizeInBits()));
      default: throw Unsupported{"constant expression"};
    }
  }
  throw Unsupported{"constant"};
}

void Executor::InitObject(State& s, MemObj* o, Constant const* c, uint64_t off) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cd->getRawDataValues();
    memcpy(&o->data[off], raw.data(), raw.size());
    return;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
      uint64_t o2;
      if (auto* st = dyn_cast<StructType>(t))
        o2 = DL.getStructLayout(st)->getElementOffset(i);
      else {
        Type* et = ca->getOperand(i)->getType();
        o2 = i * (t->isVectorTy() ? DL.getTypeStoreSize(et) : DL.getTypeAllocSize(et));
      }
      InitObject(s, o, ca->getOperand(i), off + o2);
    }
    return;
  }
  StoreAt(o, off, t, EvalConst(c));
}

void Executor::InitGlobals(State& s) {
  S = &s;
  for (Function& f : M) {
    MemObj* o = s.mem.alloc(1, MemObj::Code, f.getName().str());
    gaddr_[&f] = o->base;
    KFunc* k = Get(&f);
    k->address = o->base;
    byaddr_[o->base] = k;
  }
  for (GlobalVariable& g : M.globals()) {
    uint64_t size = g.isDeclaration() ? 256 : (uint64_t)DL.getTypeAllocSize(g.getValueType());
    MemObj* o = s.mem.alloc(size, MemObj::Global, g.getName().str());
    gaddr_[&g] = o->base;
  }
  for (GlobalAlias& a : M.aliases()) {
    Val v = EvalConst(a.getAliasee());
    gaddr_[&a] = v.c;
  }
  for (GlobalVariable& g : M.globals()) {
    if (g.isDeclaration()) continue;
    MemObj* o = s.mem.write(gaddr_[&g] >> kShift);
    try {
      InitObject(s, o, g.getInitializer(), 0);
    } catch (Unsupported& u) {
      incomplete.insert("initializer of " + g.getName().str() + ": " + u.what);
    }
    if (g.isConstant()) s.mem.write(gaddr_[&g] >> kShift)->readonly = true;
  }
}

// ------------------------------------------------------------------- prepare
int Executor::Operand(KFunc* f, Value const* v,
                      std::unordered_map<Value const*, int> const& regs) {
  auto it = regs.find(v);
  if (it != regs.end()) return it->second;
  if (auto* c = dyn_cast<Constant>(v)) {
    auto ci = constidx_.find(c);
    if (ci != constidx_.end()) return ci->second;
    Val x;
    try {
      x = EvalConst(c);
    } catch (Unsupported& u) {
      incomplete.insert("constant in " + f->demangled + ": " + u.what);
    }
    consts_.push_back(x);
    return constidx_[c] = -(int)consts_.size();
  }
  consts_.push_back(Val());
  return -(int)consts_.size();
}

void Executor::Prepare(KFunc* f) {
  f->prepared = true;
  std::unordered_map<Value const*, int> regs;
  int n = 0;
  for (Argument& a : f->F->args()) regs[&a] = n++;
  for (BasicBlock& b : *f->F)
    for (Instruction& i : b)
      if (!i.getType()->isVoidTy()) regs[&i] = n++;
  f->nregs = n;
  for (BasicBlock& b : *f->F) {
    f->bb[&b] = f->insts.size();
    for (Instruction& i : b) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      KInst k;
      k.I = &i;
      auto it = regs.find(&i);
      k.dest = it == regs.end() ? -1 : it->second;
      if (auto* gep = dyn_cast<GetElementPtrInst>(&i)) {
        k.ops.push_back(Operand(f, gep->getPointerOperand(), regs));
        for (auto g = gep_type_begin(gep), e = gep_type_end(gep); g != e; ++g) {
          Value* idx = g.getOperand();
          if (StructType* st = g.getStructTypeOrNull()) {
            k.goff += DL.getStructLayout(st)->getElementOffset(
                cast<ConstantInt>(idx)->getZExtValue());
          } else {
            int64_t sz = g.getSequentialElementStride(DL);
            if (auto* ci = dyn_cast<ConstantInt>(idx)) k.goff += sz * ci->getSExtValue();
            else {
              k.gidx.push_back({Operand(f, idx, regs), sz});
              k.ops.push_back(idx->getType()->getScalarSizeInBits());
            }
          }
        }
      } else if (auto* call = dyn_cast<CallBase>(&i)) {
        for (unsigned a = 0; a < call->arg_size(); ++a) {
          Value* v = call->getArgOperand(a);
          if (v->getType()->isMetadataTy()) k.ops.push_back(-1);
          else k.ops.push_back(Operand(f, v, regs));
        }
        Value* cv = call->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto* cf = dyn_cast<Function>(cv)) k.callee = Get(cf);
        else if (isa<InlineAsm>(cv)) k.intr = -2;
        else k.ops.push_back(Operand(f, cv, regs));  // last operand
      } else if (isa<PHINode>(i)) {
        auto* phi = cast<PHINode>(&i);
        for (unsigned a = 0; a < phi->getNumIncomingValues(); ++a)
          k.ops.push_back(Operand(f, phi->getIncomingValue(a), regs));
      } else {
        for (Value* v : i.operands()) {
          if (isa<BasicBlock>(v)) continue;
          k.ops.push_back(Operand(f, v, regs));
        }
      }
      f->insts.push_back(std::move(k));
    }
  }
}

// -------------------------------------------------------------------- values
E Executor::ToE(Val const& v, unsigned w) {
  if (v.e) return v.e;
  return X.Const(v.c, w);
}
Val Executor::FromE(E e) {
  if (e->k == K::Const && e->w <= 64) return Val((uint64_t)e->c);
  if (e->k == K::RConst) {
    // A rational that is a double exactly becomes concrete again.
    double d = e->q->get_d();
    if (mpq_class(d) == *e->q) return Val(DBits(d));
  }
  return Val(e);
}
E Executor::ToReal(Val const& v) {
  if (v.e) {
    if (v.e->real) return v.e;
    if (v.e->k == K::SIToF) return X.FromBV(v.e->a[0], true);
    if (v.e->k == K::UIToF) return X.FromBV(v.e->a[0], false);
    throw Unsupported{"bit pattern used as a real: " + X.Str(v.e, 3)};
  }
  double d = BitsD(v.c);
  if (!std::isfinite(d)) throw Unsupported{"non-finite constant in real arithmetic"};
  return X.RConstD(d);
}

// ---------------------------------------------------------------- conditions
E Executor::Resolve(E e) {
  if (S->subst.empty() || e->k == K::Const || e->vs->empty() || e->real) return e;
  if (!S->substmemo) S->substmemo = std::make_shared<std::unordered_map<E, E>>();
  else if (S->substmemo.use_count() > 1)
    S->substmemo = std::make_shared<std::unordered_map<E, E>>();
  auto& memo = *S->substmemo;
  std::function<E(E)> go = [&](E x) -> E {
    if (x->n == 0 && x->k != K::Var) return x;
    if (x->real) return x;
    auto s = S->subst.find(x);
    if (s != S->subst.end()) return s->second;
    if (x->n == 0) return x;
    auto it = memo.find(x);
    if (it != memo.end()) return it->second;
    std::vector<E> kids;
    bool ch = false;
    for (int i = 0; i < x->n; ++i) {
      E k = go(x->a[i]);
      ch |= k != x->a[i];
      kids.push_back(k);
    }
    E r = ch ? X.Rebuild(x, kids) : x;
    memo[x] = r;
    return r;
  };
  return go(e);
}

void Executor::AddConstraint(State& s, E c) {
  if (c->k == K::Const) return;
  if (s.known.count(c)) return;
  if (c->k == K::And && c->w == 1) {
    AddConstraint(s, c->a[0]);
    AddConstraint(s, c->a[1]);
    s.known.insert(c);
    return;
  }
  s.pc.push_back(c);
  s.known.insert(c);
  if (c->k == K::Eq && c->a[1]->k == K::Const && c->a[0]->w > 1) {
    s.subst[c->a[0]] = c->a[1];
    s.substmemo.reset();
  } else if (c->w == 1 && !c->vs->empty() && c->k != K::REq0 && c->k != K::RLt0) {
    // Boolean facts.
    if (c->k == K::Xor && c->a[1]->k == K::Const) s.subst[c->a[0]] = X.False();
    else s.subst[c] = X.True();
    s.substmemo.reset();
  }
}

Res Executor::Query(E extra, Model* m, int timeout) {
  double before = solver.stats.seconds;
  Res r = solver.Check(S->pc, extra, m, timeout);
  if (solver.stats.seconds > before + 0.5 && getenv("VF_FORKS")) {
    const RF* f = (extra->k == K::RLt0 || extra->k == K::RLe0 || extra->k == K::REq0) ? P.nf(extra->a[0]) : nullptr;
    std::cerr << "slow " << solver.stats.seconds - before << " " << (r == Res::Sat ? "sat " : r == Res::Unsat ? "unsat " : "unknown ")
              << Where() << " " << (f ? P.Str(f->num).substr(0, 300) : "") << "\n";
  }
  return r;
}

void Executor::Fork(E other) {
  auto n = std::make_unique<State>(*S);
  n->id = next_state_++;
  n->forked = true;
  S->forked = true;
  AddConstraint(*n, other);
  ++forks;
  work_.push_back(std::move(n));
}

bool Executor::Decide(E cond) {
  if (cond->k == K::Const) return cond->c & 1;
  E neg = X.Not(cond);
  if (S->known.count(cond)) return true;
  if (S->known.count(neg)) return false;
  E r = Resolve(cond);
  if (r->k == K::Const) return r->c & 1;
  ++branches;
  if (S->known.count(r)) return true;
  if (S->known.count(X.Not(r))) return false;
  cond = r;
  neg = X.Not(cond);
  if (!S->model) {
    // Feasibility of the path itself is unknown: try to establish it.
    auto m = std::make_shared<Model>();
    Res q = solver.CheckAll(S->pc, m.get(), opt.timeout_ms);
    if (q == Res::Unsat) throw Terminate{};
    if (q == Res::Sat) S->model = m;
  }
  bool hint = true;
  if (S->model) {
    X.NewEval();
    hint = X.Eval(cond, *S->model) & 1;
  }
  E same = hint ? cond : neg, other = hint ? neg : cond;
  auto m = std::make_shared<Model>();
  if (S->model) *m = *S->model;
  Res q = Query(other, m.get(), opt.timeout_ms);
  if (q == Res::Unsat) {
    S->known.insert(same);
    return hint;
  }
  if (!S->model) {
    // Also query this side.
    auto m2 = std::make_shared<Model>();
    Res q2 = Query(same, m2.get(), opt.timeout_ms);
    if (q2 == Res::Unsat) {
      if (q == Res::Unknown && other->vs->size() == 0) throw Terminate{};
      AddConstraint(*S, other);
      return !hint;
    }
  }
  // Both feasible (or unknown).
  if (getenv("VF_FORKS")) {
    const RF* f = cond->real ? nullptr : (cond->k == K::RLt0 || cond->k == K::RLe0 || cond->k == K::REq0) ? P.nf(cond->a[0]) : nullptr;
    std::cerr << "fork " << (q == Res::Sat ? "sat " : "unknown ") << Where() << " " << (f ? P.Str(f->num).substr(0, 300) : "");
    if (f) for (auto const& [d, e] : f->den) std::cerr << " / (" << P.Str(P.polys[d]).substr(0, 300) << ")^" << e;
    std::cerr << "\n";
  }
  if (getenv("VF_PC") && S->model) {
    std::cerr << "hint " << hint << " ";
    for (auto const& i : S->inputs) if (i.e && i.e->real) std::cerr << i.name << "=" << X.EvalR(i.e, *S->model) << "/" << X.EvalR(i.e, *m) << " ";
    std::cerr << "\n";
  }
  if (getenv("VF_PC")) for (E c : S->pc) {
    E b = c;
    const RF* f = (b->k == K::RLt0 || b->k == K::RLe0 || b->k == K::REq0) ? P.nf(b->a[0]) : nullptr;
    std::cerr << "   pc " << (b == c ? "" : "not ") << (b->k == K::RLt0 ? "<0 " : b->k == K::RLe0 ? "<=0 " : "=0 ") << (f ? P.Str(f->num).substr(0, 200) : "?") << "\n";
  }
  Fork(other);
  auto& n = work_.back();
  if (q == Res::Sat && S->model) n->model = m;
  else n->model.reset();
  AddConstraint(*S, same);
  return hint;
}

E Executor::SplitAddress(E address) {
  std::unordered_map<E, E> memo;
  std::function<E(E)> go = [&](E x) -> E {
    if (x->n == 0 || x->real) return x;
    auto it = memo.find(x);
    if (it != memo.end()) return it->second;
    E r;
    if (x->k == K::Ite) {
      E c = go(x->a[0]);
      r = go(Decide(c) ? x->a[1] : x->a[2]);
    } else if (x->w == 1 && !x->vs->empty() &&
               (x->k == K::RLt0 || x->k == K::RLe0 || x->k == K::REq0 ||
                x->k == K::And || x->k == K::Or || x->k == K::Xor)) {
      r = X.Const(Decide(x), 1);
    } else {
      std::vector<E> kids;
      bool ch = false;
      for (int i = 0; i < x->n; ++i) {
        E k = go(x->a[i]);
        ch |= k != x->a[i];
        kids.push_back(k);
      }
      r = ch ? X.Rebuild(x, kids) : x;
    }
    memo[x] = r;
    return r;
  };
  return go(Resolve(address));
}

bool Executor::Assume(E c) {
  c = Resolve(c);
  if (c->k == K::Const) return c->c & 1;
  if (S->known.count(c)) return true;
  if (S->model) {
    X.NewEval();
    if (X.Eval(c, *S->model) & 1) {
      AddConstraint(*S, c);
      return true;
    }
  }
  auto m = std::make_shared<Model>();
  if (S->model) *m = *S->model;
  Res q = Query(c, m.get(), opt.timeout_ms);
  if (q == Res::Unsat) return false;
  AddConstraint(*S, c);
  if (q == Res::Sat && S->model) S->model = m;
  else S->model.reset();
  return true;
}

uint64_t Executor::Concrete(Val const& v, unsigned w) {
  if (!v.e) return v.c;
  E e = Resolve(v.e);
  if (e->k == K::Const) return (uint64_t)e->c;
  if (e->real) throw Unsupported{"concretising a real"};
  if (!S->model) {
    auto m = std::make_shared<Model>();
    Res q = solver.CheckAll(S->pc, m.get(), opt.timeout_ms);
    if (q == Res::Unsat) throw Terminate{};
    if (q == Res::Unknown) throw Unsupported{"cannot concretise: solver gave up"};
    S->model = m;
  }
  X.NewEval();
  uint64_t c = (uint64_t)X.Eval(e, *S->model);
  if (Decide(X.Eq(e, X.Const(c, e->w)))) return c;
  // The model was not consistent with the decision; try again.
  throw Retry{};
}

static double Sample(uint64_t& rng, double lo, double hi) {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return lo + (hi - lo) * ((rng >> 11) * (1.0 / 9007199254740992.0));
}

void Executor::CheckCond(E cond, std::string const& id) {
  auto& st = checks[id];
  ++st.reached;
  cond = Resolve(cond);
  if (cond->k == K::Const) {
    if (cond->c) {
      ++st.trivially;
      // The simplified assertion is still put to the solver.
      solver.CheckAll({X.False()}, nullptr, 1000);
      ++solver.stats.checks;
      ++st.proved;
      return;
    }
    ++st.violated;
    Model m;
    if (S->model) m = *S->model;
    else {
      Res q = solver.CheckAll(S->pc, &m, opt.check_timeout_ms);
      if (q == Res::Unsat) throw Terminate{};
      if (q == Res::Unknown) {
        ++st.unknown;
        incomplete.insert("feasibility of a failing path at " + id + " unknown");
        throw Terminate{};
      }
    }
    Report("check", id, &m);
    throw Terminate{};
  }
  ++st.nontrivial;
  ++solver.stats.checks;
  Model m;
  if (S->model) m = *S->model;
  Res q = Query(X.Not(cond), &m, opt.check_timeout_ms);
  if (q == Res::Unsat) {
    ++st.proved;
    return;
  }
  if (q == Res::Unknown) {
    ++st.unknown;
    incomplete.insert("solver gave up on " + id);
    if (getenv("VF_GAVEUP")) std::cerr << "gave up on " << id << ": " << X.Str(cond, 40).substr(0, 3000) << "\n";
    return;
  }
  ++st.violated;
  Report("check", id, &m);
  if (!Assume(cond)) throw Terminate{};
}

// Projects the model on the rewriting rules, and tells whether the path
// condition holds for it, in floating point.
bool Executor::Holds(Model& m) {
  if (opt.real) {
    for (auto const& [v, rule] : P.rules) {
      if (X.vars[v].special != VarInfo::None) continue;
      X.NewEval();
      double d = P.Eval(rule.second, m);
      if (rule.first == 2) {
        if (!(d >= 0)) return false;
        d = std::copysign(std::sqrt(d), v < m.re.size() ? m.re[v] : 1);
      } else if (rule.first != 1) {
        return false;
      }
      if (m.re.size() <= v) m.re.resize(X.vars.size(), 0);
      m.re[v] = d;
    }
  }
  X.NewEval();
  for (E c : S->pc) {
    if (c->k == K::REq0) {
      if (!(std::abs(X.EvalR(c->a[0], m)) < 1e-9)) return false;
    } else if (!(X.Eval(c, m) & 1)) {
      return false;
    }
  }
  return true;
}

void Executor::CheckNear(Val const& a, Val const& b, double tol, std::string const& id) {
  if (!opt.real || (!a.e && !b.e)) {
    if (!a.e && !b.e) {
      double x = BitsD(a.c), y = BitsD(b.c);
      bool ok = x == y || std::abs(x - y) <= tol;
      CheckCond(X.Const(ok, 1), id);
      return;
    }
    E x = ToE(a, 64), y = ToE(b, 64);
    E d = X.Bin(K::And, X.FOp(K::FSub, 64, x, y), X.Const(0x7fffffffffffffffull, 64));
    E ok = X.OrB(X.FOp(K::FOeq, 1, x, y),
                 X.FOp(K::FOle, 1, d, X.Const(DBits(tol), 64)));
    CheckCond(ok, id);
    return;
  }
  if ((!a.e && !std::isfinite(BitsD(a.c))) || (!b.e && !std::isfinite(BitsD(b.c)))) {
    CheckCond(X.False(), id);
    return;
  }
  auto& st = checks[id];
  ++st.reached;
  ++st.nontrivial;
  ++solver.stats.checks;
  E d = X.RSub(ToReal(a), ToReal(b));
  const RF* f = P.nf(d);
  if (f && f->num.zero()) {
    solver.CheckAll({X.False()}, nullptr, 1000);
    ++st.proved;
    ++st.trivially;
    return;
  }
  if (f && f->den.empty()) {
    // All monomials independent, linear arithmetic.
    std::map<uint32_t, double> bd = bounds_;
    for (uint32_t v = 0; v < X.vars.size(); ++v)
      if (X.vars[v].special == VarInfo::Cos || X.vars[v].special == VarInfo::Sin)
        bd[v] = 1;
    if (solver.LinearBound(f->num, bd, tol) == Res::Unsat) {
      ++st.proved;
      return;
    }
  }
  E t = X.RConstD(tol);
  auto violates = [&](double k) {
    E tk = X.RConstD(tol * k);
    return X.OrB(X.RLt(tk, d), X.RLt(d, X.RNeg(tk)));
  };
  (void)t;
  // Look for a large violation first, so that it can be replayed in floating
  // point; random points are only candidates, and are replayed as well.
  {
    uint64_t rng = opt.seed * 0x9E3779B97F4A7C15ull + 12345;
    for (int i = 0; i < 60; ++i) {
      Model m;
      if (S->model) m = *S->model;
      m.re.resize(X.vars.size(), 0);
      m.bv.resize(X.vars.size(), 0);
      if (i > 0 || !S->model) {
        for (uint32_t v = 0; v < X.vars.size(); ++v) {
          if (!X.vars[v].real || X.vars[v].special != VarInfo::None) continue;
          auto it = bounds_.find(v);
          double b = it == bounds_.end() ? 10 : it->second;
          m.re[v] = Sample(rng, -b, b);
          if (i % 2) m.re[v] = std::round(m.re[v] * 4) / 4;
        }
      }
      if (!Holds(m)) continue;
      double dv = X.EvalR(d, m);
      if (std::isfinite(dv) && std::abs(dv) > tol * 16) {
        // Let the solver confirm that the point violates the assertion where
        // it is rational; otherwise the replay decides.
        ++st.violated;
        Report("check", id, &m);
        throw Terminate{};
      }
    }
  }
  for (double k : {1000.0, 1.0}) {
    Model m;
    if (S->model) m = *S->model;
    Res q = Query(violates(k), &m, k > 1 ? opt.timeout_ms : opt.check_timeout_ms);
    if (q == Res::Unsat && k > 1) continue;
    if (q == Res::Unsat) {
      ++st.proved;
      return;
    }
    if (q == Res::Sat) {
      ++st.violated;
      Report("check", id, &m);
      throw Terminate{};
    }
  }
  ++st.unknown;
  incomplete.insert("solver gave up on " + id +
                    (f ? " residual " + P.Str(f->num).substr(0, 300) : ""));
}

// -------------------------------------------------------------------- memory
MemObj const* Executor::Obj(uint64_t addr, uint64_t bytes, bool write, uint64_t& off) {
  uint64_t id = addr >> kShift;
  MemObj const* o = S->mem.get(id);
  if (o == nullptr) {
    throw PathViolation{"memory", addr < 4096 ? "null pointer dereference"
                                              : "access through a dangling or wild pointer"};
  }
  off = addr - o->base;
  if (o->freed) throw PathViolation{"memory", "use after free of " + o->name};
  if (off > o->size || bytes > o->size - off) {
    throw PathViolation{"memory", std::string(write ? "write" : "read") + " out of bounds of " +
                                      o->name + " (size " + std::to_string(o->size) + ")"};
  }
  if (write && o->readonly) throw PathViolation{"memory", "write to constant " + o->name};
  return o;
}

Val Executor::LoadScalar(MemObj const* o, uint64_t off, unsigned bytes, unsigned w) {
  bool sym = false;
  if (o->sym) {
    auto& sv = *o->sym;
    for (unsigned i = 0; i < bytes; ++i)
      if (sv[off + i].e) {
        sym = true;
        break;
      }
    if (sym) {
      E e0 = sv[off].e;
      if (e0 && sv[off].idx == 0) {
        unsigned ew = (e0->w + 7) / 8;
        bool same = ew == bytes;
        for (unsigned i = 1; same && i < bytes; ++i)
          same = sv[off + i].e == e0 && sv[off + i].idx == i;
        if (same) {
          if (e0->real) return Val(e0);
          if (e0->w == w) return Val(e0);
          return FromE(e0->w < w ? X.ZExt(e0, w) : X.Extract(e0, 0, w));
        }
      }
      E r = nullptr;
      for (unsigned i = bytes; i-- > 0;) {
        E b;
        if (sv[off + i].e) {
          E e = sv[off + i].e;
          if (e->real) throw Unsupported{"partial read of a real"};
          unsigned lo = 8 * sv[off + i].idx;
          unsigned n = std::min(8u, e->w - lo);
          b = X.ZExt(X.Extract(e, lo, n), 8);
        } else {
          b = X.Const(o->data[off + i], 8);
        }
        r = r ? X.Concat(r, b) : b;
      }
      if (r->w > w) r = X.Extract(r, 0, w);
      return FromE(r);
    }
  }
  if (bytes <= 8) {
    uint64_t v = 0;
    memcpy(&v, &o->data[off], bytes);
    return Val(v & Mask64(w));
  }
  if (bytes > 16) throw Unsupported{"wide load"};
  u128 v = 0;
  memcpy(&v, &o->data[off], bytes);
  return Val(X.Const(v, w));
}

void Executor::StoreScalar(MemObj* o, uint64_t off, unsigned bytes, Val const& v, unsigned w) {
  o->version = ++version_;
  if (v.e && v.e->k != K::Const) {
    if (!o->sym) o->sym = std::make_unique<std::vector<ByteRef>>(o->size);
    E e = v.e;
    if (!e->real && e->w % 8) e = X.ZExt(e, bytes * 8);
    if (e->k == K::Const) {
      StoreScalar(o, off, bytes, FromE(e), e->w);
      return;
    }
    for (unsigned i = 0; i < bytes; ++i) (*o->sym)[off + i] = {e, (uint8_t)i};
    return;
  }
  u128 x = v.e ? v.e->c : v.c;
  memcpy(&o->data[off], &x, bytes);
  if (o->sym)
    for (unsigned i = 0; i < bytes; ++i) (*o->sym)[off + i].e = nullptr;
}

static unsigned ScalarBits(Type* t, DataLayout const& DL) {
  if (t->isPointerTy()) return 64;
  if (t->isX86_FP80Ty()) return 64;
  return t->getPrimitiveSizeInBits();
}

Val Executor::LoadAt(MemObj const* o, uint64_t off, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto v = std::make_shared<std::vector<Val>>();
    auto* sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      v->push_back(LoadAt(o, off + sl->getElementOffset(i), st->getElementType(i)));
    Val r;
    r.agg = v;
    return r;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    auto v = std::make_shared<std::vector<Val>>();
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    if (t->isVectorTy() && et->isIntegerTy() && et->getIntegerBitWidth() % 8) {
      unsigned ew = et->getIntegerBitWidth();
      Val all = LoadScalar(o, off, (n * ew + 7) / 8, n * ew);
      for (unsigned i = 0; i < n; ++i)
        v->push_back(all.e ? FromE(X.Extract(all.e, i * ew, ew))
                           : Val((all.c >> (i * ew)) & Mask64(ew)));
    } else {
      uint64_t es = t->isArrayTy() ? DL.getTypeAllocSize(et) : DL.getTypeStoreSize(et);
      for (unsigned i = 0; i < n; ++i) v->push_back(LoadAt(o, off + i * es, et));
    }
    Val r;
    r.agg = v;
    return r;
  }
  unsigned w = ScalarBits(t, DL);
  return LoadScalar(o, off, (w + 7) / 8, w);
}

void Executor::StoreAt(MemObj* o, uint64_t off, Type* t, Val const& v) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      StoreAt(o, off + sl->getElementOffset(i), st->getElementType(i), (*v.agg)[i]);
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    if (t->isVectorTy() && et->isIntegerTy() && et->getIntegerBitWidth() % 8) {
      unsigned ew = et->getIntegerBitWidth();
      E all = nullptr;
      for (unsigned i = n; i-- > 0;) {
        E x = ToE((*v.agg)[i], ew);
        all = all ? X.Concat(all, x) : x;
      }
      StoreScalar(o, off, (n * ew + 7) / 8, FromE(all), n * ew);
      return;
    }
    uint64_t es = t->isArrayTy() ? DL.getTypeAllocSize(et) : DL.getTypeStoreSize(et);
    for (unsigned i = 0; i < n; ++i) StoreAt(o, off + i * es, et, (*v.agg)[i]);
    return;
  }
  unsigned w = ScalarBits(t, DL);
  StoreScalar(o, off, (w + 7) / 8, v, w);
}

// Splits a symbolic address into an object and a symbolic offset.
static bool SplitAddr(E a, Model const& m, uint64_t& id) {
  X.NewEval();
  id = (uint64_t)X.Eval(a, m) >> kShift;
  return true;
}

E Executor::SymTableLoad(MemObj const* o, E off, unsigned bytes, unsigned w) {
  // Binary decision tree over the bits of `off`.
  auto& memo = tablecache_[o->version * 1000003 + o->base + bytes];
  auto it = memo.find(off);
  if (it != memo.end()) return it->second;
  u128 mx = X.umax(off);
  uint64_t last = o->size - bytes;
  if (mx < last) last = (uint64_t)mx;
  unsigned bits = 0;
  while ((last >> bits) != 0) ++bits;
  // Known-zero low bits (stride).
  unsigned low = 0;
  while (low < bits) {
    E b = X.Extract(off, low, 1);
    if (b->k == K::Const && b->c == 0) ++low;
    else break;
  }
  std::function<E(unsigned, uint64_t)> build = [&](unsigned bit, uint64_t prefix) -> E {
    if (bit == low) {
      if (prefix > last || prefix + bytes > o->size) return nullptr;
      return ToE(LoadScalar(o, prefix, bytes, w), w);
    }
    if (prefix > last) return nullptr;
    E b = X.Extract(off, bit - 1, 1);
    if (b->k == K::Const)
      return build(bit - 1, prefix | ((uint64_t)b->c << (bit - 1)));
    if (bit - low <= 8 && w <= 64 && bit - low < w && prefix + (1ull << bit) - (1ull << low) <= last) {
      // Consecutive values need no tree.
      uint64_t n = 1ull << (bit - low), v0 = 0;
      bool linear = true;
      for (uint64_t i = 0; i < n && linear; ++i) {
        Val v = LoadScalar(o, prefix + (i << low), bytes, w);
        if (v.e || v.agg) { linear = false; break; }
        if (i == 0) { v0 = (uint64_t)v.c; linear = (v0 & (n - 1)) == 0; }
        else linear = (uint64_t)v.c == v0 + i;
      }
      if (linear) return X.OrB(X.Const(v0, w), X.ZExt(X.Extract(off, low, bit - low), w));
    }
    E l = build(bit - 1, prefix);
    E h = build(bit - 1, prefix | (1ull << (bit - 1)));
    if (!h) return l;
    if (!l) return h;
    if (l->real || h->real) throw Unsupported{"symbolic index into reals"};
    return X.Ite(b, h, l);
  };
  E r = build(bits, 0);
  if (!r) throw Unsupported{"symbolic load"};
  memo[off] = r;
  return r;
}

Val Executor::Load(Type* t, Val const& ptr) {
  uint64_t size = DL.getTypeStoreSize(t);
  uint64_t off;
  if (!ptr.e) {
    MemObj const* o = Obj(ptr.c, size, false, off);
    return LoadAt(o, off, t);
  }
  E a = opt.split ? SplitAddress(ptr.e) : Resolve(ptr.e);
  if (a->k == K::Const) {
    MemObj const* o = Obj((uint64_t)a->c, size, false, off);
    return LoadAt(o, off, t);
  }
  uint64_t addr;
  if (a->k == K::Ite) {
    // Choice between pointers: decide it.
    bool c = Decide(a->a[0]);
    return Load(t, FromE(c ? a->a[1] : a->a[2]));
  }
  if (!S->model) {
    addr = Concrete(Val(a), 64);
  } else {
    uint64_t id;
    SplitAddr(a, *S->model, id);
    MemObj const* o = S->mem.get(id);
    if (o == nullptr || o->freed || size > o->size) {
      addr = Concrete(Val(a), 64);
    } else {
      E offe = X.Sub(a, X.Const(o->base, 64));
      // In bounds?
      E in = X.Ule(offe, X.Const(o->size - size, 64));
      if (!Decide(in)) {
        Obj(Concrete(Val(a), 64), size, false, off);  // usually throws
        throw Retry{};
      }
      bool scalar = !t->isStructTy() && !t->isArrayTy() && !t->isVectorTy();
      if (scalar && !(opt.real && t->isDoubleTy()) && o->size <= 1 << 19) {
        unsigned w = ScalarBits(t, DL);
        if (opt.real) {
          // Reals cannot be selected by a bit-vector: decide the address.
          try {
            return FromE(Resolve(SymTableLoad(o, offe, (w + 7) / 8, w)));
          } catch (Unsupported const&) {
            return Load(t, Val(Concrete(Val(a), 64)));
          }
        }
        E r = SymTableLoad(o, offe, (w + 7) / 8, w);
        return FromE(Resolve(r));
      }
      addr = Concrete(Val(a), 64);
    }
  }
  MemObj const* o = Obj(addr, size, false, off);
  return LoadAt(o, off, t);
}

void Executor::Store(Type* t, Val const& v, Val const& ptr) {
  uint64_t size = DL.getTypeStoreSize(t);
  uint64_t off;
  uint64_t addr = ptr.c;
  if (ptr.e) {
    E a = (opt.split ? SplitAddress(ptr.e) : Resolve(ptr.e));
    if (a->k == K::Ite) {
      bool c = Decide(a->a[0]);
      Store(t, v, FromE(c ? a->a[1] : a->a[2]));
      return;
    }
    addr = Concrete(Val(a), 64);
  }
  MemObj const* o = Obj(addr, size, true, off);
  StoreAt(S->mem.write(o->base >> kShift), off, t, v);
}

void Executor::MemCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (n == 0) return;
  uint64_t so, dof;
  MemObj const* src = Obj(s, n, false, so);
  MemObj const* dc = Obj(d, n, true, dof);
  if (src == dc && so == dof) return;
  std::vector<uint8_t> tmp(src->data.begin() + so, src->data.begin() + so + n);
  std::vector<ByteRef> stmp;
  bool hs = false;
  if (src->sym) {
    stmp.assign(src->sym->begin() + so, src->sym->begin() + so + n);
    for (auto& b : stmp)
      if (b.e) hs = true;
  }
  MemObj* dst = S->mem.write(dc->base >> kShift);
  dst->version = ++version_;
  memcpy(&dst->data[dof], tmp.data(), n);
  if (hs) {
    if (!dst->sym) dst->sym = std::make_unique<std::vector<ByteRef>>(dst->size);
    for (uint64_t i = 0; i < n; ++i) (*dst->sym)[dof + i] = stmp[i];
  } else if (dst->sym) {
    for (uint64_t i = 0; i < n; ++i) (*dst->sym)[dof + i].e = nullptr;
  }
}

std::string Executor::CString(uint64_t addr) {
  std::string r;
  for (;;) {
    uint64_t off;
    MemObj const* o = Obj(addr + r.size(), 1, false, off);
    Val v = LoadScalar(o, off, 1, 8);
    if (v.e) throw Unsupported{"symbolic string as a name"};
    if (v.c == 0) return r;
    r.push_back((char)v.c);
  }
}

// ---------------------------------------------------------------- arithmetic
static E RAbsSign(E) { return nullptr; }

Val Executor::BinOp(unsigned op, Type* t, Val const& a, Val const& b) {
  if (t->isVectorTy()) {
    auto v = std::make_shared<std::vector<Val>>();
    Type* et = cast<FixedVectorType>(t)->getElementType();
    for (size_t i = 0; i < a.agg->size(); ++i)
      v->push_back(BinOp(op, et, (*a.agg)[i], (*b.agg)[i]));
    Val r;
    r.agg = v;
    return r;
  }
  unsigned w = t->getIntegerBitWidth();
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c, m = Mask64(w);
    switch (op) {
      case Instruction::Add: return Val((x + y) & m);
      case Instruction::Sub: return Val((x - y) & m);
      case Instruction::Mul: return Val((x * y) & m);
      case Instruction::And: return Val(x & y);
      case Instruction::Or: return Val(x | y);
      case Instruction::Xor: return Val(x ^ y);
      case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m);
      case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
      case Instruction::AShr: {
        int64_t sx = (int64_t)SExtTo(x, w);
        return Val((uint64_t)(sx >> (y >= w ? w - 1 : y)) & m);
      }
      default: break;
    }
  }
  // Reals manipulated as bits.
  if ((a.e && a.e->real) || (b.e && b.e->real)) {
    Val const& r = a.e && a.e->real ? a : b;
    Val const& o = a.e && a.e->real ? b : a;
    if (!o.e) {
      if (op == Instruction::And && o.c == 0x7fffffffffffffffull) {
        return Decide(X.RLt0(r.e)) ? FromE(X.RNeg(r.e)) : r;
      }
      if (op == Instruction::Xor && o.c == 0x8000000000000000ull) return FromE(X.RNeg(r.e));
      if (op == Instruction::And && o.c == 0x8000000000000000ull)
        return Val(Decide(X.RLt0(r.e)) ? 0x8000000000000000ull : 0ull);
      if (op == Instruction::Or && o.c == 0x8000000000000000ull)
        return Decide(X.RLt0(r.e)) ? r : FromE(X.RNeg(r.e));
      if (op == Instruction::Or && o.c == 0) return r;
      if (op == Instruction::Xor && o.c == 0) return r;
      if (op == Instruction::And && o.c == ~0ull) return r;
      if (op == Instruction::And && o.c == 0) return Val((uint64_t)0);
      if (op == Instruction::LShr && o.c == 63 && &r == &a)
        return Val((uint64_t)Decide(X.RLt0(r.e)));
      if (op == Instruction::AShr && o.c == 63 && &r == &a)
        return Val(Decide(X.RLt0(r.e)) ? ~0ull : 0ull);
    }
    throw Unsupported{"integer operation on the bits of a real"};
  }
  E x = ToE(a, w), y = ToE(b, w);
  K k;
  switch (op) {
    case Instruction::Add: k = K::Add; break;
    case Instruction::Sub: k = K::Sub; break;
    case Instruction::Mul: k = K::Mul; break;
    case Instruction::And: k = K::And; break;
    case Instruction::Or: k = K::Or; break;
    case Instruction::Xor: k = K::Xor; break;
    case Instruction::Shl: k = K::Shl; break;
    case Instruction::LShr: k = K::LShr; break;
    case Instruction::AShr: k = K::AShr; break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
    case Instruction::SRem: {
      E z = X.Eq(y, X.Const(0, w));
      if (Decide(z)) throw PathViolation{"arithmetic", "division by zero"};
      k = op == Instruction::UDiv ? K::UDiv
          : op == Instruction::SDiv ? K::SDiv
          : op == Instruction::URem ? K::URem : K::SRem;
      break;
    }
    default: throw Unsupported{"binary operator"};
  }
  return FromE(X.Bin(k, x, y));
}

Val Executor::RealDiv(Val const& a, Val const& b) {
  E x = ToReal(a), y = ToReal(b);
  if (y->k == K::RConst) {
    if (*y->q == 0) throw Unsupported{"division of a real by zero"};
    return FromE(X.RDiv(x, y));
  }
  E z = X.REq0(y);
  if (z->k == K::Const && z->c) throw Unsupported{"division of a real by zero"};
  if (z->k != K::Const) {
    assumptions.insert("real-arithmetic denominators are nonzero");
    // Recorded as a constraint of the path.
    if (!Assume(X.Not(z))) throw Terminate{};
  }
  return FromE(X.RDiv(x, y));
}

Val Executor::FBin(unsigned op, Type* t, Val const& a, Val const& b) {
  if (t->isVectorTy()) {
    auto v = std::make_shared<std::vector<Val>>();
    Type* et = cast<FixedVectorType>(t)->getElementType();
    for (size_t i = 0; i < a.agg->size(); ++i)
      v->push_back(FBin(op, et, (*a.agg)[i], (*b.agg)[i]));
    Val r;
    r.agg = v;
    return r;
  }
  if (t->isX86_FP80Ty() && (a.e || b.e)) throw Unsupported{"long double"};
  if (!a.e && !b.e) {
    if (t->isFloatTy()) {
      uint32_t ua = a.c, ub = b.c, ur;
      float x, y, r;
      memcpy(&x, &ua, 4);
      memcpy(&y, &ub, 4);
      switch (op) {
        case Instruction::FAdd: r = x + y; break;
        case Instruction::FSub: r = x - y; break;
        case Instruction::FMul: r = x * y; break;
        case Instruction::FDiv: r = x / y; break;
        default: r = std::fmod(x, y);
      }
      memcpy(&ur, &r, 4);
      return Val((uint64_t)ur);
    }
    double x = BitsD(a.c), y = BitsD(b.c), r;
    switch (op) {
      case Instruction::FAdd: r = x + y; break;
      case Instruction::FSub: r = x - y; break;
      case Instruction::FMul: r = x * y; break;
      case Instruction::FDiv: r = x / y; break;
      default: r = std::fmod(x, y);
    }
    return Val(DBits(r));
  }
  if (opt.real) {
    if (t->isFloatTy()) throw Unsupported{"binary32 in real mode"};
    // Non-finite constants.
    for (int s = 0; s < 2; ++s) {
      Val const& k = s ? b : a;
      Val const& o = s ? a : b;
      if (!k.e && !std::isfinite(BitsD(k.c))) {
        double d = BitsD(k.c);
        if (std::isnan(d)) return k;
        if (!o.e && !std::isfinite(BitsD(o.c))) {
          double x = BitsD(a.c), y = BitsD(b.c);
          return Val(DBits(op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y
                           : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : std::fmod(x, y)));
        }
        if (op == Instruction::FAdd) return k;
        if (op == Instruction::FSub) return s ? Val(DBits(-d)) : k;
        if (op == Instruction::FDiv && s) return Val((uint64_t)0);
        if (op == Instruction::FMul) {
          if (Decide(X.RLt0(ToReal(o)))) return Val(DBits(-d));
          if (Decide(X.REq0(ToReal(o)))) return Val(DBits(NAN));
          return k;
        }
        if (op == Instruction::FDiv) {
          if (Decide(X.RLt0(ToReal(o)))) return Val(DBits(-d));
          return k;
        }
        throw Unsupported{"infinity in real mode"};
      }
    }
    E x, y;
    switch (op) {
      case Instruction::FAdd: return FromE(X.RAdd(ToReal(a), ToReal(b)));
      case Instruction::FSub: return FromE(X.RSub(ToReal(a), ToReal(b)));
      case Instruction::FMul: return FromE(X.RMul(ToReal(a), ToReal(b)));
      case Instruction::FDiv: return RealDiv(a, b);
      case Instruction::FRem: {
        Val q = RealDiv(a, b);
        Val n = RealRound(3, q);
        return FromE(X.RSub(ToReal(a), X.RMul(ToReal(n), ToReal(b))));
      }
    }
  }
  unsigned w = t->getPrimitiveSizeInBits();
  E x = ToE(a, w), y = ToE(b, w);
  K k = op == Instruction::FAdd ? K::FAdd
        : op == Instruction::FSub ? K::FSub
        : op == Instruction::FMul ? K::FMul
        : op == Instruction::FDiv ? K::FDiv : K::FRem;
  if (k == K::FRem) throw Unsupported{"symbolic fmod"};
  return FromE(X.FOp(k, w, x, y));
}

Val Executor::ICmp(unsigned pred, Type* t, Val const& a, Val const& b) {
  if (t->isVectorTy()) {
    auto v = std::make_shared<std::vector<Val>>();
    Type* et = cast<FixedVectorType>(t)->getElementType();
    for (size_t i = 0; i < a.agg->size(); ++i)
      v->push_back(ICmp(pred, et, (*a.agg)[i], (*b.agg)[i]));
    Val r;
    r.agg = v;
    return r;
  }
  unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c;
    int64_t sx = (int64_t)SExtTo(x, w), sy = (int64_t)SExtTo(y, w);
    bool r = false;
    switch (pred) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break;
      case CmpInst::ICMP_SLE: r = sx <= sy; break;
      case CmpInst::ICMP_SGT: r = sx > sy; break;
      case CmpInst::ICMP_SGE: r = sx >= sy; break;
    }
    return Val((uint64_t)r);
  }
  if ((a.e && a.e->real) || (b.e && b.e->real)) {
    if (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) {
      Val r = FromE(X.REq(ToReal(a), ToReal(b)));
      if (pred == CmpInst::ICMP_NE)
        return r.e ? FromE(X.Not(r.e)) : Val(r.c ^ 1);
      return r;
    }
    if (a.e && a.e->real && !b.e) {
      if (pred == CmpInst::ICMP_SLT && b.c == 0) return FromE(X.RLt0(a.e));
      if (pred == CmpInst::ICMP_SGT && b.c == ~0ull) return FromE(X.Not(X.RLt0(a.e)));
    }
    throw Unsupported{"integer comparison of the bits of a real"};
  }
  E x = ToE(a, w), y = ToE(b, w);
  E r;
  switch (pred) {
    case CmpInst::ICMP_EQ: r = X.Eq(x, y); break;
    case CmpInst::ICMP_NE: r = X.Not(X.Eq(x, y)); break;
    case CmpInst::ICMP_ULT: r = X.Ult(x, y); break;
    case CmpInst::ICMP_ULE: r = X.Ule(x, y); break;
    case CmpInst::ICMP_UGT: r = X.Ult(y, x); break;
    case CmpInst::ICMP_UGE: r = X.Ule(y, x); break;
    case CmpInst::ICMP_SLT: r = X.Slt(x, y); break;
    case CmpInst::ICMP_SLE: r = X.Sle(x, y); break;
    case CmpInst::ICMP_SGT: r = X.Slt(y, x); break;
    default: r = X.Sle(y, x); break;
  }
  return FromE(r);
}

Val Executor::FCmp(unsigned pred, Type* t, Val const& a, Val const& b) {
  if (t->isVectorTy()) {
    auto v = std::make_shared<std::vector<Val>>();
    Type* et = cast<FixedVectorType>(t)->getElementType();
    for (size_t i = 0; i < a.agg->size(); ++i)
      v->push_back(FCmp(pred, et, (*a.agg)[i], (*b.agg)[i]));
    Val r;
    r.agg = v;
    return r;
  }
  bool f32 = t->isFloatTy();
  if (!a.e && !b.e) {
    double x, y;
    if (f32) {
      uint32_t ua = a.c, ub = b.c;
      float fx, fy;
      memcpy(&fx, &ua, 4);
      memcpy(&fy, &ub, 4);
      x = fx;
      y = fy;
    } else {
      x = BitsD(a.c);
      y = BitsD(b.c);
    }
    bool u = std::isnan(x) || std::isnan(y), r = false;
    switch (pred) {
      case CmpInst::FCMP_FALSE: r = false; break;
      case CmpInst::FCMP_OEQ: r = !u && x == y; break;
      case CmpInst::FCMP_OGT: r = x > y; break;
      case CmpInst::FCMP_OGE: r = x >= y; break;
      case CmpInst::FCMP_OLT: r = x < y; break;
      case CmpInst::FCMP_OLE: r = x <= y; break;
      case CmpInst::FCMP_ONE: r = !u && x != y; break;
      case CmpInst::FCMP_ORD: r = !u; break;
      case CmpInst::FCMP_UNO: r = u; break;
      case CmpInst::FCMP_UEQ: r = u || x == y; break;
      case CmpInst::FCMP_UGT: r = u || x > y; break;
      case CmpInst::FCMP_UGE: r = u || x >= y; break;
      case CmpInst::FCMP_ULT: r = u || x < y; break;
      case CmpInst::FCMP_ULE: r = u || x <= y; break;
      case CmpInst::FCMP_UNE: r = u || x != y; break;
      case CmpInst::FCMP_TRUE: r = true; break;
    }
    return Val((uint64_t)r);
  }
  if (opt.real) {
    for (int s = 0; s < 2; ++s) {
      Val const& k = s ? b : a;
      if (!k.e && !std::isfinite(BitsD(k.c))) {
        double d = BitsD(k.c);
        // Compare as if the other one were 0.
        Val zero((uint64_t)0), kk(DBits(d));
        return s ? FCmp(pred, t, zero, kk) : FCmp(pred, t, kk, zero);
      }
    }
    switch (pred) {
      case CmpInst::FCMP_FALSE: case CmpInst::FCMP_UNO: return Val((uint64_t)0);
      case CmpInst::FCMP_TRUE: case CmpInst::FCMP_ORD: return Val((uint64_t)1);
      default: break;
    }
    E x = ToReal(a), y = ToReal(b);
    switch (pred) {
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return FromE(X.REq(x, y));
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return FromE(X.Not(X.REq(x, y)));
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return FromE(X.RLt(x, y));
      case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return FromE(X.RLe(x, y));
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return FromE(X.RLt(y, x));
      default: return FromE(X.RLe(y, x));
    }
  }
  unsigned w = f32 ? 32 : 64;
  E x = ToE(a, w), y = ToE(b, w);
  E uno = X.FOp(K::FUno, 1, x, y);
  E r;
  switch (pred) {
    case CmpInst::FCMP_FALSE: r = X.False(); break;
    case CmpInst::FCMP_TRUE: r = X.True(); break;
    case CmpInst::FCMP_OEQ: r = X.FOp(K::FOeq, 1, x, y); break;
    case CmpInst::FCMP_OGT: r = X.FOp(K::FOlt, 1, y, x); break;
    case CmpInst::FCMP_OGE: r = X.FOp(K::FOle, 1, y, x); break;
    case CmpInst::FCMP_OLT: r = X.FOp(K::FOlt, 1, x, y); break;
    case CmpInst::FCMP_OLE: r = X.FOp(K::FOle, 1, x, y); break;
    case CmpInst::FCMP_ONE:
      r = X.AndB(X.Not(uno), X.Not(X.FOp(K::FOeq, 1, x, y)));
      break;
    case CmpInst::FCMP_ORD: r = X.Not(uno); break;
    case CmpInst::FCMP_UNO: r = uno; break;
    case CmpInst::FCMP_UEQ: r = X.OrB(uno, X.FOp(K::FOeq, 1, x, y)); break;
    case CmpInst::FCMP_UGT: r = X.Not(X.FOp(K::FOle, 1, x, y)); break;
    case CmpInst::FCMP_UGE: r = X.Not(X.FOp(K::FOlt, 1, x, y)); break;
    case CmpInst::FCMP_ULT: r = X.Not(X.FOp(K::FOle, 1, y, x)); break;
    case CmpInst::FCMP_ULE: r = X.Not(X.FOp(K::FOlt, 1, y, x)); break;
    default: r = X.Not(X.FOp(K::FOeq, 1, x, y)); break;
  }
  return FromE(r);
}

Val Executor::Cast(unsigned op, Type* from, Type* to, Val const& a) {
  if (op == Instruction::BitCast && (from->isVectorTy() || to->isVectorTy())) {
    // Through bytes.
    uint64_t n = DL.getTypeStoreSize(from);
    MemObj o;
    o.size = n;
    o.data.assign(n, 0);
    StoreAt(&o, 0, from, a);
    return LoadAt(&o, 0, to);
  }
  if (from->isVectorTy()) {
    auto v = std::make_shared<std::vector<Val>>();
    Type* fe = cast<FixedVectorType>(from)->getElementType();
    Type* te = cast<FixedVectorType>(to)->getElementType();
    for (size_t i = 0; i < a.agg->size(); ++i) v->push_back(Cast(op, fe, te, (*a.agg)[i]));
    Val r;
    r.agg = v;
    return r;
  }
  unsigned fw = ScalarBits(from, DL), tw = ScalarBits(to, DL);
  switch (op) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::AddrSpaceCast:
      if (fw == tw) return a;
      if (op == Instruction::BitCast) return a;
      if (fw > tw) return a.e ? FromE(X.Extract(a.e, 0, tw)) : Val(a.c & Mask64(tw));
      return a.e ? FromE(X.ZExt(a.e, tw)) : a;
    case Instruction::Trunc:
      if (!a.e) return Val(a.c & Mask64(tw));
      if (a.e->real) throw Unsupported{"truncating the bits of a real"};
      return FromE(X.Extract(a.e, 0, tw));
    case Instruction::ZExt:
      if (!a.e && tw <= 64) return a;
      return FromE(X.ZExt(ToE(a, fw), tw));
    case Instruction::SExt:
      if (!a.e && tw <= 64) return Val((uint64_t)SExtTo(a.c, fw) & Mask64(tw));
      return FromE(X.SExt(ToE(a, fw), tw));
    case Instruction::FPTrunc: case Instruction::FPExt:
      if (from->isX86_FP80Ty() || to->isX86_FP80Ty()) {
        if (a.e) throw Unsupported{"long double"};
        return a;
      }
      if (opt.real && a.e && a.e->real) {
        // To binary32 and back: rounding is not modelled.
        return a;
      }
      return FromE(X.FOp(K::FCvt, tw, ToE(a, fw)));
    case Instruction::SIToFP: case Instruction::UIToFP: {
      if (to->isX86_FP80Ty()) {
        if (a.e) throw Unsupported{"long double"};
        return Val(DBits(op == Instruction::SIToFP ? (double)(int64_t)SExtTo(a.c, fw) : (double)a.c));
      }
      if (opt.real && a.e) return FromE(X.FromBV(a.e, op == Instruction::SIToFP));
      return FromE(X.FOp(op == Instruction::SIToFP ? K::SIToF : K::UIToF, tw, ToE(a, fw)));
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      if (from->isX86_FP80Ty()) {
        if (a.e) throw Unsupported{"long double"};
        double d = BitsD(a.c);
        return Val((op == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d) & Mask64(tw));
      }
      if (a.e && a.e->real) {
        if (a.e->k == K::RVar && X.vars[a.e->aux].special == VarInfo::FromBV) {
          VarInfo const& vi = X.vars[a.e->aux];
          unsigned w = vi.arg->w;
          if (w == tw) return FromE(vi.arg);
          if (w > tw) return FromE(X.Extract(vi.arg, 0, tw));
          return FromE(vi.arg_signed ? X.SExt(vi.arg, tw) : X.ZExt(vi.arg, tw));
        }
        Val r = RealRound(3, a);
        double d = BitsD(r.c);
        return Val((op == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d) & Mask64(tw));
      }
      return FromE(X.FOp(op == Instruction::FPToSI ? K::FToSI : K::FToUI, tw, ToE(a, fw)));
    }
    default: throw Unsupported{"cast"};
  }
}

Val Executor::Select(Val const& c, Val const& a, Val const& b, Type* t) {
  if (c.agg) {
    auto v = std::make_shared<std::vector<Val>>();
    Type* et = cast<FixedVectorType>(t)->getElementType();
    for (size_t i = 0; i < c.agg->size(); ++i)
      v->push_back(Select((*c.agg)[i], (*a.agg)[i], (*b.agg)[i], et));
    Val r;
    r.agg = v;
    return r;
  }
  if (!c.e) return c.c & 1 ? a : b;
  if (a.agg || t->isPointerTy() || (a.e && a.e->real) || (b.e && b.e->real) ||
      (opt.real && t->isDoubleTy())) {
    if (!a.e && !b.e && !a.agg && a.c == b.c) return a;
    return Decide(c.e) ? a : b;
  }
  unsigned w = ScalarBits(t, DL);
  return FromE(X.Ite(c.e, ToE(a, w), ToE(b, w)));
}

// -------------------------------------------------------------- real analysis
Val Executor::RealRound(int mode, Val const& a) {
  // 0 nearest, 1 floor, 2 ceil, 3 trunc, 4 round half away.
  E x = ToReal(a);
  if (x->k == K::RConst) {
    double d = x->q->get_d();
    double r = mode == 0 ? std::nearbyint(d) : mode == 1 ? std::floor(d)
               : mode == 2 ? std::ceil(d) : mode == 3 ? std::trunc(d) : std::round(d);
    return Val(DBits(r));
  }
  if (x->k == K::RVar && X.vars[x->aux].special == VarInfo::FromBV) return Val(x);
  // Already decided?
  if (!S->model) {
    auto m = std::make_shared<Model>();
    Res q = solver.CheckAll(S->pc, m.get(), opt.timeout_ms);
    if (q == Res::Unsat) throw Terminate{};
    if (q == Res::Unknown) throw Unsupported{"rounding of a real: solver gave up"};
    S->model = m;
  }
  X.NewEval();
  double d = X.EvalR(x, *S->model);
  auto R = [](double v) { return X.RConstD(v); };
  double k;
  bool ok;
  switch (mode) {
    case 1:
      k = std::floor(d);
      ok = Decide(X.RLe(R(k), x)) && Decide(X.RLt(x, R(k + 1)));
      break;
    case 2:
      k = std::ceil(d);
      ok = Decide(X.RLt(R(k - 1), x)) && Decide(X.RLe(x, R(k)));
      break;
    case 3:
      k = std::trunc(d);
      if (k > 0) ok = Decide(X.RLe(R(k), x)) && Decide(X.RLt(x, R(k + 1)));
      else if (k < 0) ok = Decide(X.RLt(R(k - 1), x)) && Decide(X.RLe(x, R(k)));
      else ok = Decide(X.RLt(R(-1), x)) && Decide(X.RLt(x, R(1)));
      break;
    default: {
      k = mode == 0 ? std::nearbyint(d) : std::round(d);
      // Ties are resolved per mode.
      bool even = std::fmod(k, 2) == 0;
      bool lo_in = mode == 0 ? even : k > 0;
      bool hi_in = mode == 0 ? even : k < 0;
      E lo = lo_in ? X.RLe(R(k - 0.5), x) : X.RLt(R(k - 0.5), x);
      E hi = hi_in ? X.RLe(x, R(k + 0.5)) : X.RLt(x, R(k + 0.5));
      ok = Decide(lo) && Decide(hi);
    }
  }
  if (!ok) {
    // The floating-point evaluation of the model is off: re-query.
    S->model.reset();
    throw Retry{};
  }
  return Val(DBits(k));
}

static std::string CanonKey(E e) {
  const RF* f = P.nf(e);
  if (!f) return "#" + std::to_string(e->id);
  std::string s;
  for (auto const& [m, c] : f->num.t) s += std::to_string(m) + ":" + c.get_str(62) + ";";
  s += "/";
  for (auto const& [d, k] : f->den) s += std::to_string(d) + "^" + std::to_string(k) + ";";
  return s;
}

static std::vector<uint32_t> Deps(E e) { return *e->vs; }

static std::map<std::string, E> g_roots;
struct RootPoly {
  std::string signature;
  Poly poly;
  E root;
};
static std::vector<RootPoly> g_rootpolys;
// Identifies the rules that are specific to the current state.
static std::string g_rulesignature;

void Executor::SetRuleSignature() {
  g_rulesignature.clear();
  for (auto const& r : S->rules)
    g_rulesignature += std::to_string(r.var) + "^" + std::to_string(r.n) + "=" + P.Str(r.value) + "|";
}

void Executor::SwitchRules() {
  if (installed_.empty() && S->rules.empty()) return;
  for (uint32_t v : installed_) P.RemoveRule(v);
  installed_.clear();
  for (auto const& r : S->rules) {
    P.AddRule(r.var, r.n, r.value, false);
    installed_.push_back(r.var);
  }
  SetRuleSignature();
}

Val Executor::RealSqrt(Val const& a, unsigned n) {
  E x = ToReal(a);
  if (!sqrt_domain_) assumptions.insert("arguments of square roots are nonnegative");
  auto negative = [&](E e) { return sqrt_domain_ && n % 2 == 0 && Decide(X.RLt0(e)); };
  const RF* f = P.nf(x);
  auto root = [&](E arg, Poly const* rule) -> E {
    std::string key = g_rulesignature + std::to_string(n) + "|" + CanonKey(arg);
    auto it = g_roots.find(key);
    if (it != g_roots.end()) return it->second;
    E v = X.RVar("!root" + std::to_string(g_roots.size()), Deps(arg));
    VarInfo& vi = X.vars[v->aux];
    vi.special = VarInfo::Root;
    vi.arg = arg;
    vi.n = n;
    g_roots[key] = v;
    if (rule) {
      P.AddRule(v->aux, n, *rule, true);
      if (n == 2) g_rootpolys.push_back({g_rulesignature, *rule, v});
    }
    return v;
  };
  auto absE = [&](E e) -> E { return Decide(X.RLt0(e)) ? X.RNeg(e) : e; };
  Val const nan(DBits(NAN));
  if (!f) return negative(x) ? nan : FromE(root(x, nullptr));
  if (f->num.zero()) return Val((uint64_t)0);
  if (n == 3) {
    // Take the cubes of monomials out.
    auto cube = [&](Poly const& p, Poly& out, mpq_class& rest) {
      // p = rest * out^3 with rest a constant.
      if (p.t.size() != 1) return false;
      E x = X.RConst(1);
      for (auto const& [v, e] : P.monos[p.t[0].first].v) {
        if (e % 3 != 0) return false;
        for (uint32_t i = 0; i < e / 3; ++i) x = X.RMul(x, X.vars[v].e);
      }
      const RF* g = P.nf(x);
      if (!g || !g->den.empty()) return false;
      out = g->num;
      rest = p.t[0].second;
      return true;
    };
    auto constant_root = [&](mpq_class const& q) -> E {
      mpz_class a, b, n = q.get_num(), d = q.get_den();
      if (mpz_root(a.get_mpz_t(), n.get_mpz_t(), 3) && mpz_root(b.get_mpz_t(), d.get_mpz_t(), 3))
        return X.RConst(mpq_class(a, b));
      return X.RConstD(std::cbrt(q.get_d()));
    };
    Poly out;
    mpq_class rest;
    if (cube(f->num, out, rest)) {
      E r = X.RMul(constant_root(rest), P.ToExpr(out));
      bool ok = true;
      for (auto const& [d, e] : f->den) {
        Poly o = P.polys[d];
        mpq_class q = 1;
        if (e % 3 != 0) {
          if (!cube(P.polys[d], o, q)) { ok = false; break; }
          for (uint32_t i = 0; i < e; ++i) r = X.RDiv(r, X.RMul(constant_root(q), P.ToExpr(o)));
        } else {
          for (uint32_t i = 0; i < e / 3; ++i) r = X.RDiv(r, P.ToExpr(o));
        }
      }
      if (ok) return FromE(r);
    }
  }
  if (n != 2) {
    if (!f->den.empty()) return FromE(root(x, nullptr));
    return FromE(root(x, &f->num));
  }
  Poly N = f->num;
  Poly outer = P.cst(1), odd = P.cst(1);
  bool big = false;
  for (auto const& [d, e] : f->den) {
    for (uint32_t i = 0; i < e / 2; ++i) big |= !P.mul(Poly(outer), P.polys[d], outer);
    if (e % 2) big |= !P.mul(Poly(odd), P.polys[d], odd);
  }
  Poly R;
  if (big || !P.mul(N, odd, R)) return negative(x) ? nan : FromE(root(x, nullptr));
  E den = absE(X.RMul(P.ToExpr(outer), P.ToExpr(odd)));
  // The root of a polynomial that is a square, possibly up to sin² → 1 - cos².
  auto psqrt = [&](Poly const& p) -> E {
    Poly r, q;
    if (P.sqrt(p, r)) return absE(P.ToExpr(r));
    std::set<uint32_t> vs;
    for (auto const& [m, c] : p.t)
      for (auto const& [v, e] : P.monos[m].v) vs.insert(v);
    for (uint32_t v : vs) {
      if (X.vars[v].special != VarInfo::Cos) continue;
      uint32_t sv = X.vars[v].n;
      auto rule = P.rules.find(sv);
      if (rule == P.rules.end() || rule->second.first != 2) continue;
      if (P.divexact(p, rule->second.second, q) && P.sqrt(q, r))
        return absE(X.RMul(X.vars[sv].e, P.ToExpr(r)));
    }
    return nullptr;
  };
  // sqrt(R)
  E s = psqrt(R);
  if (!s && sqrt_domain_ && psqrt(P.scale(R, -1)))
    return Decide(X.REq0(P.ToExpr(R))) ? Val((uint64_t)0) : nan;
  if (!s) {
    for (auto const& [signature, p, v] : g_rootpolys) {
      Poly q;
      if (p.isconst() || signature != g_rulesignature) continue;
      E sq = nullptr;
      bool quotient = false;
      if (P.divexact(R, p, q) && (sq = psqrt(q))) quotient = true;
      else if (P.mul(R, p, q)) sq = psqrt(q);
      if (!sq) continue;
      if (negative(P.ToExpr(p))) return nan;
      s = X.RMul(sq, v);
      if (!quotient) s = X.RDiv(s, P.ToExpr(p));
      break;
    }
    // Products of two known roots.
    for (size_t i = 0; !s && i < g_rootpolys.size(); ++i) {
      auto const& [signature, p, v] = g_rootpolys[i];
      if (p.isconst() || signature != g_rulesignature) continue;
      for (size_t j = 0; j < i; ++j) {
        auto const& [signature2, p2, v2] = g_rootpolys[j];
        Poly q, q2, sq;
        if (p2.isconst() || signature2 != g_rulesignature) continue;
        if (P.divexact(R, p, q) && P.divexact(q, p2, q2) && P.sqrt(q2, sq)) {
          if (negative(P.ToExpr(p)) || negative(P.ToExpr(p2))) continue;
          s = X.RMul(absE(P.ToExpr(sq)), X.RMul(v, v2));
          break;
        }
      }
    }
  }
  if (!s) {
    if (negative(P.ToExpr(R))) return nan;
    MonoId l = P.lead(R);
    mpq_class lc;
    for (auto const& t : R.t)
      if (t.first == l) lc = t.second;
    mpq_class alc = abs(lc);
    Poly c = P.cst(alc), rc;
    if (alc != 1 && P.sqrt(c, rc)) {
      Poly R2 = P.scale(R, 1 / alc);
      s = X.RMul(X.RConst(rc.cst()), root(P.ToExpr(R2), &R2));
    } else {
      s = root(P.ToExpr(R), &R);
    }
  }
  return FromE(X.RDiv(s, den));
}

E Executor::AngleVar(std::string const& name, E cosv, E sinv, std::vector<uint32_t> const& deps) {
  E v = X.RVar(name, deps);
  trig_["v" + std::to_string(v->aux)] = {sinv, cosv};
  angles_.insert(v->aux);
  return v;
}

// Opaque pair for an angle.
bool Executor::TrigBase(E angle, E* s, E* c) {
  std::string key = g_rulesignature + "a" + CanonKey(angle);
  auto it = trig_.find(key);
  if (it == trig_.end()) {
    std::string n = std::to_string(trig_.size());
    std::vector<uint32_t> deps = Deps(angle);
    E cv = X.RVar("!cos" + n, deps);
    E sv = X.RVar("!sin" + n, deps);
    VarInfo& ci = X.vars[cv->aux];
    ci.special = VarInfo::Cos;
    ci.arg = angle;
    ci.n = sv->aux;
    VarInfo& si = X.vars[sv->aux];
    si.special = VarInfo::Sin;
    si.arg = angle;
    si.n = cv->aux;
    // s^2 -> 1 - c^2
    Poly c2;
    P.mul(P.var(cv->aux), P.var(cv->aux), c2);
    P.AddRule(sv->aux, 2, P.add(P.cst(1), c2, -1), true);
    it = trig_.emplace(key, std::make_pair(sv, cv)).first;
  }
  *s = it->second.first;
  *c = it->second.second;
  return true;
}

void Executor::RealSinCos(E a, E* s, E* c) {
  const RF* f = P.nf(a);
  if (!f || !f->den.empty()) {
    TrigBase(a, s, c);
    return;
  }
  E cs = X.RConst(1), sn = X.RConst(0);
  auto combine = [&](E c2, E s2) {
    E nc = X.RSub(X.RMul(cs, c2), X.RMul(sn, s2));
    E ns = X.RAdd(X.RMul(sn, c2), X.RMul(cs, s2));
    cs = nc;
    sn = ns;
  };
  for (auto const& [m, q] : f->num.t) {
    if (m == 0) {
      double d = q.get_d();
      // Multiples of pi/2 are recognised up to rounding.
      double k = d / (M_PI / 2);
      double rk = std::round(k);
      if (std::abs(rk) < 1e6 && std::abs(d - rk * (M_PI / 2)) <= 4e-16 * std::abs(d)) {
        int i = (((long)rk % 4) + 4) % 4;
        int tc[] = {1, 0, -1, 0}, ts[] = {0, 1, 0, -1};
        assumptions.insert("trigonometric functions at the double nearest k*pi/2 are exact");
        combine(X.RConst(tc[i]), X.RConst(ts[i]));
      } else {
        combine(X.RConstD(std::cos(d)), X.RConstD(std::sin(d)));
      }
      continue;
    }
    E bs, bc;
    mpq_class k;
    auto const& mv = P.monos[m].v;
    bool known = false;
    if (mv.size() == 1 && mv[0].second == 1) {
      auto it = trig_.find("v" + std::to_string(mv[0].first));
      if (it != trig_.end()) {
        bs = it->second.first;
        bc = it->second.second;
        k = q;
        known = k.get_den() == 1;
      }
    }
    if (!known) {
      k = q * angle_den_;
      Poly base;
      base.t.push_back({m, mpq_class(1, angle_den_)});
      if (k.get_den() != 1 || abs(k) > 64) {
        k = 1;
        base.t[0].second = q;
        if (q < 0) {
          k = -1;
          base.t[0].second = -q;
        }
      }
      base.t[0].second.canonicalize();
      TrigBase(P.ToExpr(base), &bs, &bc);
      if (mv.size() == 1 && mv[0].second == 1 && base.t[0].second == mpq_class(1, 2) &&
          vf_angles_.count(mv[0].first)) {
        // The angles of the harnesses are in [-π, π].
        if (!Assume(X.RLe(X.RConst(0), bc))) throw Terminate{};
      }
      if (mv.size() == 1 && mv[0].second == 1 && base.t[0].second <= 1 &&
          vf_angles_.count(mv[0].first)) {
        E angle = X.vars[mv[0].first].e, zero = X.RConst(0);
        if (!Assume(X.OrB(X.AndB(X.RLe(zero, angle), X.RLe(zero, bs)),
                         X.AndB(X.RLe(angle, zero), X.RLe(bs, zero)))))
          throw Terminate{};
      }
    }
    long n = k.get_num().get_si();
    if (n < 0) {
      bs = X.RNeg(bs);
      n = -n;
    }
    for (long i = 0; i < n; ++i) combine(bc, bs);
  }
  *s = sn;
  *c = cs;
}

Val Executor::RealAtan2(Val const& y, Val const& x) {
  for (Val const* v : {&y, &x})
    if (!v->e && std::isnan(BitsD(v->c))) return *v;
  E ey = ToReal(y), ex = ToReal(x);
  std::string key = g_rulesignature + "t" + CanonKey(ey) + "|" + CanonKey(ex);
  auto it = trig_.find(key);
  if (it != trig_.end()) return Val(it->second.first);
  Val r2 = FromE(X.RAdd(X.RMul(ex, ex), X.RMul(ey, ey)));
  Val r = RealSqrt(r2, 2);
  E er = ToReal(r);
  if (er->k == K::RConst && *er->q == 0) return Val((uint64_t)0);
  E z = X.REq0(er);
  if (z->k != K::Const) {
    assumptions.insert("arguments of atan2 are not both zero");
    if (!Assume(X.Not(z))) throw Terminate{};
  }
  std::vector<uint32_t> deps = Deps(ey);
  for (uint32_t v : Deps(ex)) deps.push_back(v);
  // An angle in [-π, π] whose sine and cosine are known.
  {
    E ce = X.RDiv(ex, er), se = X.RDiv(ey, er);
    std::string ck = CanonKey(ce), sk = CanonKey(se), nk = CanonKey(X.RNeg(se));
    for (uint32_t a : angles_) {
      E base = X.vars[a].e, s, c;
      RealSinCos(base, &s, &c);
      if (CanonKey(c) != ck) continue;
      std::string as = CanonKey(s);
      if (as != sk && as != nk) continue;
      if (as == sk) return FromE(base);
      return FromE(X.RNeg(base));
    }
    // Also halves of them.
    if (angle_den_ == 2) {
      for (uint32_t a : angles_) {
        E s, c, half = X.RMul(X.RConst(mpq_class(1, 2)), X.vars[a].e);
        RealSinCos(half, &s, &c);
        if (CanonKey(c) != ck) continue;
        std::string as = CanonKey(s);
        if (as == sk) return FromE(half);
        if (as == nk) return FromE(X.RNeg(half));
      }
    }
  }
  E v = AngleVar("!atan" + std::to_string(trig_.size()), X.RDiv(ex, er), X.RDiv(ey, er), deps);
  VarInfo& vi = X.vars[v->aux];
  vi.special = VarInfo::Atan2;
  vi.arg = ey;
  vi.arg2 = ex;
  bounds_[v->aux] = 3.1415926535897936;
  trig_[key] = {v, v};
  return Val(v);
}

// --------------------------------------------------------------------- report
std::string Executor::Where() {
  auto& fr = *S->th().stack.back();
  if (fr.pc == 0 || fr.pc > fr.f->insts.size()) return fr.f->demangled;
  Instruction const* I = fr.f->insts[fr.pc - 1 < fr.f->insts.size() ? fr.pc - 1 : 0].I;
  if (fr.pc < fr.f->insts.size()) I = fr.f->insts[fr.pc].I;
  std::string s;
  if (auto const& dl = I->getDebugLoc()) {
    s = dl->getFilename().str() + ":" + std::to_string(dl.getLine());
  }
  return s + " in " + fr.f->demangled.substr(0, 200);
}

std::vector<std::string> Executor::Stack() {
  std::vector<std::string> r;
  auto& st = S->th().stack;
  for (size_t i = st.size(); i-- > 0 && r.size() < 12;) {
    auto& fr = *st[i];
    std::string s;
    unsigned pc = fr.pc < fr.f->insts.size() ? fr.pc : 0;
    if (auto const& dl = fr.f->insts[pc].I->getDebugLoc())
      s = dl->getFilename().str() + ":" + std::to_string(dl.getLine()) + " ";
    r.push_back(s + fr.f->demangled.substr(0, 160));
  }
  return r;
}

std::vector<std::pair<std::string, std::string>> Executor::Assignment(Model const& m) {
  std::vector<std::pair<std::string, std::string>> r;
  X.NewEval();
  for (auto const& in : S->inputs) {
    uint64_t v = in.c;
    if (in.e) {
      if (in.e->real) v = DBits(X.EvalR(in.e, m));
      else v = (uint64_t)X.Eval(in.e, m);
    }
    char buf[64];
    snprintf(buf, sizeof buf, "%016llx", (unsigned long long)v);
    r.push_back({in.name, buf});
  }
  return r;
}

void Executor::Report(std::string const& kind, std::string const& id, Model const* m) {
  std::string key = kind + "|" + id;
  if (violcount_[key]++ >= opt.max_violations) return;
  Violation v;
  v.kind = kind;
  v.id = id;
  v.where = Where();
  v.stack = Stack();
  if (m) v.assignment = Assignment(*m);
  violations.push_back(v);
}

void Executor::WriteTrace(Model const& m) {
  if (opt.trace_dir.empty() || traces_written >= opt.traces) return;
  // Observations must be concrete under the model.
  std::ofstream f(opt.trace_dir + "/trace" + std::to_string(traces_written) + ".txt");
  for (auto const& [n, v] : Assignment(m)) f << n << " " << v << "\n";
  f << "---\n";
  X.NewEval();
  for (auto const& o : S->obs) {
    uint64_t v = o.v.c;
    bool approx = false;
    if (o.v.e) {
      if (o.v.e->real) {
        v = DBits(X.EvalR(o.v.e, m));
        approx = true;
      } else {
        v = (uint64_t)X.Eval(o.v.e, m);
      }
    } else if (o.dbl && opt.real) {
      approx = true;
    }
    char buf[64];
    snprintf(buf, sizeof buf, "%016llx", (unsigned long long)v);
    f << (approx ? "~" : "=") << " " << o.name << " " << buf << "\n";
  }
  ++traces_written;
}

void Executor::FinishPath() {
  ++completed;
  max_inputs = std::max<uint64_t>(max_inputs, S->inputs.size());
  for (auto& i : S->inputs) {
    std::string n = i.name.substr(0, i.name.find('#'));
    input_names.insert(n);
  }
  // Sample paths for validation: the first ones, then powers of two.
  if (traces_written < opt.traces &&
      (completed <= 3 || (completed & (completed - 1)) == 0)) {
    Model m;
    if (S->model) m = *S->model;
    else if (solver.CheckAll(S->pc, &m, opt.timeout_ms) != Res::Sat) return;
    if (opt.real) {
      // The default model is all zeroes, which is seldom interesting; perturb
      // the inputs while the path condition holds.
      uint64_t rng = opt.seed * 77 + completed * 1315423911ull + 1;
      for (int i = 0; i < 40; ++i) {
        Model n = m;
        n.re.resize(X.vars.size(), 0);
        n.bv.resize(X.vars.size(), 0);
        for (uint32_t v = 0; v < X.vars.size(); ++v) {
          if (!X.vars[v].real || X.vars[v].special != VarInfo::None) continue;
          auto it = bounds_.find(v);
          double b = it == bounds_.end() ? 10 : it->second;
          n.re[v] = Sample(rng, -b, b);
        }
        if (Holds(n)) {
          m = n;
          break;
        }
      }
    }
    if (!opt.real || Holds(m)) WriteTrace(m);
  }
}

// -------------------------------------------------------------------- threads
bool Executor::Enabled(Thread const& t) {
  if (t.done) return false;
  if (!t.blocked) return true;
  uint64_t off;
  MemObj const* o = S->mem.get(t.block_addr >> kShift);
  if (!o || o->freed) return true;
  off = t.block_addr - o->base;
  Val v = LoadScalar(o, off, 4, 32);
  if (v.e) throw Unsupported{"blocking on a symbolic word"};
  return v.c != t.block_val;
}

// Picks the next thread to run; called after the current instruction was
// completed (pc advanced).
void Executor::Schedule(bool forced, bool sleep) {
  std::vector<int> en;
  for (size_t i = 0; i < S->threads.size(); ++i)
    if (Enabled(S->threads[i])) en.push_back(i);
  if (en.empty()) {
    // Nobody can run: a timed wait elapses.
    for (size_t i = 0; i < S->threads.size(); ++i)
      if (!S->threads[i].done && S->threads[i].blocked && S->threads[i].timed) en.push_back(i);
  }
  if (en.empty()) throw PathViolation{"deadlock", "no thread can run"};
  bool cur_enabled = false;
  for (int i : en) cur_enabled |= i == S->cur;
  std::vector<int> cand = en;
  if (cur_enabled && !forced && S->preemptions >= opt.preemption_bound) cand = {S->cur};
  if (sleep && cand.size() > 1) {
    // A sleeping thread lets the others run; in turn if this goes on.
    std::vector<int> others;
    for (int i : en) if (i != S->cur) others.push_back(i);
    if (!others.empty()) {
      if (++S->sleeps > 4) {
        int best = others[0];
        for (int i : others) if (i > S->cur) { best = i; break; }
        others = {best};
      }
      cand = others;
      forced = true;
    }
  } else if (sleep && !en.empty()) {
    for (int i : en) if (i != S->cur) { cand = {i}; forced = true; break; }
  }
  // Current thread first.
  std::stable_sort(cand.begin(), cand.end(), [&](int a, int b) { return (a == S->cur) > (b == S->cur); });
  int cur = S->cur;
  if (!(cur_enabled && !forced) && cand.size() > 1) {
    if (S->switches >= opt.switch_bound) cand = {cand[0]};
  }
  int k = S->names["sched"]++;
  std::string name = "sched#" + std::to_string(k);
  for (size_t i = 1; i < cand.size(); ++i) {
    auto n = std::make_unique<State>(*S);
    n->id = next_state_++;
    n->cur = cand[i];
    n->threads[cand[i]].blocked = false;
    if (cur_enabled && !forced) ++n->preemptions;
    else ++n->switches;
    n->inputs.push_back({name, nullptr, (uint64_t)cand[i], false});
    ++forks;
    S->forked = n->forked = true;
    work_.push_back(std::move(n));
  }
  S->cur = cand[0];
  S->threads[cand[0]].blocked = false;
  S->inputs.push_back({name, nullptr, (uint64_t)cand[0], false});
  (void)cur;
}

// ---------------------------------------------------------------------- calls
void Executor::Branch(BasicBlock const* to) {
  Frame& fr = S->top();
  BasicBlock const* from = nullptr;
  // The current instruction is fr.pc.
  from = fr.f->insts[fr.pc].I->getParent();
  fr.prev = from;
  unsigned pc = fr.f->bb[to];
  // PHIs in parallel.
  std::vector<std::pair<int, Val>> upd;
  while (pc < fr.f->insts.size()) {
    KInst const& k = fr.f->insts[pc];
    auto* phi = dyn_cast<PHINode>(k.I);
    if (!phi) break;
    int idx = phi->getBasicBlockIndex(from);
    upd.push_back({k.dest, Ref(k.ops[idx])});
    ++pc;
  }
  for (auto& [d, v] : upd) fr.regs[d] = v;
  fr.pc = pc;
}

void Executor::DoRet(Val v, bool has) {
  auto& st = S->th().stack;
  {
    Frame& fr = *st.back();
    for (uint64_t id : fr.allocas) S->mem.drop(id);
  }
  st.pop_back();
  if (st.empty()) {
    S->th().done = true;
    if (S->cur == 0) return;  // main thread finished
    Schedule(true);
    return;
  }
  Frame& fr = S->top();
  KInst const& k = fr.f->insts[fr.pc];
  if (has && k.dest >= 0) fr.regs[k.dest] = std::move(v);
  if (auto* inv = dyn_cast<InvokeInst>(k.I)) Branch(inv->getNormalDest());
  else ++fr.pc;
}

void Executor::Call(KInst const& k, KFunc* f, std::vector<Val> args) {
  Val ret;
  bool pushed = false;
  if (f->handler >= 0 || f->F->isDeclaration() || f->F->isIntrinsic()) {
    if (!Intrinsic(k, f, args, ret, pushed))
      throw Unsupported{"call to external function " + f->demangled};
    if (pushed) return;
    Frame& fr = S->top();
    KInst const& kk = fr.f->insts[fr.pc];
    if (kk.dest >= 0) fr.regs[kk.dest] = ret;
    if (auto* inv = dyn_cast<InvokeInst>(kk.I)) Branch(inv->getNormalDest());
    else ++fr.pc;
    return;
  }
  if (!f->prepared) Prepare(f);
  if (f->visits++ == 0) functions_seen.insert(f);
  if (S->th().stack.size() > 2000) throw PathViolation{"stack", "stack overflow"};
  auto fr = std::make_shared<Frame>();
  fr->f = f;
  fr->regs.resize(f->nregs);
  size_t n = f->F->arg_size();
  for (size_t i = 0; i < n && i < args.size(); ++i) {
    // byval arguments are copied.
    if (f->F->hasParamAttribute(i, Attribute::ByVal)) {
      Type* t = f->F->getParamByValType(i);
      MemObj* o = S->mem.alloc(DL.getTypeAllocSize(t), MemObj::Stack, "byval");
      uint64_t b = o->base;
      fr->allocas.push_back(b >> kShift);
      MemCopy(b, args[i].c, DL.getTypeAllocSize(t));
      fr->regs[i] = Val(b);
    } else {
      fr->regs[i] = args[i];
    }
  }
  S->th().stack.push_back(fr);
}

static Val MkAgg(std::vector<Val> v) {
  Val r;
  r.agg = std::make_shared<std::vector<Val>>(std::move(v));
  return r;
}

#include "intrinsics.inc"

// ----------------------------------------------------------------------- step
void Executor::Step() {
  Frame& fr0 = S->top();
  KInst const& k = fr0.f->insts[fr0.pc];
  Instruction const* I = k.I;
  ++instructions;
  ++S->steps;
  auto next = [&] { ++S->top().pc; };
  switch (I->getOpcode()) {
    case Instruction::Ret: {
      if (k.ops.empty()) DoRet(Val(), false);
      else DoRet(Op(k, 0), true);
      return;
    }
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I);
      if (b->isUnconditional()) {
        Branch(b->getSuccessor(0));
      } else {
        bool c = DecideVal(Op(k, 0));
        Branch(b->getSuccessor(c ? 0 : 1));
      }
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I);
      Val v = Op(k, 0);
      unsigned w = sw->getCondition()->getType()->getIntegerBitWidth();
      if (v.e) v = FromE(Resolve(v.e));
      if (!v.e) {
        BasicBlock const* to = sw->getDefaultDest();
        for (auto& c : sw->cases())
          if (c.getCaseValue()->getZExtValue() == v.c) {
            to = c.getCaseSuccessor();
            break;
          }
        Branch(to);
        return;
      }
      // Group the cases by successor.
      std::map<BasicBlock const*, E> conds;
      std::vector<BasicBlock const*> order;
      for (auto& c : sw->cases()) {
        E e = X.Eq(v.e, X.Const(c.getCaseValue()->getZExtValue(), w));
        auto& x = conds[c.getCaseSuccessor()];
        if (!x) order.push_back(c.getCaseSuccessor());
        x = x ? X.OrB(x, e) : e;
      }
      for (auto* b : order)
        if (Decide(conds[b])) {
          Branch(b);
          return;
        }
      Branch(sw->getDefaultDest());
      return;
    }
    case Instruction::Unreachable:
      throw PathViolation{"unreachable", "executed an unreachable instruction"};
    case Instruction::Alloca: {
      auto* a = cast<AllocaInst>(I);
      uint64_t n = Concrete(Op(k, 0), 64);
      uint64_t size = DL.getTypeAllocSize(a->getAllocatedType()) * n;
      MemObj* o = S->mem.alloc(size, MemObj::Stack, "local in " + fr0.f->demangled.substr(0, 60));
      uint64_t b = o->base;
      Frame& fr = S->top();
      fr.allocas.push_back(b >> kShift);
      fr.regs[k.dest] = Val(b);
      next();
      return;
    }
    case Instruction::Load: {
      auto* l = cast<LoadInst>(I);
      Set(k, Load(l->getType(), Op(k, 0)));
      next();
      return;
    }
    case Instruction::Store: {
      auto* s = cast<StoreInst>(I);
      Store(s->getValueOperand()->getType(), Op(k, 0), Op(k, 1));
      next();
      return;
    }
    case Instruction::Fence: next(); return;
    case Instruction::AtomicRMW: {
      auto* r = cast<AtomicRMWInst>(I);
      Type* t = r->getType();
      Val old = Load(t, Op(k, 0));
      Val x = Op(k, 1), nv;
      switch (r->getOperation()) {
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Add: nv = BinOp(Instruction::Add, t, old, x); break;
        case AtomicRMWInst::Sub: nv = BinOp(Instruction::Sub, t, old, x); break;
        case AtomicRMWInst::And: nv = BinOp(Instruction::And, t, old, x); break;
        case AtomicRMWInst::Or: nv = BinOp(Instruction::Or, t, old, x); break;
        case AtomicRMWInst::Xor: nv = BinOp(Instruction::Xor, t, old, x); break;
        default: throw Unsupported{"atomicrmw"};
      }
      Store(t, nv, Op(k, 0));
      Set(k, old);
      next();
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto* c = cast<AtomicCmpXchgInst>(I);
      Type* t = c->getCompareOperand()->getType();
      Val old = Load(t, Op(k, 0));
      Val eq = ICmp(CmpInst::ICMP_EQ, t, old, Op(k, 1));
      bool b = DecideVal(eq);
      if (b) Store(t, Op(k, 2), Op(k, 0));
      Set(k, MkAgg({old, Val((uint64_t)b)}));
      next();
      return;
    }
    case Instruction::GetElementPtr: {
      Val const& base = Op(k, 0);
      if (base.agg) throw Unsupported{"vector of pointers"};
      uint64_t off = k.goff;
      E sym = nullptr;
      for (size_t i = 0; i < k.gidx.size(); ++i) {
        Val const& v = Ref(k.gidx[i].first);
        unsigned w = k.ops[i + 1];
        if (!v.e) off += (uint64_t)(int64_t)SExtTo(v.c, w) * (uint64_t)k.gidx[i].second;
        else {
          E x = Resolve(v.e);
          x = X.SExt(x, 64);
          x = X.Bin(K::Mul, x, X.Const((uint64_t)k.gidx[i].second, 64));
          sym = sym ? X.Add(sym, x) : x;
        }
      }
      if (!base.e && !sym) {
        Set(k, Val(base.c + off));
      } else {
        E b = ToE(base, 64);
        E r = X.Add(b, X.Const(off, 64));
        if (sym) r = X.Add(r, sym);
        Set(k, FromE(r));
      }
      next();
      return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
    case Instruction::SRem: case Instruction::And: case Instruction::Or:
    case Instruction::Xor: case Instruction::Shl: case Instruction::LShr:
    case Instruction::AShr:
      Set(k, BinOp(I->getOpcode(), I->getType(), Op(k, 0), Op(k, 1)));
      next();
      return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul:
    case Instruction::FDiv: case Instruction::FRem:
      Set(k, FBin(I->getOpcode(), I->getType(), Op(k, 0), Op(k, 1)));
      next();
      return;
    case Instruction::FNeg: {
      std::function<Val(Val const&, Type*)> neg = [&](Val const& a, Type* t) -> Val {
        if (t->isVectorTy()) {
          std::vector<Val> v;
          for (auto& x : *a.agg) v.push_back(neg(x, cast<FixedVectorType>(t)->getElementType()));
          return MkAgg(v);
        }
        unsigned w = ScalarBits(t, DL);
        if (!a.e) return Val(a.c ^ (1ull << (w - 1)));
        if (a.e->real) return FromE(X.RNeg(a.e));
        return FromE(X.Bin(K::Xor, a.e, X.Const((u128)1 << (w - 1), w)));
      };
      Set(k, neg(Op(k, 0), I->getType()));
      next();
      return;
    }
    case Instruction::ICmp:
      Set(k, ICmp(cast<CmpInst>(I)->getPredicate(), I->getOperand(0)->getType(), Op(k, 0), Op(k, 1)));
      next();
      return;
    case Instruction::FCmp:
      Set(k, FCmp(cast<CmpInst>(I)->getPredicate(), I->getOperand(0)->getType(), Op(k, 0), Op(k, 1)));
      next();
      return;
    case Instruction::Select:
      Set(k, Select(Op(k, 0), Op(k, 1), Op(k, 2), I->getType()));
      next();
      return;
    case Instruction::Freeze:
      Set(k, Op(k, 0));
      next();
      return;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
    case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI:
    case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::AddrSpaceCast:
      Set(k, Cast(I->getOpcode(), I->getOperand(0)->getType(), I->getType(), Op(k, 0)));
      next();
      return;
    case Instruction::ExtractValue: {
      auto* ev = cast<ExtractValueInst>(I);
      Val v = Op(k, 0);
      for (unsigned i : ev->indices()) {
        Val x = (*v.agg)[i];
        v = x;
      }
      Set(k, v);
      next();
      return;
    }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(I);
      std::function<Val(Val const&, unsigned)> ins = [&](Val const& a, unsigned d) -> Val {
        if (d == iv->getNumIndices()) return Op(k, 1);
        std::vector<Val> v = *a.agg;
        v[iv->getIndices()[d]] = ins(v[iv->getIndices()[d]], d + 1);
        return MkAgg(v);
      };
      Set(k, ins(Op(k, 0), 0));
      next();
      return;
    }
    case Instruction::ExtractElement: {
      uint64_t i = Concrete(Op(k, 1), 64);
      Set(k, Val((*Op(k, 0).agg)[i]));
      next();
      return;
    }
    case Instruction::InsertElement: {
      uint64_t i = Concrete(Op(k, 2), 64);
      std::vector<Val> v = *Op(k, 0).agg;
      v[i] = Op(k, 1);
      Set(k, MkAgg(v));
      next();
      return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I);
      std::vector<Val> v;
      auto const& a = *Op(k, 0).agg;
      auto const& b = *Op(k, 1).agg;
      for (int m : sv->getShuffleMask()) {
        if (m < 0) v.push_back(Val((uint64_t)0));
        else if ((size_t)m < a.size()) v.push_back(a[m]);
        else v.push_back(b[m - a.size()]);
      }
      Set(k, MkAgg(v));
      next();
      return;
    }
    case Instruction::Call: case Instruction::Invoke: {
      if (k.intr == -2) {
        auto* call = cast<CallBase>(I);
        auto* ia = cast<InlineAsm>(call->getCalledOperand());
        if (ia->getAsmString().empty()) {
          // Compiler barrier: outputs tied to inputs are passed through.
          if (k.dest >= 0) {
            if (k.ops.size() == 1) Set(k, Op(k, 0));
            else throw Unsupported{"inline assembly"};
          }
          if (auto* inv = dyn_cast<InvokeInst>(I)) Branch(inv->getNormalDest());
          else next();
          return;
        }
        throw Unsupported{"inline assembly"};
      }
      auto* call = cast<CallBase>(I);
      std::vector<Val> args;
      size_t n = call->arg_size();
      args.reserve(n);
      for (size_t i = 0; i < n; ++i) args.push_back(call->getArgOperand(i)->getType()->isMetadataTy() ? Val() : Op(k, i));
      KFunc* f = k.callee;
      if (!f) {
        uint64_t a = Concrete(Op(k, n), 64);
        auto it = byaddr_.find(a);
        if (it == byaddr_.end()) throw PathViolation{"memory", "call through a bad function pointer"};
        f = it->second;
      }
      Call(k, f, std::move(args));
      return;
    }
    case Instruction::PHI:  // entry block cannot have PHIs
      throw Unsupported{"phi"};
    case Instruction::LandingPad: case Instruction::Resume:
      throw Unsupported{"exception handling"};
    default: {
      throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
    }
  }
}

void Executor::RunState() {
  int retries = 0;
  for (;;) {
    if (S->threads[0].done) {
      FinishPath();
      return;
    }
    if (S->steps > opt.max_steps) {
      Model m;
      if (S->model) m = *S->model;
      Report("hang", "no termination within the step limit", &m);
      return;
    }
    if ((instructions & 1023) == 0 && Elapsed() > opt.max_seconds) {
      incomplete.insert("time limit");
      stop_ = true;
      return;
    }
    try {
      Step();
      retries = 0;
    } catch (Retry&) {
      if (++retries > 3000) {
        incomplete.insert("retry limit at " + Where());
        return;
      }
    } catch (Terminate&) {
      return;
    } catch (Unsupported& u) {
      incomplete.insert("unsupported: " + u.what + " at " + Where());
      if (opt.verbose)
        for (auto& s : Stack()) std::cerr << "   " << s << "\n";
      return;
    } catch (PathViolation& v) {
      if (v.kind == "abort" && S->abort_ok) {
        ++aborted_ok;
        FinishPath();
        return;
      }
      Model m;
      if (S->model) m = *S->model;
      else {
        Res q = solver.CheckAll(S->pc, &m, opt.check_timeout_ms);
        if (q == Res::Unsat) return;
        if (q == Res::Unknown) {
          incomplete.insert("feasibility of a failing path unknown: " + v.id);
          return;
        }
      }
      Report(v.kind, v.id, &m);
      return;
    }
  }
}

void Executor::Run(std::string const& entry) {
  g_start = std::chrono::steady_clock::now();
  auto init = std::make_unique<State>();
  init->threads.emplace_back();
  init->model = std::make_shared<Model>();
  InitGlobals(*init);
  S = init.get();
  // Static constructors, then the harness.
  std::vector<std::pair<uint64_t, Function*>> ctors;
  if (auto* g = M.getGlobalVariable("llvm.global_ctors")) {
    if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
      for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
        auto* cs = cast<ConstantStruct>(ca->getOperand(i));
        if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
          ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
      }
  }
  std::stable_sort(ctors.begin(), ctors.end(),
                   [](auto const& a, auto const& b) { return a.first < b.first; });
  Function* main = M.getFunction(entry);
  if (!main || main->isDeclaration()) {
    incomplete.insert("no harness " + entry);
    return;
  }
  for (auto& [p, f] : ctors) {
    if (f->isDeclaration()) continue;
    Thread& t = S->threads[0];
    t.done = false;
    KFunc* kf = Get(f);
    if (!kf->prepared) Prepare(kf);
    auto fr = std::make_shared<Frame>();
    fr->f = kf;
    fr->regs.resize(kf->nregs);
    t.stack.push_back(fr);
    while (!S->threads[0].done) {
      try {
        Step();
      } catch (Unsupported& u) {
        // A static initialiser that cannot be run leaves its object in its
        // zero-initialised state; reported only if it matters (values differ).
        if (opt.verbose) std::cerr << "static init: " << u.what << " at " << Where() << "\n";
        assumptions.insert("static initialiser skipped: " + u.what);
        S->threads[0].stack.clear();
        S->threads[0].done = true;
      } catch (PathViolation& v) {
        incomplete.insert("static initialiser fails: " + v.id + " at " + Where());
        S->threads[0].stack.clear();
        S->threads[0].done = true;
      }
    }
  }
  uint64_t init_steps = S->steps;
  (void)init_steps;
  S->steps = 0;
  functions_seen.clear();
  for (auto& [f, kf] : funcs_) kf->visits = 0;
  {
    Thread& t = S->threads[0];
    t.done = false;
    KFunc* kf = Get(main);
    if (!kf->prepared) Prepare(kf);
    auto fr = std::make_shared<Frame>();
    fr->f = kf;
    fr->regs.resize(kf->nregs);
    t.stack.push_back(fr);
  }
  work_.push_back(std::move(init));
  while (!work_.empty() && !stop_) {
    auto s = std::move(work_.back());
    work_.pop_back();
    S = s.get();
    SwitchRules();
    ++paths;
    RunState();
    if (paths >= opt.max_paths && !work_.empty()) {
      incomplete.insert("path limit");
      break;
    }
  }
  if (stop_ && !work_.empty()) incomplete.insert("unexplored paths: " + std::to_string(work_.size()));
}

}  // namespace vf
