#pragma once
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>

#include <array>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "expr.h"
#include "solver.h"

namespace vf {

struct Val {
  E e = nullptr;
  uint64_t c = 0;
  std::shared_ptr<const std::vector<Val>> agg;
  Val() = default;
  explicit Val(uint64_t x) : c(x) {}
  explicit Val(E x) : e(x) {}
};

struct ByteRef {
  E e = nullptr;
  uint8_t idx = 0;
};

struct MemObj {
  uint64_t base = 0, size = 0;
  enum Kind : uint8_t { Global, Heap, Stack, Code } kind = Global;
  bool freed = false, readonly = false;
  uint64_t version = 0;
  std::string name;
  std::vector<uint8_t> data;
  std::unique_ptr<std::vector<ByteRef>> sym;
  MemObj() = default;
  MemObj(MemObj const& o)
      : base(o.base), size(o.size), kind(o.kind), freed(o.freed),
        readonly(o.readonly), version(o.version), name(o.name), data(o.data) {
    if (o.sym) sym = std::make_unique<std::vector<ByteRef>>(*o.sym);
  }
};

constexpr unsigned kShift = 28;

struct Memory {
  struct Chunk {
    std::array<std::shared_ptr<MemObj>, 64> o;
  };
  std::vector<std::shared_ptr<Chunk>> chunks;
  uint64_t next = 1;
  MemObj const* get(uint64_t id) const {
    if (id / 64 >= chunks.size() || !chunks[id / 64]) return nullptr;
    return chunks[id / 64]->o[id % 64].get();
  }
  MemObj* write(uint64_t id) {
    auto& ch = chunks[id / 64];
    if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
    auto& o = ch->o[id % 64];
    if (o.use_count() > 1) o = std::make_shared<MemObj>(*o);
    return o.get();
  }
  MemObj* alloc(uint64_t size, MemObj::Kind k, std::string const& name) {
    uint64_t id = next++;
    if (id / 64 >= chunks.size()) chunks.push_back(std::make_shared<Chunk>());
    auto& ch = chunks[id / 64];
    if (!ch) ch = std::make_shared<Chunk>();
    if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
    auto o = std::make_shared<MemObj>();
    o->base = id << kShift;
    o->size = size;
    o->kind = k;
    o->name = name;
    o->data.assign(size, k == MemObj::Global ? 0 : 0xCB);
    ch->o[id % 64] = o;
    return o.get();
  }
  void drop(uint64_t id) {
    auto& ch = chunks[id / 64];
    if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
    ch->o[id % 64].reset();
  }
};

struct KFunc;
struct KInst {
  llvm::Instruction const* I;
  int dest = -1;
  std::vector<int> ops;  // >=0 register; <0 constant -(i+1)
  // GEP
  int64_t goff = 0;
  std::vector<std::pair<int, int64_t>> gidx;
  // call
  KFunc* callee = nullptr;
  int intr = -1;
  unsigned w = 0;
};
struct KBlock {
  unsigned start;
};
struct KFunc {
  llvm::Function* F;
  std::string name;
  std::string demangled;
  bool prepared = false;
  unsigned nregs = 0;
  std::vector<KInst> insts;
  std::unordered_map<llvm::BasicBlock const*, unsigned> bb;
  uint64_t address = 0;
  int handler = -1;  // intrinsic handler index, -1 if none
  uint64_t visits = 0;
  bool repo = false;
};

struct Frame {
  KFunc* f;
  unsigned pc = 0;
  llvm::BasicBlock const* prev = nullptr;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  std::vector<Val> varargs;
};

struct Thread {
  std::vector<std::shared_ptr<Frame>> stack;
  bool done = false;
  uint64_t block_addr = 0;
  uint64_t block_val = 0;
  bool blocked = false;
  bool timed = false;
  int join = -1;
};

struct InputRec {
  std::string name;
  E e;         // null for concrete choices
  uint64_t c;
  bool dbl;
};
struct ObsRec {
  std::string name;
  Val v;
  bool dbl;
};

struct State {
  std::vector<Thread> threads;
  int cur = 0;
  Memory mem;
  std::vector<E> pc;
  std::unordered_set<E> known;  // conditions known true
  std::shared_ptr<Model> model;  // may be null: unknown feasibility
  std::vector<InputRec> inputs;
  std::vector<ObsRec> obs;
  std::map<std::string, int> names;
  std::unordered_map<E, E> subst;
  std::shared_ptr<std::unordered_map<E, E>> substmemo;
  uint64_t steps = 0;
  int preemptions = 0;
  int sleeps = 0, switches = 0;
  std::map<std::pair<int, uint64_t>, uint64_t> tls;
  bool abort_ok = false;
  bool forked = false;
  // The rewriting rules that hold for this state only (variable, exponent, value).
  struct Rule {
    uint32_t var, n;
    Poly value;
  };
  std::vector<Rule> rules;
  std::vector<std::string> assumptions;
  uint64_t id = 0;
  Thread& th() { return threads[cur]; }
  Frame& top() {
    auto& p = threads[cur].stack.back();
    if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
    return *p;
  }
};

struct Violation {
  std::string kind, id, where;
  std::vector<std::string> stack;
  std::vector<std::pair<std::string, std::string>> assignment;
};

struct Options {
  bool real = false;
  int timeout_ms = 10000;
  // Fork on the conditions that determine the addresses accessed.
  bool split = false;
  int check_timeout_ms = 60000;
  double max_seconds = 600;
  uint64_t max_paths = 2000000;
  uint64_t max_steps = 50000000;
  int preemption_bound = 2;
  int switch_bound = 1000;
  int traces = 8;
  std::string trace_dir;
  uint64_t seed = 1;
  int max_violations = 3;
  bool verbose = false;
};

struct Terminate {};      // ends this path quietly
struct Retry {};          // instruction must be re-executed
struct Unsupported {
  std::string what;
};
struct PathViolation {    // ends the path with a violation
  std::string kind, id;
};

class Executor {
 public:
  Executor(llvm::Module& m, Options const& o);
  void Run(std::string const& entry);

  Options opt;
  Solver solver;
  // Results.
  uint64_t paths = 0, completed = 0, forks = 0, instructions = 0, branches = 0,
           aborted_ok = 0, infeasible_choices = 0;
  std::vector<Violation> violations;
  std::set<std::string> incomplete;
  struct CheckStat {
    uint64_t reached = 0, proved = 0, trivially = 0, violated = 0, unknown = 0;
    uint64_t nontrivial = 0;  // the condition depended on symbolic inputs
  };
  std::map<std::string, CheckStat> checks;
  std::set<std::string> assumptions;
  std::set<std::string> input_names;
  std::set<KFunc*> functions_seen;
  int traces_written = 0;
  uint64_t max_inputs = 0;

 private:
  friend struct Handlers;
  llvm::Module& M;
  llvm::DataLayout const& DL;
  std::unordered_map<llvm::Function const*, std::unique_ptr<KFunc>> funcs_;
  std::unordered_map<uint64_t, KFunc*> byaddr_;
  std::unordered_map<llvm::GlobalValue const*, uint64_t> gaddr_;
  std::vector<Val> consts_;
  std::unordered_map<llvm::Constant const*, int> constidx_;
  std::deque<std::unique_ptr<State>> work_;
  State* S = nullptr;
  std::map<uint32_t, double> bounds_;
  std::map<std::string, int> violcount_;
  uint64_t next_state_ = 1;
  uint64_t version_ = 1;
  bool stop_ = false;

  KFunc* Get(llvm::Function* f);
  void Prepare(KFunc* f);
  int Operand(KFunc* f, llvm::Value const* v,
              std::unordered_map<llvm::Value const*, int> const& regs);
  Val EvalConst(llvm::Constant const* c);
  void InitGlobals(State& s);
  void InitObject(State& s, MemObj* o, llvm::Constant const* c, uint64_t off);
  uint64_t AddrOf(llvm::GlobalValue const* g);

  // Variables that are angles in [-π, π].
  std::set<uint32_t> angles_, vf_angles_;
  bool sqrt_domain_ = false;
  // The rewriting rules of the current state.
  std::vector<uint32_t> installed_;
  void SetRuleSignature();
  void SwitchRules();
  void RunState();
  void Step();
  void FinishPath();
  void Report(std::string const& kind, std::string const& id, Model const* m);
  std::vector<std::pair<std::string, std::string>> Assignment(Model const& m);
  void WriteTrace(Model const& m);

  // Values.
  Val const& Op(KInst const& k, int i) {
    int o = k.ops[i];
    return o >= 0 ? S->threads[S->cur].stack.back()->regs[o] : consts_[-o - 1];
  }
  Val const& Ref(int o) {
    return o >= 0 ? S->threads[S->cur].stack.back()->regs[o] : consts_[-o - 1];
  }
  void Set(KInst const& k, Val v) {
    if (k.dest >= 0) S->top().regs[k.dest] = std::move(v);
  }
  E ToE(Val const& v, unsigned w);
  E ToReal(Val const& v);
  Val FromE(E e);
  uint64_t Concrete(Val const& v, unsigned w);  // forks

  // Conditions.
  bool Decide(E cond);
  E SplitAddress(E address);
  bool DecideVal(Val const& v) { return v.e ? Decide(v.e) : (v.c & 1); }
  void AddConstraint(State& s, E c);
  bool Assume(E c);
  E Resolve(E e);
  Res Query(E extra, Model* m, int timeout);
  void CheckCond(E cond, std::string const& id);
  bool Holds(Model& m);
  void CheckNear(Val const& a, Val const& b, double tol, std::string const& id);
  void Fork(E other_cond);

  // Memory.
  Val Load(llvm::Type* t, Val const& ptr);
  void Store(llvm::Type* t, Val const& v, Val const& ptr);
  Val LoadAt(MemObj const* o, uint64_t off, llvm::Type* t);
  void StoreAt(MemObj* o, uint64_t off, llvm::Type* t, Val const& v);
  Val LoadScalar(MemObj const* o, uint64_t off, unsigned bytes, unsigned w);
  void StoreScalar(MemObj* o, uint64_t off, unsigned bytes, Val const& v, unsigned w);
  uint64_t ResolvePtr(Val const& ptr, uint64_t bytes, bool write);
  MemObj const* Obj(uint64_t addr, uint64_t bytes, bool write, uint64_t& off);
  void MemCopy(uint64_t d, uint64_t s, uint64_t n);
  std::string CString(uint64_t addr);
  E SymTableLoad(MemObj const* o, E off, unsigned bytes, unsigned w);

  // Arithmetic.
  Val BinOp(unsigned opcode, llvm::Type* t, Val const& a, Val const& b);
  Val FBin(unsigned opcode, llvm::Type* t, Val const& a, Val const& b);
  Val ICmp(unsigned pred, llvm::Type* t, Val const& a, Val const& b);
  Val FCmp(unsigned pred, llvm::Type* t, Val const& a, Val const& b);
  Val Cast(unsigned opcode, llvm::Type* from, llvm::Type* to, Val const& a);
  Val Select(Val const& c, Val const& a, Val const& b, llvm::Type* t);
  Val RealUnary(std::string const& fn, Val const& a);
  Val RealSqrt(Val const& a, unsigned n);
  void RealSinCos(E a, E* s, E* c);
  bool TrigBase(E angle, E* s, E* c);
  Val RealAtan2(Val const& y, Val const& x);
  Val RealRound(int mode, Val const& a);
  Val RealDiv(Val const& a, Val const& b);
  E AngleVar(std::string const& name, E cosv, E sinv,
             std::vector<uint32_t> const& deps);
  std::map<std::string, std::pair<E, E>> trig_;
  std::map<uint32_t, E> atanvar_;
  int angle_den_ = 2;

  // Calls.
  void Call(KInst const& k, KFunc* f, std::vector<Val> args);
  bool Intrinsic(KInst const& k, KFunc* f, std::vector<Val>& args, Val& ret,
                 bool& pushed);
  void DoRet(Val v, bool has);
  void Branch(llvm::BasicBlock const* to);
  void Schedule(bool forced, bool sleep = false);
  bool Enabled(Thread const& t);
  std::string Where();
  std::vector<std::string> Stack();
  std::unordered_map<uint64_t, std::map<E, E>> tablecache_;
};

}  // namespace vf
