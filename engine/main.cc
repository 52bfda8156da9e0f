#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>

#include "exec.h"

using namespace vf;

static std::string J(std::string const& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20 || c == 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

int main(int argc, char** argv) {
  Options o;
  std::vector<std::string> files;
  std::string entry, out;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = val();
    else if (a == "--out") out = val();
    else if (a == "--real") o.real = true;
    else if (a == "--split") o.split = true;
    else if (a == "--timeout") o.timeout_ms = std::stoi(val());
    else if (a == "--check-timeout") o.check_timeout_ms = std::stoi(val());
    else if (a == "--max-seconds") o.max_seconds = std::stod(val());
    else if (a == "--max-paths") o.max_paths = std::stoull(val());
    else if (a == "--max-steps") o.max_steps = std::stoull(val());
    else if (a == "--switches") o.switch_bound = std::stoi(val());
    else if (a == "--preemptions") o.preemption_bound = std::stoi(val());
    else if (a == "--traces") o.traces = std::stoi(val());
    else if (a == "--trace-dir") o.trace_dir = val();
    else if (a == "--seed") o.seed = std::stoull(val());
    else if (a == "--poly-limit") P.limit = std::stoull(val());
    else if (a == "--verbose") o.verbose = true;
    else files.push_back(a);
  }
  llvm::LLVMContext ctx;
  llvm::SMDiagnostic err;
  std::unique_ptr<llvm::Module> m;
  auto t0 = std::chrono::steady_clock::now();
  for (auto const& f : files) {
    auto x = llvm::parseIRFile(f, err, ctx);
    if (!x) {
      std::cerr << "cannot load " << f << ": " << err.getMessage().str() << "\n";
      return 2;
    }
    if (!m) m = std::move(x);
    else if (llvm::Linker::linkModules(*m, std::move(x))) {
      std::cerr << "cannot link " << f << "\n";
      return 2;
    }
  }
  if (!m) return 2;
  Executor ex(*m, o);
  try {
    ex.Run(entry);
  } catch (Unsupported& u) {
    ex.incomplete.insert("unsupported: " + u.what);
  } catch (std::exception& e) {
    ex.incomplete.insert(std::string("exception: ") + e.what());
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::ostringstream s;
  s << "{\n \"entry\": " << J(entry) << ",\n \"mode\": " << (o.real ? "\"real\"" : "\"ieee\"");
  s << ",\n \"paths\": " << ex.completed << ",\n \"states\": " << ex.paths
    << ",\n \"forks\": " << ex.forks << ",\n \"instructions\": " << ex.instructions
    << ",\n \"branches\": " << ex.branches << ",\n \"aborted_ok\": " << ex.aborted_ok
    << ",\n \"wall_s\": " << wall;
  s << ",\n \"solver\": {\"queries\": " << ex.solver.stats.queries << ", \"sat\": " << ex.solver.stats.sat
    << ", \"unsat\": " << ex.solver.stats.unsat << ", \"unknown\": " << ex.solver.stats.unknown
    << ", \"cached\": " << ex.solver.stats.cached << ", \"assertions\": " << ex.solver.stats.checks
    << ", \"seconds\": " << ex.solver.stats.seconds << ", \"max_seconds\": " << ex.solver.stats.max_seconds
    << "}";
  s << ",\n \"checks\": {";
  bool first = true;
  for (auto& [id, c] : ex.checks) {
    s << (first ? "" : ",") << "\n  " << J(id) << ": {\"reached\": " << c.reached << ", \"proved\": " << c.proved
      << ", \"trivial\": " << c.trivially << ", \"nontrivial\": " << c.nontrivial << ", \"violated\": " << c.violated << ", \"unknown\": " << c.unknown << "}";
    first = false;
  }
  s << "},\n \"violations\": [";
  first = true;
  for (auto& v : ex.violations) {
    s << (first ? "" : ",") << "\n  {\"kind\": " << J(v.kind) << ", \"id\": " << J(v.id) << ", \"where\": " << J(v.where)
      << ", \"stack\": [";
    bool f2 = true;
    for (auto& x : v.stack) {
      s << (f2 ? "" : ", ") << J(x);
      f2 = false;
    }
    s << "], \"assignment\": [";
    f2 = true;
    for (auto& [n, x] : v.assignment) {
      s << (f2 ? "" : ", ") << "[" << J(n) << ", " << J(x) << "]";
      f2 = false;
    }
    s << "]}";
    first = false;
  }
  auto list = [&](char const* name, auto const& c) {
    s << ",\n " << J(name) << ": [";
    bool f = true;
    for (auto const& x : c) {
      s << (f ? "" : ", ") << J(x);
      f = false;
    }
    s << "]";
  };
  s << "]";
  list("incomplete", ex.incomplete);
  list("assumptions", ex.assumptions);
  list("inputs", ex.input_names);
  std::set<std::string> fns;
  for (auto* f : ex.functions_seen)
    if (f->repo) fns.insert(f->demangled);
  list("functions", fns);
  s << ",\n \"traces\": " << ex.traces_written << "\n}\n";
  if (out.empty()) std::cout << s.str();
  else std::ofstream(out) << s.str();
  std::cout.flush();
  _exit(ex.violations.empty() ? (ex.incomplete.empty() ? 0 : 3) : 1);
}
