// A process that serves compilations: each request (a JSON file) is one history of
// registrations, contexts, modules, passes, translations and target-config queries, run in a
// forked child with seeded placement of memory and a seeded thread schedule.
#include "simthread.h"

#include <deque>
#include <fcntl.h>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unordered_map>
#include <vector>

#ifdef SIM_SECRET
#include "secret_sim.h"
#else
#include "lib/Dialect/Debug/IR/DebugDialect.h"
#include "lib/Dialect/Debug/Transforms/Passes.h"
#include "lib/Dialect/ModuleAttributes.h"
#include "lib/Dialect/Preprocessing/IR/PreprocessingDialect.h"
#include "lib/Dialect/Preprocessing/Transforms/Passes.h"
#include "lib/Dialect/TfheRust/IR/TfheRustDialect.h"
#include "lib/Dialect/TfheRustBool/IR/TfheRustBoolDialect.h"
#include "lib/Target/CompilationTarget/CompilationTarget.h"
#include "lib/Target/CompilationTarget/RegisterAllBackends.h"
#include "lib/Target/Metadata/MetadataEmitter.h"
#include "lib/Target/TfheRust/TfheRustEmitter.h"
#include "lib/Target/TfheRustBool/TfheRustBoolEmitter.h"
#include "lib/Target/TfheRustHL/TfheRustHLEmitter.h"
#include "lib/Transforms/AnnotateModule/AnnotateModule.h"
#include "lib/Transforms/EmitCInterface/EmitCInterface.h"
#include "lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.h"
#include "lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.h"
#include "lib/Transforms/FullLoopUnroll/FullLoopUnroll.h"
#include "lib/Transforms/RemoveUnusedPureCall/RemoveUnusedPureCall.h"
#include "lib/Transforms/UnusedMemRef/UnusedMemRef.h"
#include "lib/Target/OpenFhePke/OpenFhePkePybindEmitter.h"
#endif
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/ThreadPool.h"
#include "llvm/Support/raw_ostream.h"
#include "mlir/AsmParser/AsmParser.h"
#include "mlir/Dialect/Affine/IR/AffineOps.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/MemRef/IR/MemRef.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/Dialect/Tensor/IR/Tensor.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Pass/PassRegistry.h"
#include "mlir/Transforms/Passes.h"

using namespace mlir;
namespace json = llvm::json;

// ---------------------------------------------------------------- thread pool
struct Task {
  std::function<void()> f;
  llvm::ThreadPoolTaskGroup *g;
};
struct Pool;
static Pool *gpool = nullptr;
struct Pool : llvm::ThreadPoolInterface {
  std::deque<Task> q;
  std::map<llvm::ThreadPoolTaskGroup *, int> out;
  int total = 0;
  unsigned n;
  uint64_t ran = 0;
  static void *worker(void *a) {
    int i = (int)(intptr_t)a;
    while (sem_wait(&sim::th[i].sem)) {
    }
    sim::me = i;
    sim::th[i].st = sim::Run;
    for (;;) {
      if (!gpool->one(nullptr)) {
        sim::th[i].st = sim::Idle;
        sim::resched(true);
        sim::th[i].st = sim::Run;
      } else {
        sim::resched(false);
      }
    }
  }
  explicit Pool(unsigned n) : n(n) {}
  void start(std::vector<int> weights) {
    gpool = this;
    sim::tasks_pending = [] { return !gpool->q.empty(); };
    sim::nth = n + 1;
    for (unsigned i = 0; i <= n; ++i) {
      sem_init(&sim::th[i].sem, 0, 0);
      sim::th[i].st = i ? sim::Idle : sim::Run;
      sim::th[i].weight = i < weights.size() ? weights[i] : 10;
    }
    sim::cur = 0;
    sim::me = 0;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 8 << 20);
    for (unsigned i = 1; i <= n; ++i) pthread_create(&sim::th[i].pt, &at, worker, (void *)(intptr_t)i);
    sim::active = true;
  }
  bool one(llvm::ThreadPoolTaskGroup *g) {
    Task t;
    {
      sim::in = true;
      std::vector<size_t> c;
      for (size_t i = 0; i < q.size(); ++i)
        if (!g || q[i].g == g) c.push_back(i);
      if (c.empty()) {
        sim::in = false;
        return false;
      }
      size_t i = c[sim::decide(0, sim::xs(sim::srng) % c.size(), sim::below, c.size())];
      t = std::move(q[i]);
      q.erase(q.begin() + i);
      ++ran;
      sim::in = false;
    }
    t.f();
    sim::in = true;
    t.f = nullptr;
    --total;
    if (t.g) --out[t.g];
    sim::in = false;
    return true;
  }
  void asyncEnqueue(std::function<void()> f, llvm::ThreadPoolTaskGroup *g) override {
    sim::in = true;
    q.push_back({std::move(f), g});
    ++total;
    if (g) ++out[g];
    sim::in = false;
    sim::preempt(4);
  }
  void wait() override {
    while (total) step(nullptr);
  }
  void wait(llvm::ThreadPoolTaskGroup &g) override {
    while (out[&g]) step(&g);
  }
  struct W {
    Pool *p;
    llvm::ThreadPoolTaskGroup *g;
    int who;
  };
  void step(llvm::ThreadPoolTaskGroup *g) {
    // A worker waiting for its own tasks takes part in them.
    if (sim::me > 0 && sim::decide(1, sim::xs(sim::srng) % 2, sim::below, 2) && one(g)) return;
    W w{this, g, sim::me};
    sim::block(
        [](void *a) {
          auto *w = (W *)a;
          if (w->who > 0) {
            for (auto &t : w->p->q)
              if (!w->g || t.g == w->g) return true;
          }
          return w->g ? w->p->out.find(w->g)->second == 0 : w->p->total == 0;
        },
        &w);
    if (sim::me > 0) one(g);
  }
  unsigned getMaxConcurrency() const override { return n; }
};

// ---------------------------------------------------------------- world
static thread_local std::vector<std::string> *sink = nullptr;
static std::vector<std::string> stray;

struct Ctx {
  std::unique_ptr<MLIRContext> c;
  std::unique_ptr<DiagnosticEngine::HandlerID> h;
};
static std::map<int, Ctx> ctxs;
struct Mod {
  int ctx;
  OwningOpRef<ModuleOp> m;
};
static std::map<int, Mod> mods;
// Pass managers kept for a second run: pipeline -> context -> manager (the slots are made
// before any task runs; a context is only used by one branch at a time).
static std::map<std::string, std::map<int, std::unique_ptr<PassManager>>> pms;
static DialectRegistry *registry;
static Pool *pool = nullptr;

static std::string diagText(Diagnostic &d) {
  std::string s;
  llvm::raw_string_ostream os(s);
  os << (d.getSeverity() == DiagnosticSeverity::Error ? "error" : d.getSeverity() == DiagnosticSeverity::Warning ? "warning" : "note") << " "
     << d.getLocation() << ": " << d.str();
  for (auto &n : d.getNotes()) os << " | note " << n.getLocation() << ": " << n.str();
  return s;
}

#ifndef SIM_SECRET
static json::Object fields(const heir::CompilationTarget &t);
#endif

static void newCtx(int id, bool threads) {
  Ctx &c = ctxs[id];
  c.c = std::make_unique<MLIRContext>(*registry, MLIRContext::Threading::DISABLED);
  if (threads && pool) c.c->setThreadPool(*pool);
  c.c->loadAllAvailableDialects();
  c.c->getDiagEngine().registerHandler([](Diagnostic &d) {
    (sink ? *sink : stray).push_back(diagText(d));
    return success();
  });
}

static std::string printed(Operation *op) {
  std::string s;
  llvm::raw_string_ostream os(s);
  op->print(os);
  return s;
}

/// An output that accepts data in chunks of a given size (0: as it comes).
struct ChunkOS : llvm::raw_ostream {
  std::string &s;
  ChunkOS(std::string &s, int n) : s(s) {
    if (n)
      SetBufferSize(n);
    else
      SetUnbuffered();
  }
  ~ChunkOS() override { flush(); }
  void write_impl(const char *p, size_t n) override { s.append(p, n); }
  uint64_t current_pos() const override { return s.size(); }
};

static json::Object exec(const json::Array &op);

#include "mlir_eval.inc"

static json::Object execInner(const json::Array &op) {
  StringRef k = *op[0].getAsString();
  auto I = [&](int i) { return (int)*op[i].getAsInteger(); };
  auto S = [&](int i) { return op[i].getAsString()->str(); };
  json::Object r;
  for (const char *need : {"clone", "run", "print", "verify", "eval", "evals", "emit", "cfg", "validate", "persist", "is", "reparse"})
    if (k == need && (!mods.count(I(1)) || !mods.at(I(1)).m)) {
      r["nomod"] = true;
      return r;
    }
  if ((k == "parse" && (!ctxs.count(I(2)) || !ctxs.at(I(2)).c)) || (k == "value" && (!ctxs.count(I(1)) || !ctxs.at(I(1)).c))) {
    r["noctx"] = true;
    return r;
  }
  if (k == "ctx") {
    if (!ctxs.at(I(1)).c) newCtx(I(1), I(2));
  } else if (k == "dropctx") {
    for (auto &m : mods)
      if (m.second.ctx == I(1)) m.second.m = {};
    for (auto &p : pms)
      if (p.second.count(I(1))) p.second.at(I(1)).reset();
    auto c = ctxs.find(I(1));
    if (c != ctxs.end()) c->second.c.reset();
  } else if (k == "drop") {
    auto it = mods.find(I(1));
    if (it != mods.end()) it->second.m = {};
  } else if (k == "parse") {
    auto m = parseSourceString<ModuleOp>(S(3), ParserConfig(ctxs.at(I(2)).c.get()));
    r["ok"] = (bool)m;
    auto it = mods.find(I(1));
    if (it != mods.end()) it->second.m = std::move(m), it->second.ctx = I(2);
  } else if (k == "clone") {
    auto it = mods.find(I(2));
    it->second.m = mods.at(I(1)).m->clone();
    it->second.ctx = mods.at(I(1)).ctx;
  } else if (k == "run") {
    Mod &m = mods.at(I(1));
    std::unique_ptr<PassManager> fresh;
    std::unique_ptr<PassManager> &slot = op.size() > 3 && I(3) ? pms.at(S(2)).at(m.ctx) : fresh;
    bool old = (bool)slot;
    if (!old) slot = std::make_unique<PassManager>(m.m->getContext(), "builtin.module");
    PassManager &pm = *slot;
    std::string err;
    llvm::raw_string_ostream es(err);
    if (!old && failed(parsePassPipeline(S(2), pm, es))) {
      r["ok"] = false;
      r["pipe"] = err;
      slot.reset();
    } else {
      if (old) r["reused"] = true;
      bool ok = succeeded(pm.run(*m.m));
      r["ok"] = ok;
      r["out"] = ok ? printed(*m.m) : "";
    }
  } else if (k == "print") {
    r["out"] = printed(*mods.at(I(1)).m);
  } else if (k == "verify") {
    r["ok"] = succeeded(verify(*mods.at(I(1)).m));
  } else if (k == "eval") {
    // [eval, module, seed, index limit]: what every defined function computes
    ModuleOp m = *mods.at(I(1)).m;
    json::Object o;
    for (auto f : m.getOps<func::FuncOp>())
      if (!f.isDeclaration()) {
        Eval e{m};
        o[f.getName()] = e.run(f, I(2), I(3));
      }
    r["eval"] = std::move(o);
  } else if (k == "evals") {
    // [evals, module, seed, index limit, seed of the secrets]
    ModuleOp m = *mods.at(I(1)).m;
    json::Object o;
    for (auto f : m.getOps<func::FuncOp>())
      if (!f.isDeclaration()) {
        Eval e{m};
        e.split = true;
        e.secret = I(4);
        json::Object x;
        x["v"] = e.run(f, I(2), I(3));
        x["path"] = (int64_t)(e.path >> 16);
        json::Array l;
        for (auto &s : e.leaks) l.push_back(s);
        x["leaks"] = std::move(l);
        o[f.getName()] = std::move(x);
      }
    r["eval"] = std::move(o);
#ifndef SIM_SECRET
  } else if (k == "register") {
    heir::registerAllBackends();
  } else if (k == "registerone") {
    heir::CompilationTarget t;
    t.backendName = heir::parseBackendName(S(1));
    heir::CompilationTargetRegistry::registerTarget(t);
  } else if (k == "emit") {
    Operation *m = *mods.at(I(1)).m;
    std::string e = S(2), s;
    ChunkOS os(s, op.size() > 3 ? I(3) : 0);
    LogicalResult ok = failure();
    if (e == "metadata") ok = heir::emitMetadata(m, os);
    if (e == "tfhe") ok = heir::tfhe_rust::translateToTfheRust(m, os, false);
    if (e == "tfhe-levels") ok = heir::tfhe_rust::translateToTfheRust(m, os, true);
    if (e == "bool") ok = heir::tfhe_rust_bool::translateToTfheRustBool(m, os, false);
    if (e == "bool-packed") ok = heir::tfhe_rust_bool::translateToTfheRustBool(m, os, true);
    if (e == "hl") ok = heir::tfhe_rust::translateToTfheRustHL(m, os);
    if (e == "pybind") ok = heir::openfhe::translateToOpenFhePkePybind(m, os, op.size() > 5 ? S(4) : "gen.h", op.size() > 5 ? S(5) : "mod_py");
    os.flush();
    r["ok"] = succeeded(ok);
    r["out"] = succeeded(ok) ? s : "";
  } else if (k == "get") {
    auto *t = heir::CompilationTargetRegistry::get(heir::parseBackendName(S(1)));
    r["ok"] = t != nullptr;
    if (t) r["cfg"] = fields(*t);
  } else if (k == "name") {
    auto b = heir::parseBackendName(S(1));
    r["out"] = heir::toString(b).str();
  } else if (k == "cfg") {
    auto t = heir::getTargetConfig(*mods.at(I(1)).m);
    r["ok"] = succeeded(t);
    if (succeeded(t)) r["cfg"] = fields(*t);
  } else if (k == "validate" || k == "persist") {
    Mod &m = mods.at(I(1));
    Attribute a = parseAttribute(S(3), m.m->getContext());
    if (!a) {
      r["ok"] = false;
      r["badattr"] = true;
    } else if (k == "validate") {
      r["ok"] = succeeded(heir::validateCompilationTargetOverride(*m.m, S(2), a));
    } else {
      heir::persistCompilationTargetOverride(*m.m, S(2), a);
      r["out"] = printed(*m.m);
    }
#endif
  } else if (k == "reparse") {
    // What the next tool in a chain does: read the printed module.
    Mod &m = mods.at(I(1));
    std::string text = printed(*m.m);
    auto n = parseSourceString<ModuleOp>(text, ParserConfig(m.m->getContext()));
    r["ok"] = (bool)n;
    r["text"] = text;
    if (n) {
      r["same"] = printed(*n) == text;
      m.m = std::move(n);
    }
#ifndef SIM_SECRET
  } else if (k == "is") {
    ModuleOp m = *mods.at(I(1)).m;
    std::string s;
    auto is = [&](const char *name, bool yes) {
      if (yes) s += std::string(s.empty() ? "" : " ") + name;
    };
    is("bgv", heir::moduleIsBGV(m));
    is("bfv", heir::moduleIsBFV(m));
    is("bgv|bfv", heir::moduleIsBGVOrBFV(m));
    is("ckks", heir::moduleIsCKKS(m));
    is("cggi", heir::moduleIsCGGI(m));
    is("openfhe", heir::moduleIsOpenfhe(m));
    is("lattigo", heir::moduleIsLattigo(m));
    r["out"] = s;
  } else if (k == "value") {
    MLIRContext *c = ctxs.at(I(1)).c.get();
    auto a = heir::parseCompilationTargetOverrideValue(c, S(2), S(3), UnknownLoc::get(c));
    r["ok"] = succeeded(a);
    if (succeeded(a)) {
      std::string s;
      llvm::raw_string_ostream os(s);
      a->print(os);
      r["out"] = s;
    }
#endif
  } else if (k == "par") {
    // Branches run as tasks of the pool; each only touches its own modules and contexts.
    const json::Array &br = *op[1].getAsArray();
    std::vector<json::Array> res(br.size());
    if (!pool) {
      for (size_t i = 0; i < br.size(); ++i)
        for (auto &o : *br[i].getAsArray()) res[i].push_back(exec(*o.getAsArray()));
    } else {
      llvm::ThreadPoolTaskGroup g(*pool);
      for (size_t i = 0; i < br.size(); ++i)
        pool->asyncEnqueue(
            [&, i] {
              for (auto &o : *br[i].getAsArray()) res[i].push_back(exec(*o.getAsArray()));
            },
            &g);
      pool->wait(g);
    }
    json::Array all;
    for (auto &a : res) all.push_back(std::move(a));
    r["branches"] = std::move(all);
  } else {
    r["unknown"] = k.str();
  }
  return r;
}

static json::Object exec(const json::Array &op) {
  std::vector<std::string> d, *old = sink;
  sink = &d;
  json::Object r = execInner(op);
  sink = old;
  if (!d.empty()) {
    json::Array a;
    for (auto &s : d) a.push_back(s);
    r["diags"] = std::move(a);
  }
  return r;
}

#ifndef SIM_SECRET
#include "mlir_sim_fields.inc"
#endif

static void collect(const json::Array &ops) {
  for (auto &o : ops) {
    auto &a = *o.getAsArray();
    StringRef k = *a[0].getAsString();
    if (k == "parse") mods[(int)*a[1].getAsInteger()];
    if (k == "clone") mods[(int)*a[2].getAsInteger()];
    if (k == "ctx") ctxs[(int)*a[1].getAsInteger()];
    if (k == "run" && a.size() > 3) pms[a[2].getAsString()->str()];
    if (k == "par")
      for (auto &b : *a[1].getAsArray()) collect(*b.getAsArray());
  }
}

static int child(const char *in, const char *out) {
  // Read without touching the heap: a replay must start from the same heap as the run it repeats.
  auto slurp = [](const char *f, size_t &n) -> char * {
    int fd = open(f, O_RDONLY);
    if (fd < 0) return nullptr;
    n = lseek(fd, 0, SEEK_END);
    char *b = n ? (char *)mmap(nullptr, n, PROT_READ, MAP_PRIVATE, fd, 0) : nullptr;
    close(fd);
    return b == MAP_FAILED ? nullptr : b;
  };
  static char repname[4200];
  snprintf(repname, sizeof repname, "%s.rep", in);
  size_t len = 0, rlen = 0;
  char *buf = slurp(in, len);
  if (!buf) return 90;
  sim::replay = access(repname, R_OK) == 0;
  if (char *r = slurp(repname, rlen))
    for (size_t i = 0; i + 16 <= rlen && sim::nrep < sim::kMaxDec; i += 16) {
      uint64_t d[2];
      memcpy(d, r + i, 16);
      sim::rep[sim::nrep++] = {d[0], (uint32_t)d[1]};
    }
  auto v = json::parse(StringRef(buf, len));
  if (!v) return 91;
  json::Object &req = *v->getAsObject();
  auto N = [&](const char *k, int64_t d) {
    auto x = req.getInteger(k);
    return x ? *x : d;
  };
  sim::arng = N("alloc", 1) * 2654435761ull + 99991;
  sim::srng = N("sched", 1) * 40503ull * 2654435761ull + 7;
  sim::areuse = N("reuse", 60);
  sim::alive = N("placed", 0);
  sim::pre_ppm = N("preempt", 0);
  collect(*req.getArray("ops"));
  for (auto &p : pms)
    for (auto &c : ctxs) p.second[c.first];
  int n = N("threads", 0);
  if (n) {
    pool = new Pool(n);
    std::vector<int> w;
    for (auto &x : *req.getArray("weights")) w.push_back(*x.getAsInteger());
    pool->start(w);
  }
  json::Array res;
  for (auto &o : *req.getArray("ops")) res.push_back(exec(*o.getAsArray()));
  sim::active = false;
  json::Object o;
  o["res"] = std::move(res);
  json::Array st;
  for (auto &s : stray) st.push_back(s);
  o["stray"] = std::move(st);
  o["stats"] = json::Object{{"points", (int64_t)sim::points}, {"switches", (int64_t)sim::switches}, {"sched", (int64_t)(sim::sighash >> 8)},
                            {"edges", (int64_t)sim_hit}, {"alledges", (int64_t)sim_nedges}, {"allocs", (int64_t)sim::nalloc},
                            {"reused", (int64_t)sim::nreused}, {"tasks", (int64_t)(pool ? pool->ran : 0)}};
  json::Array tr;
  for (int i = 0; i < sim::nrec; ++i) {
    tr.push_back((int64_t)sim::rec[i].id);
    tr.push_back((int64_t)sim::rec[i].v);
  }
  o["trace"] = std::move(tr);
  std::string s;
  llvm::raw_string_ostream os(s);
  os << json::Value(std::move(o));
  int fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  size_t p = 0;
  while (p < s.size()) {
    ssize_t k = write(fd, s.data() + p, s.size() - p);
    if (k <= 0) return 92;
    p += k;
  }
  close(fd);
  return 0;
}

int main() {
#ifdef SIM_SECRET
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, memref::MemRefDialect, scf::SCFDialect, tensor::TensorDialect,
             heir::secret::SecretDialect, heir::debug::DebugDialect, heir::mgmt::MgmtDialect>();
  registry = &reg;
  registerTransformsPasses();
  registerSecretSim();
#else
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, memref::MemRefDialect, scf::SCFDialect, tensor::TensorDialect,
             heir::debug::DebugDialect, heir::preprocessing::PreprocessingDialect, heir::tfhe_rust::TfheRustDialect,
             heir::tfhe_rust_bool::TfheRustBoolDialect>();
  registry = &reg;
  registerTransformsPasses();
  heir::registerAnnotateModulePasses();
  heir::registerEmitCInterfacePasses();
  heir::registerForwardInsertToExtractPasses();
  heir::registerForwardStoreToLoadPasses();
  heir::registerFullLoopUnrollPasses();
  heir::registerRemoveUnusedPureCallPasses();
  heir::registerUnusedMemRefPasses();
  heir::debug::registerDebugPasses();
  heir::preprocessing::registerPreprocessingPasses();
#endif
  static char line[8192];
  size_t have = 0;
  (void)!write(1, "ready\n", 6);
  for (;;) {
    size_t e;
    for (e = 0; e < have && line[e] != '\n'; ++e) {
    }
    if (e == have) {
      ssize_t k = read(0, line + have, sizeof line - have);
      if (k <= 0) return 0;
      have += k;
      continue;
    }
    line[e] = 0;
    char *in = line, *out = strchr(line, '\t');
    *out++ = 0;
    char *tok = strchr(out, '\t');
    *tok++ = 0;
    pid_t p = fork();
    if (!p) {
      // Processor time, so that a busy machine does not look like a hang.
      itimerval lim{{0, 0}, {20, 0}};
      setitimer(ITIMER_PROF, &lim, nullptr);
      alarm(400);
      static char err[4200];
      snprintf(err, sizeof err, "%s.err", out);
      int fd = open(err, O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) dup2(fd, 2);
      _exit(child(in, out));
    }
    int st = 0;
    waitpid(p, &st, 0);
    char b[128];
    int k = snprintf(b, sizeof b, "%.64s %d\n", tok, st);
    (void)!write(1, b, k);
    memmove(line, line + e + 1, have - e - 1);
    have -= e + 1;
  }
}
