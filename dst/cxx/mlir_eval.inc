// A small reference interpreter of the IR, used to compare a module before and after passes.
struct Val {
  int64_t i = 0;
  std::vector<int64_t> t;                   // tensor
  std::shared_ptr<std::vector<int64_t>> m;  // memref
  bool s = false;                           // computed from a secret
};
struct Eval {
  ModuleOp mod;
  std::vector<std::string> events;
  std::string bad;
  int fuel = 200000;
  bool split = false;  // secret arguments come from a seed of their own, and what is done with them is noted
  int64_t secret = 0;
  std::set<std::string> leaks;
  uint64_t path = 7;
  void went(uint64_t x) { path = mix(path * 31 + x); }
  void leak(bool s, const std::string &what) {
    if (s) leaks.insert(what);
  }
  static Type plain(Type t) {
#ifdef SIM_SECRET
    if (auto x = dyn_cast<heir::secret::SecretType>(t)) return x.getValueType();
#endif
    return t;
  }
  struct Env {  // references stay valid while it grows
    std::unordered_map<void *, Val> m;
    Val &operator[](Value v) { return m[v.getAsOpaquePointer()]; }
  };

  static uint64_t mix(uint64_t x) {
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdull;
    x ^= x >> 33;
    x *= 0xc4ceb9fe1a85ec53ull;
    return x ^ (x >> 33);
  }
  static int64_t wrap(int64_t v, Type t) {
    if (auto it = dyn_cast<IntegerType>(t)) {
      unsigned w = it.getWidth();
      if (w < 64) return (int64_t)((uint64_t)v << (64 - w)) >> (64 - w);
    }
    return v;
  }
  static int64_t size(Type t) { return cast<ShapedType>(t).getNumElements(); }
  int64_t flat(Type t, llvm::ArrayRef<int64_t> ix, int64_t all = 0) {
    auto s = cast<ShapedType>(t);
    int64_t f = 0;
    for (size_t k = 0; k < ix.size(); ++k) {
      int64_t n = s.isDynamicDim(k) ? all : s.getDimSize(k);
      if (ix[k] < 0 || ix[k] >= n) {
        bad = "out of bounds";
        return 0;
      }
      f = f * n + ix[k];
    }
    return f;
  }
  static std::string show(const Val &v, Type t) {
    std::string s;
    t = plain(t);
    if (isa<MemRefType>(t)) {
      s = "m[";
      for (auto x : *v.m) s += std::to_string(x) + ",";
      return s + "]";
    }
    if (isa<TensorType>(t)) {
      s = "t[";
      for (auto x : v.t) s += std::to_string(x) + ",";
      return s + "]";
    }
    return std::to_string(v.i);
  }
  Val fresh(Type t, uint64_t seed, int64_t limit) {
    Val v;
    t = plain(t);
    if (isa<MemRefType>(t)) {
      v.m = std::make_shared<std::vector<int64_t>>();
      for (int64_t k = 0; k < size(t); ++k) v.m->push_back(wrap(mix(seed + k) % 1000, cast<ShapedType>(t).getElementType()));
    } else if (isa<TensorType>(t)) {
      for (int64_t k = 0; k < size(t); ++k) v.t.push_back(wrap(mix(seed + k) % 1000, cast<ShapedType>(t).getElementType()));
    } else if (isa<IndexType>(t)) {
      v.i = mix(seed) % limit;
    } else {
      v.i = wrap(mix(seed) % 1000, t);
    }
    return v;
  }
  bool affine(AffineMap map, ValueRange ops, Env &e, llvm::SmallVector<int64_t> &out) {
    llvm::SmallVector<Attribute> in, res;
    for (Value o : ops) in.push_back(IntegerAttr::get(IndexType::get(map.getContext()), e[o].i));
    if (failed(map.constantFold(in, res))) return false;
    for (auto a : res) out.push_back(cast<IntegerAttr>(a).getInt());
    return true;
  }
  // Returns the operands of the terminator.
  std::vector<Val> block(Block &b, Env &e) {
    std::vector<Val> r;
    for (Operation &o : b) {
      if (!bad.empty()) return r;
      if (--fuel < 0) {
        bad = "fuel";
        return r;
      }
      if (o.hasTrait<OpTrait::IsTerminator>()) {
        for (Value v : o.getOperands()) r.push_back(e[v]);
        return r;
      }
      step(o, e);
      if (split && o.getNumResults()) {
        if (!o.getNumRegions()) {
          StringRef n = o.getName().getStringRef();
          bool any = n == "secret.conceal";
          for (Value v : o.getOperands()) any |= e[v].s;
          if (n == "secret.reveal") any = false;
          if (n != "func.call")
            for (Value v : o.getResults()) e[v].s = any;
        }
        if (o.getNumResults() == 1) leak(o.hasAttr("secret.public") && !o.hasAttr("secret.secret") && e[o.getResult(0)].s, "public");
      }
    }
    return r;
  }
  void loop(Operation &o, Block &body, int64_t lo, int64_t hi, int64_t st, ValueRange inits, Env &e) {
    std::vector<Val> it;
    for (Value v : inits) it.push_back(e[v]);
    if (st <= 0) bad = "step";
    for (int64_t i = lo; i < hi && bad.empty(); i += st) {
      went(1);
      e[body.getArgument(0)].i = i;
      for (size_t k = 0; k < it.size(); ++k) e[body.getArgument(k + 1)] = it[k];
      it = block(body, e);
    }
    for (size_t k = 0; k < it.size() && bad.empty(); ++k) e[o.getResult(k)] = it[k];
  }
  void step(Operation &o, Env &e) {
    StringRef n = o.getName().getStringRef();
    auto A = [&](int k) { return e[o.getOperand(k)].i; };
    auto R = [&](int64_t v) { e[o.getResult(0)].i = wrap(v, o.getResult(0).getType()); };
    if (auto c = dyn_cast<arith::ConstantOp>(o)) {
      Attribute v = c.getValue();
      if (auto i = dyn_cast<IntegerAttr>(v)) {
        R(i.getValue().getSExtValue());
      } else if (auto d = dyn_cast<DenseIntElementsAttr>(v)) {
        Val x;
        for (auto q : d.getValues<APInt>()) x.t.push_back(q.getSExtValue());
        e[o.getResult(0)] = x;
      } else {
        bad = "constant";
      }
    } else if (n == "arith.addi") R((uint64_t)A(0) + (uint64_t)A(1));
    else if (n == "arith.subi") R((uint64_t)A(0) - (uint64_t)A(1));
    else if (n == "arith.muli") R((uint64_t)A(0) * (uint64_t)A(1));
    else if (n == "arith.andi") R(A(0) & A(1));
    else if (n == "arith.ori") R(A(0) | A(1));
    else if (n == "arith.xori") R(A(0) ^ A(1));
    else if (n == "arith.shli") R(A(1) >= 0 && A(1) < 64 ? (uint64_t)A(0) << A(1) : 0);
    else if (n == "arith.remsi" || n == "arith.remui" || n == "arith.divsi" || n == "arith.divui" || n == "arith.floordivsi") {
      int64_t a = A(0), b = A(1);
      if (b == 0 || (a < 0 && n.ends_with("ui"))) bad = "division";
      else if (n == "arith.floordivsi") R(a / b - (a % b != 0 && (a < 0) != (b < 0)));
      else R(n.starts_with("arith.rem") ? a % b : a / b);
    } else if (n == "arith.maxsi") R(std::max(A(0), A(1)));
    else if (n == "arith.minsi") R(std::min(A(0), A(1)));
    else if (n == "arith.index_cast" || n == "arith.extsi" || n == "arith.trunci") R(A(0));
    else if (n == "arith.extui") R(A(0) & ((1ll << o.getOperand(0).getType().getIntOrFloatBitWidth()) - 1));
    else if (n == "arith.select") e[o.getResult(0)] = A(0) ? e[o.getOperand(1)] : e[o.getOperand(2)];
    else if (auto c = dyn_cast<arith::CmpIOp>(o)) {
      int64_t a = A(0), b = A(1);
      bool v = false;
      switch (c.getPredicate()) {
        case arith::CmpIPredicate::eq: v = a == b; break;
        case arith::CmpIPredicate::ne: v = a != b; break;
        case arith::CmpIPredicate::slt: v = a < b; break;
        case arith::CmpIPredicate::sle: v = a <= b; break;
        case arith::CmpIPredicate::sgt: v = a > b; break;
        case arith::CmpIPredicate::sge: v = a >= b; break;
        case arith::CmpIPredicate::ult: v = (uint64_t)a < (uint64_t)b; break;  // sign extension keeps the unsigned order
        case arith::CmpIPredicate::ule: v = (uint64_t)a <= (uint64_t)b; break;
        case arith::CmpIPredicate::ugt: v = (uint64_t)a > (uint64_t)b; break;
        case arith::CmpIPredicate::uge: v = (uint64_t)a >= (uint64_t)b; break;
        default: bad = "cmpi"; break;
      }
      R(v ? -1 : 0);
    } else if (auto f = dyn_cast<affine::AffineForOp>(o)) {
      llvm::SmallVector<int64_t> lo, hi;
      if (!affine(f.getLowerBoundMap(), f.getLowerBoundOperands(), e, lo) || !affine(f.getUpperBoundMap(), f.getUpperBoundOperands(), e, hi)) {
        bad = "bounds";
        return;
      }
      for (Value v : o.getOperands().take_front(f.getNumControlOperands())) leak(e[v].s, "affine.for");
      loop(o, *f.getBody(), *std::max_element(lo.begin(), lo.end()), *std::min_element(hi.begin(), hi.end()), f.getStepAsInt(), f.getInits(), e);
    } else if (auto f = dyn_cast<scf::ForOp>(o)) {
      leak(e[f.getLowerBound()].s || e[f.getUpperBound()].s || e[f.getStep()].s, "scf.for");
      loop(o, *f.getBody(), e[f.getLowerBound()].i, e[f.getUpperBound()].i, e[f.getStep()].i, f.getInitArgs(), e);
    } else if (auto f = dyn_cast<scf::IfOp>(o)) {
      leak(e[o.getOperand(0)].s, "scf.if");
      went(A(0) ? 2 : 3);
      Region &g = A(0) ? f.getThenRegion() : f.getElseRegion();
      if (!g.empty()) {
        auto r = block(g.front(), e);
        for (size_t k = 0; k < r.size() && k < o.getNumResults(); ++k) e[o.getResult(k)] = r[k];
      }
    } else if (auto f = dyn_cast<scf::WhileOp>(o)) {
      std::vector<Val> it;
      for (Value v : o.getOperands()) it.push_back(e[v]);
      while (bad.empty()) {
        Block &b = f.getBefore().front(), &a = f.getAfter().front();
        for (size_t k = 0; k < it.size(); ++k) e[b.getArgument(k)] = it[k];
        it = block(b, e);
        if (!bad.empty()) break;
        leak(it[0].s, "scf.while");
        bool go = it[0].i;
        went(go ? 4 : 5);
        it.erase(it.begin());
        if (!go) {
          for (size_t k = 0; k < it.size(); ++k) e[o.getResult(k)] = it[k];
          break;
        }
        for (size_t k = 0; k < it.size(); ++k) e[a.getArgument(k)] = it[k];
        it = block(a, e);
      }
    } else if (n == "secret.generic") {
      Block &b = o.getRegion(0).front();
      for (size_t k = 0; k < o.getNumOperands(); ++k) {
        Val v = e[o.getOperand(k)];
        e[b.getArgument(k)] = v;
      }
      auto r = block(b, e);
      for (size_t k = 0; k < r.size() && k < o.getNumResults(); ++k) e[o.getResult(k)] = r[k];
    } else if (n == "secret.conceal" || n == "secret.reveal") {
      Val v = e[o.getOperand(0)];
      e[o.getResult(0)] = v;
    } else if (auto a = dyn_cast<affine::AffineApplyOp>(o)) {
      llvm::SmallVector<int64_t> x;
      if (affine(a.getAffineMap(), a.getMapOperands(), e, x)) R(x[0]);
      else bad = "apply";
    } else if (auto l = dyn_cast<affine::AffineLoadOp>(o)) {
      llvm::SmallVector<int64_t> x;
      if (!affine(l.getAffineMap(), l.getMapOperands(), e, x)) bad = "map";
      int64_t k = flat(l.getMemRefType(), x);
      if (bad.empty()) R((*e[l.getMemRef()].m)[k]);
    } else if (auto s = dyn_cast<affine::AffineStoreOp>(o)) {
      llvm::SmallVector<int64_t> x;
      if (!affine(s.getAffineMap(), s.getMapOperands(), e, x)) bad = "map";
      int64_t k = flat(s.getMemRefType(), x);
      if (bad.empty()) (*e[s.getMemRef()].m)[k] = e[s.getValueToStore()].i;
    } else if (auto l = dyn_cast<memref::LoadOp>(o)) {
      llvm::SmallVector<int64_t> x;
      for (Value v : l.getIndices()) x.push_back(e[v].i);
      int64_t k = flat(l.getMemRefType(), x);
      if (bad.empty()) R((*e[l.getMemRef()].m)[k]);
    } else if (auto s = dyn_cast<memref::StoreOp>(o)) {
      llvm::SmallVector<int64_t> x;
      for (Value v : s.getIndices()) x.push_back(e[v].i);
      int64_t k = flat(s.getMemRefType(), x);
      if (bad.empty()) (*e[s.getMemRef()].m)[k] = e[s.getValueToStore()].i;
    } else if (n == "memref.alloc") {
      Val v;
      v.m = std::make_shared<std::vector<int64_t>>(size(o.getResult(0).getType()), 0);
      e[o.getResult(0)] = v;
    } else if (n == "memref.dealloc") {
    } else if (n == "memref.copy") {
      std::vector<int64_t> v = *e[o.getOperand(0)].m;
      *e[o.getOperand(1)].m = v;
    } else if (auto x = dyn_cast<tensor::ExtractOp>(o)) {
      llvm::SmallVector<int64_t> ix;
      for (Value v : x.getIndices()) {
        ix.push_back(e[v].i);
        leak(e[v].s, x.getIndices().size() == 1 ? "tensor.extract" : "extract n-d");
      }
      int64_t k = flat(x.getTensor().getType(), ix, e[x.getTensor()].t.size());
      went(k);
      if (bad.empty()) R(e[x.getTensor()].t[k]);
    } else if (auto x = dyn_cast<tensor::InsertOp>(o)) {
      llvm::SmallVector<int64_t> ix;
      for (Value v : x.getIndices()) {
        ix.push_back(e[v].i);
        leak(e[v].s, x.getIndices().size() == 1 ? "tensor.insert" : "insert n-d");
      }
      Val d = e[x.getDest()];
      int64_t k = flat(x.getDest().getType(), ix, d.t.size());
      went(k);
      if (bad.empty()) d.t[k] = e[x.getScalar()].i;
      e[o.getResult(0)] = d;
    } else if (n == "tensor.from_elements") {
      Val d;
      for (Value v : o.getOperands()) d.t.push_back(e[v].i);
      e[o.getResult(0)] = d;
    } else if (n == "tensor.cast") {
      Val d = e[o.getOperand(0)];
      e[o.getResult(0)] = d;
    } else if (n == "tensor.splat") {
      Val d;
      d.t.assign(size(o.getResult(0).getType()), A(0));
      e[o.getResult(0)] = d;
    } else if (n == "debug.validate") {
      events.push_back("validate " + o.getAttrOfType<StringAttr>("name").str() + " " + show(e[o.getOperand(0)], o.getOperand(0).getType()));
    } else if (auto c = dyn_cast<func::CallOp>(o)) {
      std::vector<Val> args;
      for (Value v : o.getOperands()) args.push_back(e[v]);
      auto f = mod.lookupSymbol<func::FuncOp>(c.getCallee());
      std::vector<Val> r;
      if (!f) {
        bad = "callee";
        return;
      }
      if (!f.isDeclaration()) {
        r = call(f, args);
      } else {
        bool helper = f->hasAttr("client.enc_func") || f->hasAttr("client.dec_func") || f->hasAttr("client.pack_func") ||
                      f->hasAttr("client.preprocessed_func") || f->hasAttr("client.enc_zero_func");
        std::string ev = "call " + c.getCallee().str();
        uint64_t h = 17;
        for (size_t k = 0; k < args.size(); ++k) ev += " " + show(args[k], o.getOperand(k).getType());
        for (char ch : ev) h = h * 131 + (unsigned char)ch;
        if (!helper) {
          events.push_back(ev);
          for (auto &a : args)  // an unknown function writes what it is given
            if (a.m && !a.m->empty()) (*a.m)[h % a.m->size()] = h % 97;
        }
        for (size_t k = 0; k < o.getNumResults(); ++k) r.push_back(fresh(o.getResult(k).getType(), h + k, 2));
      }
      for (size_t k = 0; k < r.size() && k < o.getNumResults(); ++k) e[o.getResult(k)] = r[k];
    } else {
      bad = "op " + n.str();
    }
  }
  std::vector<Val> call(func::FuncOp f, const std::vector<Val> &args) {
    Env e;
    for (size_t k = 0; k < args.size(); ++k) e[f.getArgument(k)] = args[k];
    return block(f.getBody().front(), e);
  }
  std::string run(func::FuncOp f, uint64_t seed, int64_t limit) {
    std::vector<Val> args;
    for (size_t k = 0; k < f.getNumArguments(); ++k) {
      Type t = f.getArgument(k).getType();
      bool s = split && (t != plain(t) || f.getArgAttr(k, "secret.secret"));
      args.push_back(fresh(t, mix(s ? secret : seed) + k * 100003, limit));
      args.back().s = s;
    }
    auto r = call(f, args);
    if (!bad.empty()) return "bad " + bad;
    std::string s;
    for (size_t k = 0; k < r.size(); ++k) s += show(r[k], f.getResultTypes()[k]) + " ";
    s += "|";
    for (size_t k = 0; k < args.size(); ++k)
      if (args[k].m) s += show(args[k], f.getArgument(k).getType()) + " ";
    for (auto &x : events) s += "|" + x;
    return s;
  }
};
