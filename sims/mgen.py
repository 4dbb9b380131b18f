"""Generated MLIR modules (as lists of lines) and pass pipelines."""

INTS = ["i8", "i16", "i32", "i64"]


class Fn:
  """One function: values are kept by type, scopes are lists."""

  def __init__(self, rng, name, callees, opts):
    self.r, self.name, self.callees, self.o = rng, name, callees, opts
    self.T = opts.get("T") or rng.choice(INTS)
    self.lines, self.n, self.ind = [], 0, 2
    self.vals, self.idx, self.mem, self.ten, self.boo = [], [], [], [], []
    self.sizes = []
    self.acc, self.tacc = [], []  # accesses to repeat

  def new(self):
    self.n += 1
    return "%%v%d" % self.n

  def put(self, t):
    self.lines.append("  " * self.ind + t)

  def scope(self):
    return [list(x) for x in (self.vals, self.idx, self.mem, self.ten, self.boo, self.acc, self.tacc)]

  def restore(self, s):
    self.vals, self.idx, self.mem, self.ten, self.boo, self.acc, self.tacc = s

  # ---- operands
  def val(self):
    return self.r.choice(self.vals[-6:] if self.r.random() < 0.6 else self.vals)

  def ix(self, aff=False):
    c = [i for i in self.idx if i[1] or not aff]
    return self.r.choice(c[-5:] if self.r.random() < 0.5 else c)[0]

  def subs(self, rank, aff=False):
    out = []
    for _ in range(rank):
      if aff and self.r.random() < 0.4:
        a, b = self.ix(True), self.ix(True)
        out.append(self.r.choice(["%d" % self.r.randrange(3), "(%s + %s) mod 3" % (a, b), "2 - %s" % a, "(%s + 1) mod 3" % a]))
      else:
        out.append(self.ix(aff))
    return ", ".join(out)

  def again(self, pool, t, aff, most=4):
    """Sometimes the subscripts of an earlier access of the same rank."""
    rank = t.count("x")
    c = [x for x, k, a in pool[-most:] if k == rank and a == aff]
    x = self.r.choice(c) if c and self.r.random() < 0.45 else self.subs(rank, aff)
    pool.append((x, rank, aff))
    return x

  def amap(self, rank):
    """An explicit map of an affine access, and its operands."""
    r = self.r
    nd = r.choice([rank, rank, rank, r.randint(0, 3)])
    ns = 0 if r.random() < 0.8 else 1
    v = ["d%d" % i for i in range(nd)] + ["s%d" % i for i in range(ns)]
    if nd == rank and r.random() < 0.5:
      e = v[:nd]
      r.shuffle(e)
    else:
      e = [str(r.randrange(3)) if not v or r.random() < 0.3 else r.choice(["%s", "%s", "(%s + 1) mod 3", "2 - %s"]) % r.choice(v) for _ in range(rank)]
    sy = [i[0] for i in self.idx if i[2:] or (i[1] and i[0].startswith("%i"))]
    if ns and not sy:
      return self.amap(rank)
    c = [i[0] for i in self.idx if i[1]]
    ops = r.sample(c, nd) if len(c) >= nd and r.random() < 0.6 else [self.ix(True) for _ in range(nd)]
    return ("affine_map<(%s)%s -> (%s)>" % (", ".join("d%d" % i for i in range(nd)), "[s0]" if ns else "", ", ".join(e)),
            ops + [r.choice(sy) for _ in range(ns)])

  def shape(self):
    return "x".join(str(self.r.choice([3, 4])) for _ in range(self.r.choice([1, 2, 2, 3] if self.o.get("dims") else [1, 1, 1, 2])))

  def text(self):
    r = self.r
    args = []
    for i in range(r.randint(1, 3)):
      args.append(("%%a%d" % i, self.T))
    for i in range(r.randint(0, 3)):
      args.append(("%%i%d" % i, "index"))
    for i in range(r.randint(0, 2)):
      args.append(("%%m%d" % i, "memref<%sx%s>" % (self.shape(), self.T)))
    for i in range(r.randint(0, 2)):
      args.append(("%%t%d" % i, "tensor<%sx%s>" % (self.shape(), self.T)))
    for a, t in args:
      {"m": self.mem, "t": self.ten, "i": self.idx, "a": self.vals}[a[1]].append(
          (a, True) if t == "index" else a if t == self.T else (a, t))
    for k in r.sample(range(3), r.randint(1, 3)):
      n = self.new()
      self.put("%s = arith.constant %d : index" % (n, k))
      self.idx.append((n, True))
    if r.random() < 0.4:  # another constant of the same value
      n = self.new()
      self.put("%s = arith.constant %d : index" % (n, r.randrange(3)))
      self.idx.append((n, True))
    self.body(r.randint(*self.o.get("len", (4, 18))), 0)
    rets = [(self.val(), self.T) for _ in range(r.randint(1, 2))]
    if self.ten and r.random() < 0.4:
      rets.append(r.choice(self.ten))
    if self.mem and r.random() < 0.25:
      rets.append(r.choice(self.mem))
    self.put("return %s : %s" % (", ".join(x[0] for x in rets), ", ".join(x[1] for x in rets)))
    self.sig = ([t for _, t in args], [t for _, t in rets])
    vis = "private " if r.random() < 0.2 else ""
    at = r.choice(["", "", " attributes {client.enc_func = {func_name = \"f0\", index = 0 : i64}}"]) if self.o.get("helpers") and not self.mem else ""
    if any("call @ext" in x or "call @f" in x or "debug." in x for x in self.lines):
      at = ""  # a client helper has no effects; the compiler relies on its mark
    return ["  func.func %s@%s(%s) -> (%s)%s {" % (vis, self.name, ", ".join("%s: %s" % a for a in args),
                                                   ", ".join(self.sig[1]), at)] + self.lines + ["  }"]

  def body(self, n, depth):
    for _ in range(n):
      self.stmt(depth)

  def loopnest(self, depth):
    r = self.r
    s = self.scope()
    n = self.new()
    it = r.random() < 0.35
    lo, hi = r.choice([(0, 3), (0, 2), (1, 3), (0, 1), (2, 3)])
    step = r.choice([1, 1, 2])
    scf = r.random() < 0.25
    res = self.new() if it else ""
    x = self.new()
    head = "%s = " % res if it else ""
    init = " iter_args(%s = %s) -> (%s)" % (x, self.val(), self.T) if it else ""
    if scf:
      c = [self.new() for _ in range(3)]
      for v, k in zip(c, (lo, hi, step)):
        self.put("%s = arith.constant %d : index" % (v, k))
      self.put("%sscf.for %s = %s to %s step %s%s {" % (head, n, c[0], c[1], c[2], init))
    else:
      ub = str(hi)
      if r.random() < 0.06:
        ub = r.choice([i[0] for i in self.idx if i[2:] or (i[1] and i[0].startswith("%i"))] or [ub])  # a symbol
        lo = 0
      self.put("%saffine.for %s = %d to %s step %d%s {" % (head, n, lo, ub, step, init))
    self.ind += 1
    self.idx.append((n, not scf))
    if it:
      self.vals.append(x)
    self.body(r.randint(1, 4), depth + 1)
    if it:
      self.put("%s.yield %s : %s" % ("scf" if scf else "affine", self.val(), self.T))
    self.ind -= 1
    self.put("}")
    self.restore(s)
    if it:
      self.vals.append(res)

  def cond(self, depth):
    r = self.r
    c = self.boolean()
    yld = r.random() < 0.4
    res = self.new()
    self.put("%sscf.if %s%s {" % ("%s = " % res if yld else "", c, " -> (%s)" % self.T if yld else ""))
    for br in range(2 if yld or r.random() < 0.4 else 1):
      if br:
        self.put("} else {")
      s = self.scope()
      self.ind += 1
      self.body(r.randint(1, 3), depth + 1)
      if yld:
        self.put("scf.yield %s : %s" % (self.val(), self.T))
      self.ind -= 1
      self.restore(s)
    self.put("}")
    if yld:
      self.vals.append(res)

  def boolean(self):
    r = self.r
    if self.boo and r.random() < 0.5:
      return r.choice(self.boo)
    n = self.new()
    if r.random() < 0.3:
      self.put("%s = arith.cmpi %s, %s, %s : index" % (n, r.choice(["eq", "ne", "slt"]), self.ix(), self.ix()))
    else:
      self.put("%s = arith.cmpi %s, %s, %s : %s" % (n, r.choice(["eq", "ne", "slt", "sle", "sgt", "sge"]), self.val(), self.val(), self.T))
    self.boo.append(n)
    return n

  def stmt(self, depth):
    r = self.r
    w = self.o.get("weights", {})
    kinds = [("arith", 3), ("store", 5), ("load", 5), ("alloc", 1), ("insert", 4), ("extract", 4), ("tensor", 1), ("loop", 1.5 if depth < 2 else 0),
             ("if", 0.7 if depth < 2 else 0), ("call", 1.2), ("validate", 0.5), ("apply", 0.6), ("const", 0.6), ("select", 0.5), ("copy", 0.4 if len(self.mem) > 1 else 0)]
    k = r.choices([x for x, _ in kinds], [w.get(x, y) for x, y in kinds])[0]
    T = self.T
    if k == "arith":
      n = self.new()
      self.put("%s = arith.%s %s, %s : %s" % (n, r.choice(["addi", "subi", "muli", "xori", "maxsi", "minsi", "andi", "ori"]), self.val(), self.val(), T))
      self.vals.append(n)
    elif k == "const":
      n = self.new()
      if r.random() < 0.3:
        self.put("%s = arith.constant %d : index" % (n, r.randrange(3)))
        self.idx.append((n, depth == 0))
      else:
        self.put("%s = arith.constant %d : %s" % (n, r.randint(-9, 99), T))
        self.vals.append(n)
    elif k == "select":
      b = self.boolean()
      n = self.new()
      self.put("%s = arith.select %s, %s, %s : %s" % (n, b, self.val(), self.val(), T))
      self.vals.append(n)
    elif k == "alloc" or (k in ("store", "load") and not self.mem):
      n = self.new()
      t = "memref<%sx%s>" % (self.shape(), T)
      self.put("%s = memref.alloc() : %s" % (n, t))
      self.mem.append((n, t))
      if r.random() < 0.25 and depth == 0:  # a scratch buffer that is only written
        self.mem.pop()
        for _ in range(r.randint(0, 2)):
          self.put("memref.store %s, %s[%s] : %s" % (self.val(), n, self.subs(t.count("x")), t))
        if r.random() < 0.6:
          self.put("memref.dealloc %s : %s" % (n, t))
    elif k == "copy":
      m, t = r.choice(self.mem)
      c = [x for x, u in self.mem if u == t and x != m]
      if c:
        self.put("memref.copy %s, %s : %s to %s" % (m, r.choice(c), t, t))
    elif k == "store":
      m, t = r.choice(self.mem[-2:])
      aff = r.random() < 0.3
      if aff and r.random() < (0.6 if self.o.get("dims") else 0.3):
        mp, ix = self.amap(t.count("x"))
        self.put('"affine.store"(%s) {map = %s} : (%s) -> ()' % (", ".join([self.val(), m] + ix), mp, ", ".join([T, t] + ["index"] * len(ix))))
        return
      self.put("%s.store %s, %s[%s] : %s" % ("affine" if aff else "memref", self.val(), m, self.again(self.acc, t, aff), t))
    elif k == "load":
      m, t = r.choice(self.mem[-2:])
      aff = r.random() < 0.3
      n = self.new()
      if aff and r.random() < (0.6 if self.o.get("dims") else 0.3):
        mp, ix = self.amap(t.count("x"))
        self.put('%s = "affine.load"(%s) {map = %s} : (%s) -> %s' % (n, ", ".join([m] + ix), mp, ", ".join([t] + ["index"] * len(ix)), T))
        self.vals.append(n)
        return
      s = self.again(self.acc, t, aff)
      self.put("%s = %s.load %s[%s] : %s" % (n, "affine" if aff else "memref", m, s, t))
      self.vals.append(n)
    elif k == "tensor" or (k in ("insert", "extract") and not self.ten):
      n = self.new()
      c = r.randrange(3)
      dims = [r.choice([3, 4]) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
      if r.random() < 0.05:
        dims[r.randrange(len(dims))] = 7
      t = "tensor<%sx%s>" % ("x".join(map(str, dims)), T)
      d = 1
      for q in dims:
        d *= q
      if c == 0:
        x = [str(r.randint(-50, 99)) for _ in range(d)]
        for q in reversed(dims):
          x = ["[%s]" % ", ".join(x[i:i + q]) for i in range(0, len(x), q)]
        self.put("%s = arith.constant dense<%s> : %s" % (n, x[0], t))
      elif c == 1:
        self.put("%s = tensor.from_elements %s : %s" % (n, ", ".join(self.val() for _ in range(d)), t))
      else:
        self.put("%s = arith.constant dense<%d> : %s" % (n, r.randint(-50, 99), t))
      self.ten.append((n, t))
    elif k == "insert":
      m, t = r.choice(self.ten[-3:])
      n = self.new()
      self.put("%s = tensor.insert %s into %s[%s] : %s" % (n, self.val(), m, self.again(self.tacc, t, False), t))
      self.ten.append((n, t))
    elif k == "extract":
      m, t = r.choice(self.ten[-3:])
      n = self.new()
      self.put("%s = tensor.extract %s[%s] : %s" % (n, m, self.again(self.tacc, t, False), t))
      self.vals.append(n)
    elif k == "loop":
      self.loopnest(depth)
    elif k == "if":
      self.cond(depth)
    elif k == "apply":
      c = [i for i in self.idx if i[1]]
      if c:
        n = self.new()
        a, b = r.choice(c)[0], r.choice(c)[0]
        self.put("%s = affine.apply affine_map<(d0, d1) -> ((d0 + d1) mod 3)>(%s, %s)" % (n, a, b))
        self.idx.append((n, depth == 0))
    elif k == "validate":
      if self.o.get("debug", True):
        names = self.o.setdefault("names", [])
        nm = r.choice(names) if names and r.random() < self.o.get("dup", 0.02) else "p%d" % len(names)
        names.append(nm)
        v, t = (self.val(), T) if not self.ten or r.random() < 0.6 else r.choice(self.ten)
        self.put("debug.validate %s {name = \"%s\"} : %s" % (v, nm, t))
    elif k == "call" and self.callees:
      name, (at, rt) = r.choice(self.callees)
      ops, used = [], set()
      for t in at:
        c = [x for x in ([(v, T) for v in self.vals] + [(i[0], "index") for i in self.idx] + self.mem + self.ten) if x[1] == t and x[0] not in used]
        if not c:
          return
        v = r.choice(c)
        if "memref" in t:
          used.add(v[0])
        ops.append(v[0])
      if r.random() < 0.25 and not any("memref" in t for t in rt):
        n = None
      res = [self.new() for _ in rt]
      self.put("%sfunc.call @%s(%s) : (%s) -> (%s)" % (", ".join(res) + " = " if res else "", name, ", ".join(ops), ", ".join(at), ", ".join(rt)))
      for x, t in zip(res, rt):
        if t == T:
          self.vals.append(x)
        elif t == "index":
          pass
        elif "tensor" in t:
          self.ten.append((x, t))


def prep_fn(rng, name, sites):
  """A function with preprocessing storage."""
  L = []
  st = "!preprocessing.storage<i32>"
  L.append("  func.func @%s(%%x: i32, %%i: index) {" % name)
  L.append("    %%s = preprocessing.empty : %s" % st)
  if rng.random() < 0.1:
    L.append("    %%s2 = preprocessing.empty : %s" % st)
  n = 0
  for _ in range(rng.randint(1, 3)):
    site = len(sites) if rng.random() < 0.85 or not sites else rng.choice(sites)
    sites.append(site)
    ix = rng.choice(["", "%i"])
    if rng.random() < 0.95:
      L.append("    preprocessing.store %%x, %%s[%s] site %d <i32> : i32, %s" % (ix, site, st))
    if rng.random() < 0.95:
      n += 1
      L.append("    %%l%d = preprocessing.load %%s[%s] site %d <i32> : %s, i32" % (n, ix if rng.random() < 0.9 else "", site, st))
  L += ["    return", "  }"]
  return L


ATTRS = ["", "", "backend.openfhe", "backend.lattigo", "backend.openfhe", "backend.lattigo, scheme.ckks", "backend.bogus", "backend.openfhe, backend.lattigo",
         "backend.lattigo = 3 : i64", "backend.openfhe, backend.config_override = {bootstrapLevelsConsumed = 9 : i64}", "scheme.bgv",
         "backend.lattigo, backend.config_override = {has_kernel_chebyshev = 0 : i64}"]


def module(rng, nfun=None, opts=None, attrs=None):
  """-> lines"""
  o = dict(opts or {})
  o.setdefault("names", [])
  T = rng.choice(INTS)
  o["T"] = T
  callees, lines = [], []
  ext = []
  if rng.random() < 0.7:
    for i in range(rng.randint(1, 2)):
      at = [rng.choice([T, "index", "memref<3x%s>" % T, "memref<4x%s>" % T]) for _ in range(rng.randint(1, 2))]
      ext.append(("ext%d" % i, (at, [T] * rng.randint(0, 1)), ""))
  if rng.random() < 0.4:
    k = rng.choice(["enc_func", "dec_func", "pack_func", "enc_zero_func"])
    ext.append(("helper0", ([T], [T]), " attributes {client.%s = {func_name = \"f0\", index = 0 : i64}}" % k))
  if rng.random() < 0.2:
    ext.append(("helper1", ([T], ["tensor<3x%s>" % T]), " attributes {client.preprocessed_func = {func_name = \"f0\"}}"))
  for n, (at, rt), x in ext:
    lines.append("  func.func private @%s(%s) -> (%s)%s" % (n, ", ".join(at), ", ".join(rt), x))
    callees.append((n, (at, rt)))
  sites = []
  for i in range(nfun or rng.choice([1, 2, 3, 4, 6, 8])):
    if rng.random() < o.get("prep", 0.0):
      lines += prep_fn(rng, "f%d" % i, sites)
      continue
    f = Fn(rng, "f%d" % i, list(callees), o)
    lines += f.text()
    if rng.random() < 0.5:
      callees.append((f.name, f.sig))
  a = attrs if attrs is not None else rng.choice(ATTRS)
  return ["module%s {" % (" attributes {%s}" % a if a else "")] + lines + ["}"]


FUNC_PASSES = ["forward-insert-to-extract", "forward-store-to-load", "full-loop-unroll", "canonicalize", "cse", "remove-unused-memref"]
MOD_PASSES = ["annotate-module{scheme=%s}", "annotate-module{backend=%s}", "apply-config-override{config=%s}", "emit-c-interface", "remove-unused-pure-call",
              "debug-validate-names", "validate-preprocessing", "forward-insert-to-extract", "forward-store-to-load", "full-loop-unroll", "canonicalize", "cse"]
OWN = [p for p in MOD_PASSES if p not in ("canonicalize", "cse")] + ["func.func(remove-unused-memref)"]


def fill(rng, p):
  if "scheme" in p:
    return p % rng.choice(["bgv", "bfv", "ckks", "cggi", "none"])
  if "backend" in p:
    return p % rng.choice(["openfhe", "lattigo", "openfhe", "lattigo", "bogus", "none"])
  if "config=" in p:
    return p % rng.choice(["bootstrapLevelsConsumed=%d" % rng.randint(1, 40), "has_kernel_chebyshev=%d" % rng.randrange(2),
                           "has_kernel_linear_transform=%d" % rng.randrange(2), "bogus=1", "bootstrapLevelsConsumed",
                           "bootstrapLevelsConsumed=%d,has_kernel_chebyshev=%d" % (rng.randint(1, 40), rng.randrange(2))])
  return p


def pipeline(rng, fpasses=FUNC_PASSES, mpasses=MOD_PASSES, n=None):
  out = []
  for _ in range(n or rng.randint(1, 4)):
    if rng.random() < 0.6:
      out.append("func.func(%s)" % ",".join(rng.choice(fpasses) for _ in range(rng.randint(1, 3))))
    else:
      out.append(fill(rng, rng.choice(mpasses)))
  return ",".join(out)
