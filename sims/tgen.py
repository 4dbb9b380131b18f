"""Generated modules in the tfhe-rs dialects (as lines), for the Rust emitters."""
SK = {"tfhe": "!tfhe_rust.server_key", "hl": "!tfhe_rust.server_key", "bool": "!tfhe_rust_bool.server_key", "packed": "!tfhe_rust_bool.server_key"}


class Fn:

  def __init__(self, rng, fam, name, opts, mod):
    self.r, self.fam, self.name, self.o, self.mod = rng, fam, name, opts, mod
    self.ct = {"tfhe": "!tfhe_rust.eui3", "bool": "!tfhe_rust_bool.eb", "packed": "!tfhe_rust_bool.eb"}.get(fam) or (
        "!tfhe_rust.eui%d" % rng.choice([8, 8, 16, 32]))
    self.sk = SK[fam]
    self.lines, self.n, self.ind = [], 0, 2
    self.cts, self.luts, self.idx, self.mem, self.ten, self.ints, self.boo = [], [], [], [], [], [], []
    self.own, self.full = [], {}

  def new(self):
    self.n += 1
    return "%%v%d" % self.n

  def put(self, t):
    self.lines.append("  " * self.ind + t)

  def save(self):
    return [list(x) for x in (self.cts, self.luts, self.idx, self.mem, self.ten, self.ints, self.boo, self.own)]

  def restore(self, s):
    self.cts, self.luts, self.idx, self.mem, self.ten, self.ints, self.boo, self.own = s

  def c(self):
    """A ciphertext: recent ones more often, so that chains grow."""
    v = self.cts[-4:] if self.r.random() < 0.5 else self.cts
    return self.r.choice(v)[0]

  def const(self, v, t):
    x = self.new()
    self.put("%s = arith.constant %s" % (x, v) + ("" if t == "i1" else " : " + t))
    return x

  def index(self, below):
    """An index value below a bound."""
    c = [i for i, b in self.idx if b <= below]
    if c and self.r.random() < 0.7:
      return self.r.choice(c)
    k = self.r.randrange(below)
    x = self.const(k, "index")
    self.idx.append((x, k + 1))
    return x

  def op(self, name, args, types, res, attr=""):
    x = self.new()
    self.put("%s = %s %s%s : (%s) -> %s" % (x, name, ", ".join(args), " {%s}" % attr if attr else "", ", ".join(types), res))
    return x

  # ---- statements
  def s_gate(self):
    r, ct, sk = self.r, self.ct, self.sk
    if self.fam in ("bool", "packed"):
      if r.random() < 0.2:
        v = self.op("tfhe_rust_bool.not", ["%sk", self.c()], [sk, ct], ct)
      else:
        v = self.op("tfhe_rust_bool." + r.choice(["and", "nand", "or", "nor", "xor", "xnor"]), ["%sk", self.c(), self.c()], [sk, ct, ct], ct)
    elif self.fam == "tfhe":
      x = r.random()
      if x < 0.35:
        v = self.op("tfhe_rust.add", ["%sk", self.c(), self.c()], [sk, ct, ct], ct)
      elif x < 0.6:
        v = self.op("tfhe_rust.scalar_left_shift", ["%sk", self.c()], [sk, ct], ct, "shiftAmount = %d : index" % r.randrange(3))
      elif x < 0.95 or self.o.get("nobitand"):
        v = self.op("tfhe_rust.apply_lookup_table", ["%sk", self.c(), self.lut()], [sk, ct, "!tfhe_rust.lookup_table"], ct)
      else:
        return self.s_bitand()
    else:
      x = r.random()
      if x < 0.7:
        v = self.op("tfhe_rust." + r.choice(["add", "sub", "mul", "bitand", "bitor", "bitxor"]), ["%sk", self.c(), self.c()], [sk, ct, ct], ct)
      elif x < 0.9:
        v = self.op("tfhe_rust.scalar_right_shift", ["%sk", self.c()], [sk, ct], ct, "shiftAmount = %d : index" % r.randrange(5))
      else:
        k = self.const(r.randrange(100), "i" + ct[len("!tfhe_rust.eui"):])
        v = self.op("tfhe_rust." + r.choice(["add", "mul", "sub"]), ["%sk", self.c(), k], [sk, ct, "i" + ct[len("!tfhe_rust.eui"):]], ct)
    self.cts.append((v, "gate"))

  def lut(self):
    if self.luts and self.r.random() < 0.8:
      return self.r.choice(self.luts)
    x = self.new()
    self.put("%s = tfhe_rust.generate_lookup_table %%sk {truthTable = %d : ui8} : (%s) -> !tfhe_rust.lookup_table" % (x, self.r.randrange(256), self.sk))
    self.luts.append(x)
    return x

  def plainct(self):
    """A ciphertext that is not the result of a gate run by levels."""
    c = [v for v, k in self.cts if k != "gate"]
    return self.r.choice(c) if c else None

  def s_bitand(self):
    if self.fam != "tfhe":
      return
    a, b = self.plainct(), self.plainct()
    if a and b:
      self.cts.append((self.op("tfhe_rust.bitand", ["%sk", a, b], [self.sk, self.ct, self.ct], self.ct), "op"))

  def s_trivial(self):
    if self.fam in ("bool", "packed"):
      if not self.boo or self.r.random() < 0.5:
        self.boo.append(self.const(self.r.choice(["true", "false"]), "i1"))
      v = self.op("tfhe_rust_bool.create_trivial", ["%sk", self.r.choice(self.boo)], [self.sk, "i1"], self.ct)
    elif self.fam == "tfhe":
      self.s_plain()
      if self.boo and (not self.ints or self.r.random() < 0.5):
        v = self.op("tfhe_rust.create_trivial", ["%sk", self.r.choice(self.boo)], [self.sk, "i1"], self.ct)
      else:
        k = self.const(self.r.randrange(8), "i8")
        v = self.op("tfhe_rust.create_trivial", ["%sk", k], [self.sk, "i8"], self.ct)
    else:
      w = self.ct[len("!tfhe_rust.eui"):]
      if self.r.random() < 0.5:
        v = self.new()
        self.put("%s = tfhe_rust.create_trivial %%sk {valueAttr = %d : i%s} : (%s) -> %s" % (v, self.r.randrange(100), w, self.sk, self.ct))
      else:
        v = self.op("tfhe_rust.create_trivial", ["%sk", self.const(self.r.randrange(100), "i" + w)], [self.sk, "i" + w], self.ct)
    self.cts.append((v, "op"))

  def s_plain(self):
    """Plaintext arithmetic on non-negative numbers below 100."""
    r = self.r
    if not self.ints or r.random() < 0.3:
      self.ints.append((self.const(r.randrange(100), "i32"), "i32"))
    if r.random() < 0.3 and self.idx:
      x = self.new()
      self.put("%s = arith.index_cast %s : index to i32" % (x, r.choice(self.idx)[0]))
      self.ints.append((x, "i32"))
    if r.random() < 0.5:
      v, t = r.choice(self.ints)
      x = self.new()
      k = self.const(r.randrange(4), t) if r.random() < 0.6 else r.choice([a for a, b in self.ints if b == t])
      o = r.choice(["andi", "andi", "shrsi"])
      if o == "shrsi":
        k = self.const(r.randrange(4), t)
      self.put("%s = arith.%s %s, %s : %s" % (x, o, v, k, t))
      self.ints.append((x, t))
    if r.random() < 0.3:
      v, t = r.choice(self.ints)
      y, x = self.new(), self.new()
      self.put("%s = arith.andi %s, %s : %s" % (y, v, self.const(1, t), t))
      self.put("%s = arith.trunci %s : %s to i1" % (x, y, t))
      self.boo.append(x)

  def shape(self):
    return [self.r.choice([1, 2, 3, 4]) for _ in range(self.r.choice([1, 1, 1, 2]))]

  def s_extract(self):
    if not self.ten:
      return
    t, s, kind = self.r.choice(self.ten)
    x = self.new()
    ix = [self.index(k) for k in s]
    self.put("%s = tensor.extract %s[%s] : tensor<%sx%s>" % (x, t, ", ".join(ix), "x".join(map(str, s)), self.ct))
    self.cts.append((x, "ref"))

  def s_load(self):
    m = [x for x in self.mem if x[2] == "arg" or x[3]]
    if not m:
      return
    t, s, kind, full = self.r.choice(m)
    x = self.new()
    ix = [self.index(k) for k in s]
    self.put("%s = memref.load %s[%s] : memref<%sx%s>" % (x, t, ", ".join(ix), "x".join(map(str, s)), self.ct))
    self.cts.append((x, "ref"))

  def s_alloc(self):
    """An allocated memref, every element stored to before it is read."""
    x = self.new()
    s = self.shape()
    ty = "memref<%sx%s>" % ("x".join(map(str, s)), self.ct)
    self.put("%s = memref.alloc() : %s" % (x, ty))
    def store(ix):
      v = self.storable()
      self.put("memref.store %s, %s[%s] : %s" % (v, x, ", ".join(ix), ty))
    import itertools
    if self.r.random() < 0.5:
      for k in itertools.product(*[range(n) for n in s]):
        store([self.const(i, "index") for i in k])
    else:
      ivs, sv = [], self.save()
      for n in s:
        iv = self.new()
        self.put("affine.for %s = 0 to %d {" % (iv, n))
        self.ind += 1
        self.idx.append((iv, n))
        ivs.append(iv)
      for _ in range(self.r.randrange(3)):
        self.stmt(("gate", "gate", "load", "extract"))
      store(ivs)
      for n in s:
        self.ind -= 1
        self.put("}")
      self.restore(sv)
    self.mem.append((x, s, "alloc", True))

  def storable(self):
    """A value made just for storing: the emitted code moves it."""
    x = self.r.random()
    if x < 0.7 or self.fam == "hl":
      self.s_gate()
    elif x < 0.9:
      self.s_trivial()
    v = self.cts[-1]
    if v[1] in ("ref", "arg"):
      if v[1] == "arg" and self.fam == "tfhe" and not self.o.get("argstore"):
        self.s_gate()
        v = self.cts[-1]
    if v[1] == "ref":
      return v[0]
    if self.r.random() < 0.6:
      self.cts.pop()
    if not self.cts:
      self.cts.append(("%a0", "arg"))
    return v[0]

  def s_store(self):
    m = [x for x in self.mem if x[2] == "alloc"]
    if not m:
      return
    t, s, kind, full = self.r.choice(m)
    v = self.storable()
    self.put("memref.store %s, %s[%s] : memref<%sx%s>" % (v, t, ", ".join(self.index(k) for k in s), "x".join(map(str, s)), self.ct))

  def s_from(self):
    s = self.shape()
    if self.fam == "packed":
      s = s[:1]
    n = 1
    for k in s:
      n *= k
    if self.fam == "tfhe" and not self.o.get("argstore"):
      c = [v for v, k in self.cts if k != "arg"]
    elif self.fam in ("bool", "packed"):
      c = [v for v, k in self.cts if k in ("gate", "op") or self.fam == "bool"]
    else:
      c = [v for v, k in self.cts]
    if not c:
      return
    x = self.new()
    self.put("%s = tensor.from_elements %s : tensor<%sx%s>" % (x, ", ".join(self.r.choice(c) for _ in range(n)), "x".join(map(str, s)), self.ct))
    self.ten.append((x, s, "from"))

  def s_cast(self):
    """Out to another width, an operation there, and back."""
    if self.fam != "hl":
      return
    w = self.r.choice([k for k in (8, 16, 32, 64) if "!tfhe_rust.eui%d" % k != self.ct])
    t = "!tfhe_rust.eui%d" % w
    x = self.op("tfhe_rust.cast", ["%sk", self.c()], [self.sk, self.ct], t)
    if self.r.random() < 0.7:
      x = self.op("tfhe_rust." + self.r.choice(["add", "sub", "bitxor"]), ["%sk", x, x], [self.sk, t, t], t)
    self.cts.append((self.op("tfhe_rust.cast", ["%sk", x], [self.sk, t], self.ct), "gate"))

  def s_affine(self):
    """Loads and stores at constant places."""
    m = [x for x in self.mem if x[2] == "arg" or x[3]]
    if self.fam != "hl" or not m:
      return
    t, s, kind, full = self.r.choice(m)
    ty = "memref<%sx%s>" % ("x".join(map(str, s)), self.ct)
    ix = ", ".join(str(self.r.randrange(k)) for k in s)
    if kind == "alloc" and self.r.random() < 0.4:
      self.put("affine.store %s, %s[%s] : %s" % (self.c(), t, ix, ty))
    else:
      x = self.new()
      self.put("%s = affine.load %s[%s] : %s" % (x, t, ix, ty))
      self.cts.append((x, "ref"))

  def s_insert(self):
    if self.fam != "hl":
      return
    if self.own and self.r.random() < 0.7:
      t, s, kind = self.r.choice(self.own)
    else:
      s = self.shape()[:1]
      t = self.new()
      self.put("%s = tensor.empty() : tensor<%sx%s>" % (t, "x".join(map(str, s)), self.ct))
      self.full[t] = {}
    ty = "tensor<%sx%s>" % ("x".join(map(str, s)), self.ct)
    have = set(self.full.get(t) or ())
    k = self.r.randrange(s[0])
    for i in ([k] if t in [o[0] for o in self.own] else range(s[0])):
      x, y = self.const(i, "index"), self.new()
      self.put("%s = tensor.insert %s into %s[%s] : %s" % (y, self.c(), t, x, ty))
      t = y
    self.own.append((t, s, "own"))
    self.ten.append((t, s, "own"))

  def s_call(self):
    if not self.mod.callable or self.fam != "hl":
      return
    n, args, res = self.r.choice(self.mod.callable)
    if res != self.ct:
      return
    v = []
    for t in args:
      if t == self.sk:
        v.append("%sk")
      elif t == self.ct:
        v.append(self.c())
      else:
        return
    x = self.new()
    self.put("%s = func.call @%s(%s) : (%s) -> %s" % (x, n, ", ".join(v), ", ".join(args), res))
    self.cts.append((x, "gate"))

  def s_loop(self):
    if self.ind > 4:
      return
    r = self.r
    lo = r.randrange(3)
    hi = lo + r.choice([1, 2, 3])
    iv = self.new()
    step = " step %d" % r.choice([2, 3]) if self.o.get("steps") and r.random() < 0.3 else ""
    self.put("affine.for %s = %d to %d%s {" % (iv, lo, hi, step))
    sv = self.save()
    self.idx.append((iv, hi))
    self.ind += 1
    for _ in range(r.randint(1, 4)):
      self.stmt(("gate", "gate", "store", "load", "extract", "loop", "trivial"))
    self.s_store()
    self.ind -= 1
    self.restore(sv)
    self.put("}")

  def s_global(self):
    if self.fam != "tfhe":
      return
    g = "@g%d" % len(self.mod.globals)
    s = self.shape()
    n = 1
    for k in s:
      n *= k
    vals = [self.r.randrange(8) for _ in range(n)]
    def nest(v, s):
      if len(s) == 1:
        return "[%s]" % ", ".join(map(str, v))
      k = len(v) // s[0]
      return "[%s]" % ", ".join(nest(v[i * k:(i + 1) * k], s[1:]) for i in range(s[0]))
    ty = "memref<%sxi8>" % "x".join(map(str, s))
    self.mod.globals.append("  memref.global constant %s : %s = dense<%s>" % (g, ty, nest(vals, s)))
    x, y = self.new(), self.new()
    self.put("%s = memref.get_global %s : %s" % (x, g, ty))
    self.put("%s = memref.load %s[%s] : %s" % (y, x, ", ".join(self.index(k) for k in s), ty))
    self.cts.append((self.op("tfhe_rust.create_trivial", ["%sk", y], [self.sk, "i8"], self.ct), "op"))

  def stmt(self, kinds):
    getattr(self, "s_" + self.r.choice(kinds))()

  def text(self):
    r = self.r
    args = [("%sk", self.sk)]
    for i in range(r.randint(1, 4)):
      args.append(("%%a%d" % i, self.ct))
      self.cts.append(("%%a%d" % i, "arg"))
    for i in range(r.choice([0, 0, 1, 2])):
      s = self.shape()
      if self.fam == "packed":
        s = s[:1]
      if r.random() < 0.5 or self.fam == "packed":
        args.append(("%%t%d" % i, "tensor<%sx%s>" % ("x".join(map(str, s)), self.ct)))
        self.ten.append(("%%t%d" % i, s, "arg"))
      else:
        args.append(("%%m%d" % i, "memref<%sx%s>" % ("x".join(map(str, s)), self.ct)))
        self.mem.append(("%%m%d" % i, s, "arg", True))
    if self.fam == "tfhe" and r.random() < 0.3:
      args.append(("%lut", "!tfhe_rust.lookup_table"))
      self.luts.append("%lut")
    if r.random() < 0.15:
      r.shuffle(args)
    kinds = ["gate"] * 6 + ["extract", "load", "trivial", "alloc", "store", "from", "loop", "bitand", "global", "plain"]
    if self.fam in ("hl", "packed"):
      kinds = ["gate"] * 6 + ["trivial", "extract"] + (["load", "alloc", "store", "loop", "from", "cast", "affine", "insert", "call"] if self.fam == "hl" else [])
    if self.fam == "bool":
      kinds = ["gate"] * 6 + ["trivial", "extract", "load", "alloc", "store", "from"] + (["loop"] if self.o.get("boolloops") else [])
    for _ in range(r.randint(*self.o.get("len", (3, 25)))):
      self.stmt(kinds)
    # results
    ret = []
    pool = [(v, self.ct) for v, k in self.cts if k in ("gate", "op")][-4:]
    if self.fam != "packed":
      pool += [(m, "memref<%sx%s>" % ("x".join(map(str, s)), self.ct)) for m, s, k, f in self.mem if k == "alloc"]
    if self.fam != "packed":
      pool += [(t, "tensor<%sx%s>" % ("x".join(map(str, s)), self.ct)) for t, s, k in self.ten if k in ("from", "own")]
    pool += [(v, self.ct) for v, k in self.cts if k == "arg"][:1]
    for _ in range(r.choice([1, 1, 2, 3])):
      if pool:
        ret.append(pool.pop(r.randrange(len(pool))))
    if len(ret) == 1:
      self.mod.callable.append((self.name, [t for _, t in args], ret[0][1]))
    self.put("return %s : %s" % (", ".join(v for v, t in ret), ", ".join(t for v, t in ret)))
    head = "  func.func @%s(%s) -> (%s) {" % (self.name, ", ".join("%s: %s" % a for a in args), ", ".join(t for v, t in ret))
    return [head] + self.lines + ["  }"]


class Mod:

  def __init__(self, rng, fam, nfun, opts):
    self.globals, self.callable = [], []
    body = []
    for i in range(nfun):
      body += Fn(rng, fam, "f%d" % i, opts, self).text()
    self.lines = ["module {"] + self.globals + body + ["}"]


def module(rng, fam, nfun, opts):
  return Mod(rng, fam, nfun, opts).lines


def signatures(rng, multi=False):
  """-> (lines, [(name, [type], [type])]): a module of functions with integer and memref arguments."""
  def ty(depth=0):
    x = rng.random()
    if x < 0.6:
      return rng.choice(["i%d", "i%d", "si%d", "ui%d"]) % rng.choice([1, 2, 7, 8, 16, 31, 32, 64, 65, 128, 1000])
    e = ty(depth + 1) if rng.random() < 0.2 and depth < 2 else "i%d" % rng.choice([1, 8, 32])
    if x < 0.97:
      return "memref<%s%s>" % ("".join("%dx" % rng.choice([1, 2, 3, 10, 1000]) for _ in range(rng.choice([0, 1, 1, 2, 3]))), e)
    return rng.choice(["index", "tensor<2xi8>", "f32", "memref<2xf32>", "memref<?xi8>"])
  lines, fs = ["module {"], []
  for i in range(rng.choice([0, 1, 1, 2, 5])):
    if not multi and rng.random() < 0.15:
      lines.append("  memref.global constant @k%d : memref<2xi8> = dense<[1, 2]>" % i)
    a = [ty() for _ in range(rng.choice([0, 1, 1, 2, 4, 7]))]
    name = rng.choice(["f%d", "main%d", "\"odd name %d\"", "a.b$%d", "\"quote%d\\22\""]) % i
    decl = rng.random() < 0.3
    n = rng.choice([0, 1, 1, 1, 1, 1, 2]) if rng.random() < 0.3 else rng.choice([0, 1])
    if multi:
      n = rng.choice([0, 1, 1, 2, 3])
      if rng.random() < 0.3:
        name, decl = "__heir_debug%s" % rng.choice(["_%d" % i, "_x%d" % i, str(i)]), True
    if decl:
      res = [ty() for _ in range(n)]
      lines.append("  func.func private @%s(%s) -> (%s)" % (name, ", ".join(a), ", ".join(res)))
    else:
      k = [rng.randrange(len(a)) for _ in range(n)] if a else []
      res = [a[j] for j in k]
      lines.append("  func.func @%s(%s) -> (%s) {" % (name, ", ".join("%%v%d: %s" % (j, t) for j, t in enumerate(a)), ", ".join(res)))
      lines.append("    return%s" % ("" if not k else " %s : %s" % (", ".join("%%v%d" % j for j in k), ", ".join(res))))
      lines.append("  }")
    fs.append((name, a, res))
  lines.append("}")
  return lines, fs
