"""Generated programs over secret and public values: conditionals, loops with declared static
bounds and tensor accesses, each within what the program declares about its inputs."""


class Fn:

  def __init__(self, rng, opts):
    self.r, self.o = rng, opts
    self.T = rng.choice(["i16", "i32", "i64"])
    self.n, self.lines, self.ind = 0, [], 2
    self.vals, self.idx, self.boo, self.ten = [], [], [], []
    self.consts = {}

  def new(self):
    self.n += 1
    return "%%v%d" % self.n

  def put(self, t):
    self.lines.append("  " * self.ind + t)

  def op(self, t, pool):
    n = self.new()
    self.put("%s = %s" % (n, t))
    pool.append(n)
    return n

  def c(self, v, t):
    if (v, t) not in self.consts:
      n = "%%c%s_%s" % (str(v).replace("-", "m"), t)
      self.consts[v, t] = n
    return self.consts[v, t]

  def val(self):
    return self.r.choice(self.vals[-6:] if self.r.random() < 0.6 else self.vals)

  def cond(self):
    r = self.r
    if self.boo and r.random() < 0.3:
      return r.choice(self.boo)
    if r.random() < 0.7:
      return self.op("arith.cmpi %s, %s, %s : %s" % (r.choice(["eq", "ne", "slt", "sle", "sgt", "sge"]), self.val(),
                                                    self.val() if r.random() < 0.5 else self.c(r.randint(-3, 300), self.T), self.T), self.boo)
    return self.op("arith.cmpi %s, %s, %s : index" % (r.choice(["eq", "slt", "sge"]), self.ix(), self.ix()), self.boo)

  def ix(self):
    """Some index value, without bounds."""
    r = self.r
    if not self.idx or r.random() < 0.3:
      return self.op("arith.index_cast %s : %s to index" % (self.val(), self.T), self.idx)
    return r.choice(self.idx)

  def below(self, n):
    """An index in [0, n), n a power of two."""
    r = self.r
    if r.random() < 0.15:
      return self.c(r.randrange(n), "index")
    x = self.ix()
    if r.random() < 0.4 and self.r.random() < 0.5:
      x = self.op("arith.addi %s, %s : index" % (x, self.ix()), self.idx)
    return self.op("arith.andi %s, %s : index" % (x, self.c(n - 1, "index")), self.idx)

  def scope(self):
    return [list(x) for x in (self.vals, self.idx, self.boo, self.ten)]

  def restore(self, s):
    self.vals, self.idx, self.boo, self.ten = s

  def body(self, n, depth):
    for _ in range(n):
      self.stmt(depth)

  def stmt(self, depth):
    r = self.r
    w = {"arith": 5, "select": 1, "extract": 2, "insert": 1, "if": 1.5, "for": 1.5, "while": 1, "afor": 0.5}
    w.update(self.o.get("weights", {}))
    if depth >= self.o.get("depth", 2):
      for k in ("if", "for", "while", "afor"):
        w[k] = 0
    k = r.choices(list(w), list(w.values()))[0]
    getattr(self, "do_" + k)(depth)

  def do_arith(self, d):
    r = self.r
    if r.random() < 0.2:
      self.cond()
      return
    b = self.val() if r.random() < 0.7 else self.c(r.randint(-3, 300), self.T)
    self.op("arith.%s %s, %s : %s" % (r.choice(["addi", "subi", "muli", "xori", "addi"]), self.val(), b, self.T), self.vals)

  def do_select(self, d):
    if self.r.random() < 0.2 and self.idx:
      self.op("arith.select %s, %s, %s : index" % (self.cond(), self.ix(), self.ix()), self.idx)
    else:
      self.op("arith.select %s, %s, %s : %s" % (self.cond(), self.val(), self.val(), self.T), self.vals)

  def tensor(self):
    r = self.r
    if not self.ten or r.random() < 0.1:
      n = r.choice([1, 2, 4, 8])
      t = "tensor<%dx%s>" % (n, self.T)
      if r.random() < 0.5:
        v = self.new()
        self.put("%s = tensor.from_elements %s : %s" % (v, ", ".join(self.val() for _ in range(n)), t))
      else:
        v = self.new()
        self.put("%s = arith.constant dense<[%s]> : %s" % (v, ", ".join(str(r.randrange(99)) for _ in range(n)), t))
      self.ten.append((v, (n,)))
    return r.choice(self.ten[-4:])

  def ttype(self, s):
    return "tensor<%sx%s>" % ("x".join(map(str, s)), self.T)

  def do_extract(self, d):
    t, s = self.tensor()
    ix = ", ".join(self.below(k) for k in s)
    t, s = self.dyn(t, s)
    self.op("tensor.extract %s[%s] : %s" % (t, ix, self.ttype(s)), self.vals)

  def dyn(self, t, s):
    """Sometimes, the tensor as one of unknown size."""
    if len(s) > 1 or self.r.random() >= self.o.get("dyn", 0.08):
      return t, s
    v = self.new()
    self.put("%s = tensor.cast %s : %s to %s" % (v, t, self.ttype(s), self.ttype("?")))
    return v, "?"

  def do_insert(self, d):
    t, s = self.tensor()
    ix = ", ".join(self.below(k) for k in s)
    t, q = self.dyn(t, s)
    v = self.new()
    self.put("%s = tensor.insert %s into %s[%s] : %s" % (v, self.val(), t, ix, self.ttype(q)))
    if q != s:
      w = self.new()
      self.put("%s = tensor.cast %s : %s to %s" % (w, v, self.ttype(q), self.ttype(s)))
      v = w
    self.ten.append((v, s))

  def carried(self, least=1):
    """Values carried by a structured operation: [(init, type)]."""
    r = self.r
    out = []
    for _ in range(r.randint(least, 3)):
      x = r.random()
      if x < 0.2 and self.ten:
        t, s = r.choice(self.ten)
        out.append((t, self.ttype(s), s))
      elif x < 0.35 and self.idx:
        out.append((r.choice(self.idx), "index", None))
      else:
        out.append((self.val(), self.T, None))
    return out

  def pool(self, t, s, v):
    if s is not None:
      self.ten.append((v, s))
    elif t == "index":
      self.idx.append(v)
    else:
      self.vals.append(v)

  def some(self, t, s, keep=None):
    """A value of the type, to be yielded."""
    r = self.r
    if keep and r.random() < 0.15:
      return keep
    if s is not None:
      return r.choice([v for v, q in self.ten if q == s][-3:])
    if t == "index":
      return r.choice(self.idx[-4:])
    return self.val()

  def inner(self, depth, pre=()):
    s = self.scope()
    self.ind += 1
    for t, sh, v in pre:
      self.pool(t, sh, v)
    self.body(self.r.randint(0, 4), depth + 1)
    return s

  def results(self, car, head):
    n = self.new()
    if len(car) == 1:
      return n, [n]
    return "%s:%d" % (n, len(car)), ["%s#%d" % (n, i) for i in range(len(car))]

  def outer(self, car, names):
    for (_, t, s), v in zip(car, names):
      self.pool(t, s, v)

  def do_if(self, d):
    r = self.r
    c = self.cond()
    car = self.carried()
    lhs, names = self.results(car, "if")
    types = ", ".join(t for _, t, _ in car)
    self.put("%s = scf.if %s -> (%s) {" % (lhs, c, types))
    for k in (0, 1):
      s = self.inner(d)
      self.put("scf.yield %s : %s" % (", ".join(self.some(t, sh, v) for v, t, sh in car), types))
      self.restore(s)
      self.ind -= 1
      self.put("} else {" if k == 0 else "}")
    self.outer(car, names)

  def bound(self, lo, hi):
    """An index value within [lo, hi], usually computed."""
    r = self.r
    n = 1
    while n * 2 <= hi - lo + 1:
      n *= 2
    if r.random() < 0.2 or n == 1:
      return self.c(r.randint(lo, hi), "index")
    x = self.below(n)
    if lo:
      x = self.op("arith.addi %s, %s : index" % (x, self.c(lo, "index")), self.idx)
    return x

  def do_for(self, d):
    r = self.r
    lo = r.choice([0, 0, 0, 1, -3])
    hi = lo + r.choice([1, 3, 7, 8])
    lb = self.c(lo, "index") if r.random() < 0.5 else self.bound(lo, hi)
    ub = self.bound(lo, hi)
    st = r.choice([1, 1, 1, 2, 3])
    ty = "index"
    car = self.carried()
    if r.random() < self.o.get("intloop", 0.1):
      ty = self.T
      lb, ub = (self.op("arith.index_cast %s : index to %s" % (x, ty), self.vals) for x in (lb, ub))
    lhs, names = self.results(car, "for")
    iv = "%%i%d" % self.n
    its = ["%%a%d_%d" % (self.n, k) for k in range(len(car))]
    types = ", ".join(t for _, t, _ in car)
    self.put("%s = scf.for %s = %s to %s step %s iter_args(%s) -> (%s)%s {" % (
        lhs, iv, lb, ub, self.c(st, ty), ", ".join("%s = %s" % (a, v) for a, (v, _, _) in zip(its, car)), types,
        "" if ty == "index" else " : " + ty))
    s = self.inner(d, [(ty, None, iv)] + [(t, sh, a) for a, (_, t, sh) in zip(its, car)])
    self.put("scf.yield %s : %s" % (", ".join(self.some(t, sh, a) for a, (_, t, sh) in zip(its, car)), types))
    self.restore(s)
    self.ind -= 1
    at = [x for x in ("lower = %d : index" % lo, "upper = %d : index" % hi) if r.random() < 0.93]
    self.put("}" + (" {%s}" % ", ".join(at) if at else ""))
    self.outer(car, names)

  def do_afor(self, d):
    r = self.r
    car = self.carried()
    lhs, names = self.results(car, "for")
    iv = "%%i%d" % self.n
    its = ["%%a%d_%d" % (self.n, k) for k in range(len(car))]
    types = ", ".join(t for _, t, _ in car)
    self.put("%s = affine.for %s = 0 to %d step %d iter_args(%s) -> (%s) {" % (
        lhs, iv, r.randint(1, 6), r.choice([1, 2]), ", ".join("%s = %s" % (a, v) for a, (v, _, _) in zip(its, car)), types))
    s = self.inner(d, [("index", None, iv)] + [(t, sh, a) for a, (_, t, sh) in zip(its, car)])
    self.put("affine.yield %s : %s" % (", ".join(self.some(t, sh, a) for a, (_, t, sh) in zip(its, car)), types))
    self.restore(s)
    self.ind -= 1
    self.put("}")
    self.outer(car, names)

  def do_while(self, d):
    """Counts up to a bound of at most max_iter, or stops earlier."""
    r = self.r
    most = r.choice([2, 4, 8])
    b = self.bound(0, most)
    car = [(self.c(0, "index"), "index", None)] + self.carried(0)
    lhs, names = self.results(car, "while")
    q = self.n
    bef = ["%%b%d_%d" % (q, k) for k in range(len(car))]
    # What the condition passes on: the arguments in order, or (rarely) something else.
    out, odd = list(range(len(car))), r.random() < self.o.get("odd", 0.1)
    self.put("%s = scf.while (%s) : (%s) -> (%s) {" % (lhs, ", ".join("%s = %s" % (a, v) for a, (v, _, _) in zip(bef, car)),
                                                     ", ".join(t for _, t, _ in car), "\0"))
    head = len(self.lines) - 1
    s = self.scope()
    self.ind += 1
    for a, (_, t, sh) in zip(bef[1:], car[1:]):
      self.pool(t, sh, a)
    c = self.op("arith.cmpi slt, %s, %s : index" % (bef[0], b), [])
    if r.random() < 0.4:
      self.body(r.randint(0, 2), 9)
      c = self.op("arith.andi %s, %s : i1" % (c, self.cond()), [])
    typ = [(t, sh) for _, t, sh in car]
    pas = list(bef)
    if odd:
      k = r.randrange(4)
      if k == 0 and len(car) > 1:  # permuted among equal types
        for i in range(1, len(car)):
          for j in range(i):
            if typ[i] == typ[j]:
              pas[i], pas[j] = pas[j], pas[i]
      elif k == 1:  # a value computed before the condition
        for i in range(1, len(car)):
          pas[i] = self.some(*typ[i])
      elif k == 2 and len(car) > 1:  # one more
        pas.append(pas[-1])
        typ.append(typ[-1])
      elif len(car) > 1:
        pas.pop()
        typ.pop()
    ts = ", ".join(t for t, _ in typ)
    if odd and self.boo and r.random() < 0.3:
      c = r.choice(s[2] or [c])
    self.put("scf.condition(%s) %s : %s" % (c, ", ".join(pas), ts))
    self.restore(s)
    self.ind -= 1
    self.put("} do {")
    aft = ["%%d%d_%d" % (q, k) for k in range(len(pas))]
    self.put("^bb0(%s):" % ", ".join("%s: %s" % (a, t) for a, (t, _) in zip(aft, typ)))
    s = self.inner(d, [(t, sh, a) for a, (t, sh) in zip(aft, typ)])
    nx = self.op("arith.addi %s, %s : index" % (aft[0], self.c(1, "index")), [])
    ys = [nx] + [self.some(t, sh, v if v in aft else None) for v, t, sh in car[1:]]
    self.put("scf.yield %s : %s" % (", ".join(ys), ", ".join(t for _, t, _ in car)))
    self.restore(s)
    self.ind -= 1
    self.put("}" + (" attributes {max_iter = %d : i64}" % most if r.random() < 0.93 else ""))
    self.lines[head] = self.lines[head].replace("\0", ts).replace(lhs + " =", (self.lhs(q, len(pas))[0]) + " =", 1)
    names = self.lhs(q, len(pas))[1]
    for (t, sh), v in zip(typ, names):
      self.pool(t, sh, v)

  def lhs(self, q, k):
    n = "%%v%d" % q
    return (n, [n]) if k == 1 else ("%s:%d" % (n, k), ["%s#%d" % (n, i) for i in range(k)])

  def text(self, name):
    r = self.r
    args = []
    for i in range(r.randint(1, 4)):
      args.append(("%%a%d" % i, self.T, self.vals))
    for i in range(r.randint(0, 2)):
      args.append(("%%i%d" % i, "index", self.idx))
    for i in range(r.randint(0, 2)):
      s = r.choice([(1,), (2,), (4,), (8,), (4,), (2, 4)])
      args.append(("%%t%d" % i, self.ttype(s), (s,)))
    p = self.o.get("secret", 0.6)
    sig = []
    for a, t, pool in args:
      if isinstance(pool, tuple):
        self.ten.append((a, pool[0]))
      else:
        pool.append(a)
      sig.append("%s: %s%s" % (a, t, " {secret.secret}" if r.random() < p else ""))
    self.body(r.randint(*self.o.get("len", (2, 9))), 0)
    rets = [(self.val(), self.T) for _ in range(r.randint(1, 2))]
    if self.ten and r.random() < 0.4:
      t, s = self.ten[-1]
      rets.append((t, self.ttype(s)))
    self.put("return %s : %s" % (", ".join(x[0] for x in rets), ", ".join(x[1] for x in rets)))
    cs = ["    %s = arith.constant %d : %s" % (n, v, t) for (v, t), n in self.consts.items()]
    return ["  func.func @%s(%s) -> (%s) {" % (name, ", ".join(sig), ", ".join(t for _, t in rets))] + cs + self.lines + ["  }"]


def module(rng, opts):
  out = ["module {"]
  for k in range(opts.get("nfun", 1)):
    out += Fn(rng, opts).text("f%d" % k)
  return out + ["}"]
