"""Simulation of the kernel DAG visitors (C23): histories of building, evaluating and
dropping kernels with long-lived visitors under a seeded, reusing allocator."""
import os
import random
import subprocess

from dst import simple
from dst.world import h64

BIN = None


def prepare(scratch):
  global BIN
  BIN = os.path.join(os.path.dirname(scratch), "bin", "dag_sim")


class R:

  def __init__(self):
    self.fired, self.probes, self.clock_us = {}, {}, 0


# ---- generation: a definition is [slot, kind, ...]; types: i scalar, v vector of 4, m 4x4 matrix
class Gen:

  def __init__(self, rng, space):
    self.rng, self.space, self.n = rng, space, 0
    self.ty = {}

  def new(self, t):
    self.n += 1
    self.ty[self.n] = t
    return self.n

  def pick(self, t, live):
    c = [s for s in live if self.ty[s] == t]
    # recent ones more often, so that kernels grow deep
    return self.rng.choice(c[-6:] if self.rng.random() < 0.7 else c) if c else None

  def leaf(self, live, t=None):
    rng, sp = self.rng, self.space
    t = t or ("v" if sp == "s" else "i" if sp == "d" else rng.choice("iivvm"))
    d = self.new(t)
    live.append(d)
    if sp == "d":
      return [d, rng.choice(["leaf", "leaf", "const"]), rng.choice([-2, -1, 0, 1, 2, 3, 0.5])]
    if sp == "s":
      return [d, "leaf", int(rng.random() < 0.7)] if t == "v" else [d, "const", rng.randint(0, 3)]
    if t == "i":
      return [d, "const", rng.randint(0, 3)] if rng.random() < 0.5 else [d, "leaf", 0, rng.randint(-3, 3)]
    if t == "v":
      return rng.choice([[d, "leaf", 1, 4] + [rng.randint(-3, 3) for _ in range(4)], [d, "cvec"] + [rng.randint(-3, 3) for _ in range(4)], [d, "splat", rng.randint(-2, 2), 1]])
    return [d, "leaf", 2, 4, 4] + [rng.randint(-2, 2) for _ in range(16)]

  def small(self, live, out):
    """a slot holding a constant in 0..3, usable as an index"""
    d = self.new("k")
    out.append([d, "const", self.rng.randint(0, 3)])
    return d

  def defs(self, live, out, depth, ivs=()):
    """append one definition to out"""
    rng, sp = self.rng, self.space
    t = "i" if sp == "d" else "v" if sp == "s" else rng.choice("ivv")
    a, b = self.pick(t, live), self.pick(t, live)
    if a is None or rng.random() < 0.15:
      out.append(self.leaf(live))
      return
    r = rng.random()
    if depth < 2 and r < 0.14:
      return self.loop(live, out, depth, t)
    idx = lambda: rng.choice(ivs) if ivs and rng.random() < 0.6 else self.small(live, out)
    if sp == "d":
      k = rng.choice(["add", "add", "sub", "mul", "pow", "cmp", "if", "at"])
    elif sp == "s":
      k = rng.choice(["add", "sub", "mul", "rot", "rot", "bulk", "if", "cmp", "fdiv", "pow", "ext", "ins"])
    elif t == "i":
      k = rng.choice(["add", "sub", "mul", "fdiv", "cmp", "if", "ext"])
    else:
      k = rng.choice(["add", "sub", "mul", "rot", "rot", "rotn", "rotn", "ext", "ins", "if"])
    d = None
    if k in ("add", "sub", "mul"):
      d = [0, k, a, b]
    elif k == "fdiv":
      d = [0, k, a, rng.choice([1, 2, 3])]
    elif k == "pow":
      d = [0, k, a, rng.randint(0, 3)]
    elif k == "rot":
      d = [0, k, a, rng.choice([-5, -1, 0, 1, 2, 3, 7])]
    elif k == "rotn":
      d = [0, k, a, idx()]
    elif k == "bulk":
      d = [0, k, a, self.small(live, out), self.small(live, out)]
    elif k == "cmp":
      d = [0, k, a, b, rng.randrange(6)]
    elif k == "if":
      c = self.pick("i", live) if sp != "s" else b
      if c is None:
        return out.append(self.leaf(live, "i"))
      d = [0, k, c, a, b]
    elif k == "at":
      d = [0, k, a, 0]
    elif k == "ext":
      if sp == "s":
        d = [0, k, a, self.small(live, out)]
      else:
        src = self.pick("v" if t == "i" else "m", live)
        if src is None:
          return out.append(self.leaf(live, "v" if t == "i" else "m"))
        d = [0, k, src, idx()]
    elif k == "ins":
      if sp == "s":
        d = [0, k, a, b, self.small(live, out)]
      else:
        s = self.pick("i", live)
        if s is None:
          return out.append(self.leaf(live, "i"))
        d = [0, k, s, a, idx()]
    d[0] = self.new(t)
    live.append(d[0])
    out.append(d)

  def loop(self, live, out, depth, t):
    rng = self.rng
    cnt = rng.choice([1, 1, 2])
    inits = [self.pick(t, live) for _ in range(cnt)]
    iv = self.new("i" if self.space == "d" else "k")
    args = [self.new(t) for _ in range(cnt)]
    lo = rng.choice([0, 0, 1])
    hi = lo + rng.choice([0, 1, 2, 3])
    st = rng.choice([1, 1, 2, 3])
    if self.space == "s":
      hi = lo + rng.choice([0, 1, 2, 5])
      inner = [s for s in live if self.leaves.get(s)] + args
    else:
      inner = list(live) + args * 2 + ([iv] if self.space == "d" else [])
    body = []
    for _ in range(rng.randint(1, 5)):
      self.defs(inner, body, depth + 1, [] if self.space != "l" or hi > 4 else [iv])
    ys = [self.pick(t, [s for s in inner if s not in live or s in args] or inner) for _ in range(cnt)]
    d = self.new(t if cnt == 1 else "y" + t)
    out.append([d, "loop", lo, hi, st, int(t == "v"), iv, [list(x) for x in zip(inits, args)], body, ys])
    if cnt == 1:
      live.append(d)
    else:
      for i in range(cnt):
        e = self.new(t)
        out.append([e, "at", d, i])
        live.append(e)

  leaves = {}


def generate(seed):
  rng = random.Random(h64("dag", seed))
  space = rng.choice("llllddss")
  g = Gen(rng, space)
  g.leaves = {}
  ops, live = [], []
  for i in range(3):
    ops.append(["def"] + g.leaf(live, {"l": "iv", "d": "ii", "s": "vv"}[space][i % 2]))
  vis = {"l": ["eval", "eval", "eval", "reval", "print", "depth", "rots", "many"], "d": ["eval"], "s": ["count"]}[space]
  for _ in range(rng.choice([15, 30, 60])):
    for o in ops:
      if o[0] == "def" and o[2] in ("leaf", "const"):
        g.leaves[o[1]] = 1
    r = rng.random()
    if r < 0.55:
      out = []
      g.defs(live, out, 0)
      ops += [["def"] + x for x in out]
    elif r < 0.85:
      k = rng.choice(vis)
      n = rng.choice(live[-4:] if rng.random() < 0.6 else live)
      if k == "depth" or k == "print":
        pass
      ops.append([k, rng.randrange(3), n] + ([rng.choice(live)] if k == "many" else []))
    elif r < 0.97 and len(live) > 3:
      # drop a kernel: often a recent one, so that its memory is handed out again
      for _ in range(rng.choice([1, 1, 3])):
        if len(live) > 3:
          ops.append(["drop", live.pop(rng.randrange(max(0, len(live) - 5), len(live)))])
    else:
      ops.append(["reset", rng.randrange(3)])
    if not any(g.ty[s] == {"l": "v", "d": "i", "s": "v"}[space] for s in live):
      ops.append(["def"] + g.leaf(live, {"l": "v", "d": "i", "s": "v"}[space]))
  return {"ops": ops, "space": space, "alloc": rng.randrange(1, 1 << 40), "reuse": rng.choice([50, 95, 100]), "simple": {}}


# ---- reference
class Node:
  __slots__ = ("k", "a", "body", "iv", "args", "ys", "v")

  def __init__(self, k, a):
    self.k, self.a = k, a


class Skip(Exception):
  pass


REFS = {"add": (0, 1), "sub": (0, 1), "mul": (0, 1), "fdiv": (0,), "pow": (0,), "rot": (0,), "rotn": (0, 1), "bulk": (0, 1, 2), "ext": (0, 1),
        "ins": (0, 1, 2), "cmp": (0, 1), "if": (0, 1, 2), "at": (0,)}


def make(d, slots):
  """definition -> Node (raises KeyError when a reference is missing)"""
  k, a = d[1], list(d[2:])
  if k == "loop":
    lo, hi, st, vec, iv, ia, body, ys = a
    n = Node("loop", [lo, hi, st] + [slots[i] for i, _ in ia])
    inner = dict(slots)
    n.iv = inner[iv] = Node("var", [])
    n.args = []
    for _, s in ia:
      inner[s] = Node("var", [])
      n.args.append(inner[s])
    for b in body:
      inner[b[0]] = make(b, inner)
    n.ys = [inner[y] for y in ys]
    return n
  n = Node(k, a)
  for i in REFS.get(k, ()):
    n.a[i] = slots[a[i]]
  return n


def text(d, out):
  if d[1] != "loop":
    out.append("def " + " ".join(str(x) for x in d))
    return
  slot, _, lo, hi, st, vec, iv, ia, bd, ys = d
  out.append("def %d loop %d %d %d %d %d %d " % (slot, lo, hi, st, vec, iv, len(ia)) + " ".join("%d %d" % tuple(x) for x in ia))
  for b in bd:
    text(b, out)
  out.append("yield " + " ".join(map(str, ys)) + " " + " ".join(str(b[0]) for b in bd))


def lim(x):
  if abs(x) >= 1 << 31:
    raise Skip
  return x


class Ev:
  """mode: value (eval), shape-preserving (reval, collects shifts), double"""

  def __init__(self, mode):
    self.mode, self.shifts = mode, set()
    self.budget = 20000

  def one(self, n):
    return self.ev(n)[0]

  def ev(self, n):
    self.budget -= 1
    if self.budget < 0:
      raise Skip
    k, a = n.k, n.a
    m = self.mode
    if k == "leaf" or k == "const" or k == "cvec" or k == "splat":
      if m == "d" or k == "const":
        return [a[0] if m == "d" else int(a[0])]
      if k == "cvec":
        return [list(a)]
      if k == "splat":
        return [[a[0]] * 4]
      if a[0] == 0:
        return [a[1]]
      if a[0] == 1:
        return [list(a[2:])]
      return [[list(a[3 + 4 * i:7 + 4 * i]) for i in range(4)]]
    if k in ("add", "sub", "mul"):
      x, y = self.one(a[0]), self.one(a[1])
      f = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q}[k]
      if isinstance(x, list) != isinstance(y, list):
        raise Skip
      if isinstance(x, list):
        return [[lim(f(p, q)) for p, q in zip(x, y)]]
      return [f(x, y) if m == "d" else lim(f(x, y))]
    if k == "fdiv":
      x = self.one(a[0])
      for t in x if isinstance(x, list) else [x]:
        if t < 0:
          raise Skip
      return [[t // a[1] for t in x] if isinstance(x, list) else x // a[1]]
    if k == "pow":
      x = self.one(a[0])
      if abs(x) > 1e60:
        raise Skip
      return [float(x) ** a[1]]
    if k in ("rot", "rotn"):
      x = self.one(a[0])
      s = (a[1] if k == "rot" else self.one(a[1])) % 4
      if m == "r":
        self.shifts.add(s)
        return [x]
      return [[x[(i + s) % 4] for i in range(4)]]
    if k == "ext":
      return [self.one(a[0])[self.idx(a[1])]]
    if k == "ins":
      s, x, i = self.one(a[0]), self.one(a[1]), self.idx(a[2])
      if m == "r":
        return [x]
      x = list(x)
      x[i] = s
      return [x]
    if k == "cmp":
      x, y = self.one(a[0]), self.one(a[1])
      v = int([x < y, x <= y, x > y, x >= y, x == y, x != y][a[2]])
      return [float(v) if m == "d" else v]
    if k == "if":
      return self.ev(a[1] if self.one(a[0]) != 0 else a[2])
    if k == "at":
      return [self.ev(a[0])[a[1]]]
    if k == "var":
      return [n.v]
    if k == "loop":
      vals = [self.one(x) for x in a[3:]]
      for i in range(a[0], a[1], a[2]):
        n.iv.v = float(i) if m == "d" else i
        for p, v in zip(n.args, vals):
          p.v = v
        vals = [self.one(y) for y in n.ys]
      return vals
    raise AssertionError(k)

  def idx(self, n):
    i = self.one(n)
    if not 0 <= i < 4:
      raise Skip
    return i


def count(n):
  seen, sec = set(), {}

  def go(n):
    if id(n) in seen:
      return 0
    seen.add(id(n))
    k, a = n.k, n.a
    if k == "leaf":
      sec[id(n)] = bool(a[0])
      return 0
    if k in ("const", "var"):
      sec[id(n)] = False
      return 0
    if k == "loop":
      c = sum(go(x) for x in a[3:])
      b = sum(go(y) for y in n.ys)
      sec[id(n)] = any(sec[id(x)] for x in a[3:] + n.ys)
      return c + b * len(range(a[0], a[1], a[2]))
    if k in ("rot", "bulk"):
      c = go(a[0])
      s = sec[id(n)] = sec[id(a[0])]
      return c + (s and (1 if k == "rot" else 2))
    if k == "ext":
      c = go(a[0]) + go(a[1])
      sec[id(n)] = sec[id(a[0])]
      return c
    if k == "ins":
      c = sum(go(x) for x in a)
      sec[id(n)] = sec[id(a[0])] or sec[id(a[1])]
      return c
    subs = [a[i] for i in REFS[k]]
    c = sum(go(x) for x in subs)
    sec[id(n)] = any(sec[id(x)] for x in subs)
    return c
  return int(go(n))


def show(vals):
  s = ""
  for v in vals:
    if isinstance(v, list):
      s += "{" + "".join("".join("%d," % x for x in r) + ";" for r in v) + "}" if v and isinstance(v[0], list) else "[" + "".join("%d," % x for x in v) + "]"
    else:
      s += "%d" % v
    s += " "
  return s


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = R()
  sp = plan["space"]
  slots, lines, todo = {}, [], []
  for o in plan["ops"]:
    if o[0] == "def":
      try:
        slots[o[1]] = make(o[1:], slots)
      except KeyError:
        continue
      text(o[1:], lines)
      todo.append((o, None))
    elif o[0] == "drop":
      if slots.pop(o[1], None) is None:
        continue
      lines.append("drop %d" % o[1])
      todo.append((o, None))
    elif o[0] == "reset":
      lines.append("reset %d" % o[1])
      todo.append((o, None))
    else:
      if any(s not in slots for s in o[2:]):
        continue
      ns = [slots[s] for s in o[2:]]
      try:
        if o[0] in ("rots", "reval"):
          e = Ev("r")
          e.ev(ns[0])
          want = "".join("%d," % s for s in sorted(e.shifts)) if o[0] == "rots" else None
        elif o[0] == "count":
          want = str(count(ns[0]))
        elif o[0] in ("eval", "many"):
          want = [Ev(sp).ev(n) for n in ns]
        else:
          want = None
      except Skip:
        continue  # leaves the defined range of the evaluator
      if o[0] == "depth" and uses(ns[0], ("ins", "bulk")) or o[0] == "print" and (uses(ns[0], ("ins", "bulk", "cvec")) or size(ns[0]) > 3000):
        continue
      lines.append(" ".join(str(x) for x in o))
      todo.append((o, want))
  p = subprocess.run(["/usr/bin/setarch", "-R", BIN, sp, str(plan["alloc"]), str(plan["reuse"])], input="\n".join(lines) + "\n", stdout=subprocess.PIPE,
                     stderr=subprocess.PIPE, text=True)
  got = p.stdout.split("\n")
  for i, (o, want) in enumerate(todo):
    c.ops += 1
    if i >= len(got) - 1:
      c.add("C23", "crash", o[0], "%s: the operation did not finish (exit %s)" % (o, p.returncode))
      break
    out = got[i]
    c.note(o[:4], out[:200])
    if o[0] in ("def", "drop", "reset"):
      continue
    c.state(o[0], out[:60])
    if o[0] == "rots":
      if out != want:
        c.add("C23", "wrong-result", "rots", "rotations of kernel %s: {%s}, expected {%s}" % (o[2], out, want))
      continue
    a, b = out.split("|")
    if o[0] == "many":
      x, y = show(want[0]), show(want[1])
      if (a, b) != (x, y):
        c.add("C23", "wrong-result", "many", "multiEvalKernel(%s, %s) gives %s and %s, expected %s and %s" % (o[2], o[3], a, b, x, y))
      continue
    if a != b:
      c.add("C23", "depends-on-history", o[0], "%s of kernel %s with visitor %d gives %s; a fresh visitor gives %s%s" % (
          o[0], o[2], o[1], a[:120], b[:120], ", correct is %s" % (want,) if want is not None else ""))
      break
    if want is None:
      continue
    if sp == "d":
      g = [float(x) for x in a.split()]
      ok = len(g) == len(want[0]) and all(x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y)) or (x != x and y != y) or abs(y) > 1e200 for x, y in zip(g, want[0]))
    elif sp == "s":
      ok = a == want
    else:
      ok = a == show(want[0])
    if not ok:
      c.add("C23", "wrong-result", o[0] + "-" + sp, "%s of kernel %s gives %s, expected %s" % (o[0], o[2], a, want))
      break
  else:
    tail = got[len(todo)].split() if len(got) > len(todo) else []
    if tail[:1] == ["end"]:
      r.fired["freed_block_reused"] = int(tail[1])
      r.fired["fresh_block_placed"] = int(tail[2])
  return c.result(len(todo) > 5)


def kids(n):
  if n.k == "loop":
    return n.a[3:] + n.ys
  return [n.a[i] for i in REFS.get(n.k, ())]


def uses(n, kinds, seen=None):
  """whether the kernel has a node of one of these kinds (not every visitor knows all of them)"""
  seen = seen if seen is not None else set()
  if id(n) in seen:
    return False
  seen.add(id(n))
  return n.k in kinds or any(uses(x, kinds, seen) for x in kids(n))


def size(n, memo=None):
  memo = memo if memo is not None else {}
  if id(n) not in memo:
    memo[id(n)] = 1 + sum(size(x, memo) for x in kids(n))
  return memo[id(n)]
