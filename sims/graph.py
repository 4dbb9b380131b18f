"""Simulation of lib/Utils/Graph/Graph.h (C22): histories of mutations and queries over
several graphs, vertices placed by a seeded allocator, against a plain reference model."""
import os
import random
import subprocess

from dst import simple, world
from dst.world import h64

BIN = None


def prepare(scratch):
  global BIN
  BIN = os.path.join(os.path.dirname(scratch), "bin", "graph_sim")


class R:

  def __init__(self):
    self.fired, self.probes, self.clock_us = {}, {}, 0


Q = ["has", "cont", "edges", "out", "in", "deg", "verts", "empty", "scc", "topo", "levels", "src", "sink", "sp", "spw", "crit", "longest"]


def generate(seed):
  rng = random.Random(h64("graph", seed))
  ops = []
  nv = rng.choice([3, 5, 8, 12])
  shape = rng.choice(["any", "any", "dag", "dag", "dag", "tree"])
  und = rng.random() < 0.2
  v = lambda: rng.randrange(nv)
  density = rng.choice([0.3, 0.6, 0.9])
  for _ in range(rng.choice([10, 20, 40, 60])):
    if und:
      g = rng.randrange(2)
      r = rng.random()
      if r < 0.25:
        ops.append(["uaddv", g, v()])
      elif r < 0.7:
        a, b = v(), v()
        if a != b:
          ops.append(["uadde", g, a, b])
      elif r < 0.85:
        ops.append(["color", g])
      else:
        k = rng.choice(["uhas", "uin", "ucont", "uempty", "uverts"])
        ops.append([k, g] + {"uhas": [v(), v()], "uin": [v()], "ucont": [v()]}.get(k, []))
      continue
    g = rng.choice([0, 0, 0, 1])
    r = rng.random()
    if r < 0.2:
      ops.append(["addv", g, v()])
    elif r < 0.2 + 0.45 * density:
      a, b = v(), v()
      if shape != "any" and a > b:
        a, b = b, a
      if shape == "tree":
        a = b // 2
      if a == b and rng.random() < 0.9:
        continue
      ops.append(["adde", g, a, b] if rng.random() < 0.7 else ["addw", g, a, b, rng.randint(1, 9)])
    elif r < 0.68:
      ops.append(["contract", g, v(), v(), rng.randrange(4)])
    elif r < 0.70:
      ops.append(["condense", g, rng.randrange(4)])
    elif r < 0.71:
      ops.append(["copy", 0, 1])
    elif r < 0.715:
      ops.append(["clear", g])
    else:
      k = rng.choice(Q)
      ops.append([k, g] + {"has": [v(), v()], "cont": [v()], "out": [v()], "in": [v()], "deg": [v()], "sp": [v(), v()], "spw": [v(), v(), rng.randrange(9)]}.get(k, []))
  if rng.random() < 0.7:  # most graphs start with their vertices
    ops = [["uaddv" if und else "addv", g, i] for g in range(2) for i in range(nv) if rng.random() < 0.95] + ops
  return {"ops": ops, "kind": rng.choice(["int", "ptr", "ptr"]), "alloc": rng.randrange(1, 1 << 40), "reuse": rng.choice([0, 50, 95]), "simple": {"reuse": 50}}


class G:

  def __init__(self):
    self.v, self.e = set(), set()

  def copy(self):
    g = G()
    g.v, g.e = set(self.v), set(self.e)
    return g

  def out(self, a):
    return {y for x, y in self.e if x == a}

  def into(self, a):
    return {x for x, y in self.e if y == a}

  def reach(self, a):
    seen, todo = {a}, [a]
    while todo:
      for y in self.out(todo.pop()):
        if y not in seen:
          seen.add(y)
          todo.append(y)
    return seen

  def sccs(self):
    r = {a: self.reach(a) for a in self.v}
    out = set()
    for a in self.v:
      out.add(frozenset(b for b in r[a] if a in r[b]))
    return out

  def cyclic(self):
    return any(a == b for a, b in self.e) or any(len(c) > 1 for c in self.sccs())

  def longest(self):
    """number of vertices on the longest path (acyclic)"""
    memo = {}

    def f(a):
      if a not in memo:
        memo[a] = 1 + max([f(b) for b in self.out(a)], default=0)
      return memo[a]
    return max([f(a) for a in self.v], default=0)

  def dist(self, a, w):
    d = {a: 0}
    todo = {a}
    while todo:
      x = min(todo, key=lambda t: d[t])
      todo.discard(x)
      for y in self.out(x):
        n = d[x] + w(x, y)
        if n < d.get(y, 1 << 60):
          d[y] = n
          todo.add(y)
    return d

  def contract(self, s, t):
    if s == t or (s, t) not in self.e:
      return False
    for y in self.out(t):
      if y not in (s, t):
        self.e.add((s, y))
    for x in self.into(t):
      if x not in (s, t):
        self.e.add((x, s))
    self.e = {(x, y) for x, y in self.e if t not in (x, y)}
    self.v.discard(t)
    return True


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = R()
  text = "\n".join(" ".join(str(x) for x in o) for o in plan["ops"]) + "\n"
  p = subprocess.run(["/usr/bin/setarch", "-R", BIN, plan["kind"], str(plan["alloc"]), str(plan["reuse"])], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
  lines = p.stdout.split("\n")
  gs, us = {0: G(), 1: G()}, {0: G(), 1: G()}
  for i, o in enumerate(plan["ops"]):
    c.ops += 1
    if i >= len(lines) - 1:
      c.add("C22", "crash", o[0], "%s: the operation did not finish (exit %s) after %s" % (o, p.returncode, plan["ops"][max(0, i - 4):i]))
      break
    c.note(o, lines[i])
    bad = check(c, o, lines[i].rstrip("\r"), gs, us)
    c.state(o[0], lines[i][:40])
    if bad:
      c.add("C22", bad[0], o[0], "%s answered %r: %s" % (o, lines[i][:200], bad[1]))
      break
  else:
    tail = lines[len(plan["ops"])].split() if len(lines) > len(plan["ops"]) else []
    if tail[:1] == ["end"]:
      r.fired["freed_block_reused"] = int(tail[1])
      r.fired["fresh_block_placed"] = int(tail[2])
  return c.result(len(plan["ops"]) > 3)


def ints(s):
  return [int(x) for x in s.split(",") if x]


def check(c, o, out, gs, us):
  k = o[0]
  if k.startswith("u") or k == "color":
    u = us[o[1]]
    if k == "uaddv":
      u.v.add(o[2])
    elif k == "uadde":
      ok = o[2] in u.v and o[3] in u.v
      if ok:
        u.e |= {(o[2], o[3]), (o[3], o[2])}
      if out != "01"[ok]:
        return "wrong-answer", "expected %s" % ok
    elif k == "uhas":
      if out != "01"[(o[2], o[3]) in u.e]:
        return "wrong-answer", "edges %s" % sorted(u.e)
    elif k == "uin":
      if ints(out) != sorted(u.out(o[2])):
        return "wrong-answer", "expected %s" % sorted(u.out(o[2]))
    elif k == "ucont":
      if out != "01"[o[2] in u.v]:
        return "wrong-answer", "vertices %s" % sorted(u.v)
    elif k == "uempty":
      if out != "01"[not u.v]:
        return "wrong-answer", "vertices %s" % sorted(u.v)
    elif k == "uverts":
      if ints(out) != sorted(u.v):
        return "wrong-answer", "expected %s" % sorted(u.v)
    elif k == "color":
      a, b = out.split("|")
      col = dict((int(x.split(":")[0]), int(x.split(":")[1])) for x in a.split(",") if x)
      fresh = dict((int(x.split(":")[0]), int(x.split(":")[1])) for x in b.split(",") if x)
      if set(col) != u.v:
        return "wrong-coloring", "colors %s, vertices %s" % (sorted(col), sorted(u.v))
      clash = [(x, y) for x, y in u.e if col[x] == col[y]]
      if clash:
        return "wrong-coloring", "neighbours %s have one color" % (clash[0],)
      n = max(col.values(), default=-1) + 1
      deg = max([len(u.out(x)) for x in u.v], default=0)
      if n > deg + 1:
        return "wrong-coloring", "%d colors for degree %d" % (n, deg)
      if set(col.values()) != set(range(n)):
        return "wrong-coloring", "colors %s are not contiguous" % sorted(set(col.values()))
      if n > 2 and bipartite(u):
        return "wrong-coloring", "%d colors for a bipartite graph" % n
      if col != fresh:
        return "history-dependent", "a fresh coloring object gives %s" % fresh
    return None
  g = gs[o[1]]
  if k == "addv":
    g.v.add(o[2])
  elif k == "copy":
    gs[o[2]] = g.copy()
  elif k == "clear":
    gs[o[1]] = G()
  elif k in ("adde", "addw"):
    ok = o[2] in g.v and o[3] in g.v
    if ok:
      g.e.add((o[2], o[3]))
    if out != "01"[ok]:
      return "wrong-answer", "expected %s" % ok
  elif k == "has":
    if out != "01"[(o[2], o[3]) in g.e]:
      return "wrong-answer", "edges %s" % sorted(g.e)
  elif k == "cont":
    if out != "01"[o[2] in g.v]:
      return "wrong-answer", "vertices %s" % sorted(g.v)
  elif k == "empty":
    if out != "01"[not g.v]:
      return "wrong-answer", "vertices %s" % sorted(g.v)
  elif k in ("verts", "out", "in", "src", "sink"):
    want = {"verts": lambda: g.v, "out": lambda: g.out(o[2]), "in": lambda: g.into(o[2]), "src": lambda: {x for x in g.v if not g.into(x)},
            "sink": lambda: {x for x in g.v if not g.out(x)}}[k]()
    if ints(out) != sorted(want):
      return "wrong-answer", "expected %s" % sorted(want)
  elif k == "edges":
    if out != ",".join("%d>%d" % e for e in sorted(g.e)):
      return "wrong-answer", "expected %s" % sorted(g.e)
  elif k == "deg":
    if out != "%d,%d" % (len(g.into(o[2])), len(g.out(o[2]))):
      return "wrong-answer", "edges %s" % sorted(g.e)
  elif k == "contract":
    ok = g.contract(o[2], o[3])
    merged = out[2:].split()
    if out[0] != "01"[ok]:
      return "wrong-answer", "expected %s" % ok
    if merged != (["%d+%d" % (o[2], o[3])] if ok and o[4] else []):
      return "wrong-merge", "merges %s" % merged
  elif k == "condense":
    comps = g.sccs()
    out, left = out.split("|")
    left = set(ints(left))
    merged = [tuple(int(y) for y in x.split("+")) for x in out.split()]
    rep = {}
    for s, t in merged:
      for comp in comps:
        if s in comp and t in comp:
          break
      else:
        return "wrong-merge", "%d and %d are not in one component" % (s, t)
      if t in rep or s in rep:
        return "wrong-merge", "vertex of merge %d+%d was merged away before" % (s, t)
      rep[t] = s
    if not o[2]:  # no functor to tell
      rep = {x: 0 for x in g.v - left}
    for comp in comps:
      if len(comp & left) != 1 or (comp - left) != {x for x in comp if x in rep}:
        return "wrong-merge", "component %s keeps %s, merges %s" % (sorted(comp), sorted(comp & left), merged)
    if left - g.v:
      return "wrong-answer", "unknown vertices"
    condensed(g, comps, rep)
  elif k == "scc":
    want = sorted(",".join(map(str, sorted(x))) for x in g.sccs())
    if out.split("|")[0] != str(len(want)) or sorted(out.split("|")[1:]) != want:
      return "wrong-answer", "expected %s" % want
  elif k == "topo":
    if g.cyclic():
      return None if out == "fail" else ("wrong-answer", "the graph has a cycle")
    if not out.startswith("ok"):
      return "wrong-answer", "the graph is acyclic: %s" % sorted(g.e)
    order = ints(out[3:])
    if sorted(order) != sorted(g.v):
      return "wrong-order", "vertices %s" % sorted(g.v)
    pos = {x: i for i, x in enumerate(order)}
    bad = [e for e in g.e if pos[e[0]] >= pos[e[1]]]
    if bad:
      return "wrong-order", "edge %s" % (bad[0],)
  elif k == "levels":
    if g.cyclic():
      return None if out == "fail" else ("wrong-answer", "the graph has a cycle")
    if not out.startswith("ok"):
      return "wrong-answer", "the graph is acyclic: %s" % sorted(g.e)
    lv = [ints(x) for x in out[3:].split("|")[:-1]]
    if sorted(x for l in lv for x in l) != sorted(g.v):
      return "wrong-order", "vertices %s" % sorted(g.v)
    pos = {x: i for i, l in enumerate(lv) for x in l}
    bad = [e for e in g.e if pos[e[0]] >= pos[e[1]]]
    if bad:
      return "wrong-order", "edge %s" % (bad[0],)
    if g.v and len(lv) != g.longest():
      return "wrong-order", "%d levels for a longest path of %d" % (len(lv), g.longest())
  elif k in ("sp", "spw"):
    w = (lambda x, y: 1) if k == "sp" else (lambda x, y: 1 + (x * 7 + y * 13 + o[4]) % 9)
    if o[2] not in g.v or o[3] not in g.v:
      return None
    d = g.dist(o[2], w)
    if o[3] not in d:
      return None if out == "fail" else ("wrong-path", "%d is not reachable" % o[3])
    if not out.startswith("ok"):
      return "wrong-path", "%d is reachable at distance %d" % (o[3], d[o[3]])
    path = ints(out[3:])
    if path[0] != o[2] or path[-1] != o[3] or any(e not in g.e for e in zip(path, path[1:])):
      return "wrong-path", "not a path of %s" % sorted(g.e)
    if sum(w(*e) for e in zip(path, path[1:])) != d[o[3]]:
      return "wrong-path", "length %d, shortest %d" % (sum(w(*e) for e in zip(path, path[1:])), d[o[3]])
  elif k == "longest":
    if out == "?":
      return None
    src, sink = [x for x in g.v if not g.into(x)], [x for x in g.v if not g.out(x)]
    best = max([d[t] + 1 for s in src for d in [g.dist(s, lambda x, y: 1)] for t in sink if t != s and t in d], default=0)
    if not out.startswith("ok"):
      return "wrong-path", "failed"
    path = ints(out[3:])
    if len(path) != best:
      return "wrong-path", "%d vertices, expected %d" % (len(path), best)
    if path and (path[0] not in src or path[-1] not in sink or any(e not in g.e for e in zip(path, path[1:]))):
      return "wrong-path", "not a source-to-sink path of %s" % sorted(g.e)
  elif k == "crit":
    if g.cyclic():
      return None if out == "fail" else ("wrong-answer", "the graph has a cycle")
    if not out.startswith("ok"):
      return "wrong-answer", "failed on an acyclic graph: %s" % sorted(g.e)
    path = ints(out[3:])
    if len(set(path)) != len(path) or not set(path) <= g.v:
      return "wrong-path", "vertices %s" % sorted(g.v)
    pos = {x: i for i, x in enumerate(path)}
    if any(x in pos and y in pos and pos[x] >= pos[y] for x, y in g.e):
      return "wrong-order", "edges %s" % sorted(g.e)
    inner = {x for x in g.v if g.into(x) and g.out(x)}
    if len(g.v) >= 3 and (set(path[:-1]) != inner or g.out(path[-1])):
      return "wrong-path", "interior vertices %s" % sorted(inner)
  return None


def condensed(g, comps, rep):
  who = {}
  for comp in comps:
    keep = [x for x in comp if x not in rep][0]
    for x in comp:
      who[x] = keep
  g.v = set(who.values())
  g.e = {(who[a], who[b]) for a, b in g.e if who[a] != who[b]}


def bipartite(u):
  col = {}
  for s in u.v:
    if s in col:
      continue
    col[s] = 0
    todo = [s]
    while todo:
      x = todo.pop()
      for y in u.out(x):
        if y not in col:
          col[y] = 1 - col[x]
          todo.append(y)
        elif col[y] == col[x]:
          return False
  return True
