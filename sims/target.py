"""Simulation of the backend registry (C25): one compiler process in which backends are
registered at a seeded point of the history, and modules with their own backend and overrides
are resolved, validated, overridden, annotated and cloned, from one or several simulated
threads.  A small model of the described backends, of each module's attributes and of the
override rules predicts every answer."""
import os
import random
import re

from dst import simple
from dst.world import h64
from sims import mlirsrv

DESC = None  # (class defaults, {backend name: fields})


class R:

  def __init__(self):
    self.fired, self.probes, self.clock_us = {}, {}, 0


def describe():
  """The described backends, from the descriptions themselves."""
  rd = lambda p: re.sub(r"//[^\n]*|/\*.*?\*/", "", open("/repo/" + p).read(), flags=re.S)
  t = rd("lib/Target/CompilationTarget/HEIRTarget.td")
  body = re.search(r"class\s+CompilationTarget\s*<[^>]*>\s*\{(.*?)\n\}", t, re.S).group(1)
  dflt = {m.group(1): int(m.group(2), 0) for m in re.finditer(r"\bint\s+(\w+)\s*=\s*(-?\w+)\s*;", body)}
  out = {}
  for inc in re.findall(r'include\s+"([^"]+)"', rd("lib/Target/CompilationTarget/AllTargets.td")):
    for m in re.finditer(r'def\s+\w+\s*:\s*CompilationTarget\s*<\s*"([^"]*)"\s*>\s*(;|\{(.*?)\n\})', rd(inc), re.S):
      f = dict(dflt)
      for x in re.finditer(r"\blet\s+(\w+)\s*=\s*(-?\w+)\s*;", m.group(3) or ""):
        f[x.group(1)] = int(x.group(2), 0)
      out[m.group(1)] = f
  return dflt, out


def prepare(scratch):
  global DESC
  DESC = describe()
  mlirsrv.prepare(scratch)


BAD = ["Lattigo", "OPENFHE", "", "lattig", "openfhe2", "none", "None", "heracles", "lattigo ", "fhe"]
KEYS = ["bootstrapLevelsConsumed", "has_kernel_chebyshev", "has_kernel_linear_transform"]
BADKEYS = ["bootstrap_levels_consumed", "backendName", "has_kernel_", "BootstrapLevelsConsumed", "bootstrapLevelsConsumed2", "x", "has_kernel_chebyshe"]
SCHEMES = ["bgv", "bfv", "ckks", "cggi"]


def key(rng):
  return rng.choice(BADKEYS) if rng.random() < 0.15 else rng.choice(KEYS)


def num(rng):
  return rng.choice([0, 1, 2, 3, 12, 18, 21, 37, -1, -8, 100, 4096, 1 << 33, (1 << 63) - 1, -(1 << 63), rng.randrange(1, 60)])


def attr(rng):
  """-> (text, int or None)"""
  if rng.random() < 0.15:
    return rng.choice([('"5"', None), ("1.5 : f32", None), ("[1 : i64]", None), ("unit", None), ("{a = 1 : i64}", None), ("i32", None)])
  n = num(rng)
  w = rng.choice(["i64", "i64", "i32", "index", "i8"])
  if w == "i8":
    n = n % 100
  if w == "i32":
    n %= 1 << 30
  return "%d : %s" % (n, w), n


def text(rng):
  """-> (text of a value on the command line, int or None)"""
  if rng.random() < 0.2:
    return rng.choice([("abc", None), ("1x", None), ("99999999999999999999", None), ("1.5", None), ("0x10", None), ("--3", None)])
  n = num(rng)
  return ("0" + str(n) if n > 0 and rng.random() < 0.1 else str(n)), n


def names():
  return sorted(DESC[1])


def module(rng):
  """-> lines; one attribute per line"""
  a = []
  x = rng.random()
  if x < 0.75:
    a.append("backend." + rng.choice(names()))
  elif x < 0.83:
    a.append("backend." + rng.choice(["foo", "lattig", "zzz", "openfhe_x"]))
  if rng.random() < 0.1:
    for n in names():
      if "backend." + n not in a:
        a.append("backend.%s = %s" % (n, rng.choice(["1 : i64", "true", '"yes"'])))
        break
  if rng.random() < 0.5:
    d, seen = [], set()
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
      k = key(rng)
      if k not in seen:
        seen.add(k)
        d.append("%s = %s" % (k, attr(rng)[0]))
    a.append("backend.config_override = {%s}" % ", ".join(d))
  if rng.random() < 0.4:
    a.append(rng.choice(["scheme." + rng.choice(SCHEMES), "other.lattigo", "a.b = 3 : i64", "backendx.openfhe"]))
  rng.shuffle(a)
  return a


def generate(seed):
  rng = random.Random(h64("target", seed))
  nm = rng.choice([1, 2, 3, 4])
  mods = [module(rng) for _ in range(nm)]
  nctx = rng.randint(1, nm)
  ctx = [rng.randrange(nctx) for _ in mods]

  def op(i):
    x = rng.random()
    if x < 0.13:
      return ["get", rng.choice(names()) if rng.random() < 0.7 else rng.choice(BAD)]
    if x < 0.2:
      return ["name", rng.choice(names()) if rng.random() < 0.7 else rng.choice(BAD)]
    if x < 0.24:
      return ["is", i]
    if x < 0.29:
      return ["reparse", i]
    if x < 0.5:
      return ["cfg", i]
    if x < 0.62:
      return ["validate", i, key(rng), attr(rng)[0]]
    if x < 0.75:
      return ["persist", i, key(rng), attr(rng)[0]]
    if x < 0.82:
      return ["value", ctx[i], key(rng), text(rng)[0]]
    if x < 0.9:
      kv = ["%s=%s" % (key(rng), text(rng)[0]) for _ in range(rng.choice([1, 1, 2, 3]))]
      if rng.random() < 0.05:
        kv[rng.randrange(len(kv))] = rng.choice(["x", KEYS[0]])
      return ["override", i, kv]
    return ["annotate", i, rng.choice(["", "", rng.choice(SCHEMES)]), rng.choice(names()) if rng.random() < 0.85 else rng.choice([b for b in BAD if b and " " not in b])]

  ops = [["parse", i] for i in range(nm)]
  ops += [op(rng.randrange(nm)) for _ in range(rng.choice([0, 0, 1, 4]))]
  x = rng.random()
  if x < 0.8:
    ops.append(["register"])
  elif x < 0.95:
    ops.append(["registerone", rng.choice(names())])
  for _ in range(rng.randint(2, 12)):
    if rng.random() < 0.3:
      lists = [[op(i) for _ in range(rng.randint(1, 4))] for i in range(nm)]
      ops.append(["par", lists])
    elif rng.random() < 0.06:
      ops.append(["parse", rng.randrange(nm)])
    else:
      ops.append(op(rng.randrange(nm)))
  thr = rng.choice([0, 2, 3, 4])
  return {"mods": mods, "ctx": ctx, "ops": ops, "dup": rng.random() < 0.1, "alloc": rng.randrange(1, 1 << 30), "schedseed": rng.randrange(1, 1 << 30),
          "threads": thr, "weights": [rng.choice([1, 1, 10, 100]) for _ in range(thr + 1)], "preempt": rng.choice([0, 1000, 30000, 200000]),
          "simple": {"threads": 0, "preempt": 0, "dup": False}}


def intval(t):
  m = re.match(r"(-?\d+) : (?:i\d+|index)$", t)
  return int(m.group(1)) if m else None


def parsed(t):
  """Value on the command line -> int or None."""
  if not re.match(r"-?[0-9]+$", t):
    return None
  n = int(t)
  return n if -(1 << 63) <= n < 1 << 63 else None


class Model:

  def __init__(self, plan):
    self.plan, self.reg, self.mods = plan, {}, {}

  def parse(self, i):
    m = {"unit": [], "other": {}, "over": None, "scheme": None}
    for a in self.plan["mods"][i]:
      n, eq, v = a.partition(" = ")
      if n == "backend.config_override":
        m["over"] = dict(x.split(" = ", 1) for x in re.split(r", (?=\w+ = )", v.strip("{}")) if x)
      elif n.startswith("backend.") and not eq:
        m["unit"].append(n[8:])
      elif n.startswith("scheme."):
        m["scheme"] = n[7:]
      elif n.startswith("backend."):
        m["other"][n[8:]] = v
    self.mods[i] = m

  def resolve(self, i):
    m = self.mods.get(i)
    if not m["unit"] or m["unit"][0] not in DESC[1] or m["unit"][0] not in self.reg:
      return None
    f = dict(self.reg[m["unit"][0]], backend=m["unit"][0])
    for k, v in (m["over"] or {}).items():
      if k not in KEYS or intval(v) is None:
        return None
      f[k] = intval(v)
    return f

  def expect(self, o):
    """-> (ok or None, cfg or None, out or None); changes the model."""
    k = o[0]
    if k == "get":
      return o[1] in self.reg, self.reg.get(o[1]) and dict(self.reg[o[1]], backend=o[1]), None
    if k == "name":
      return None, None, o[1] if o[1] in DESC[1] else "none"
    if k == "cfg":
      c = self.resolve(o[1])
      return c is not None, c, None
    if k == "validate":
      return self.resolve(o[1]) is not None and o[2] in KEYS and intval(o[3]) is not None, None, None
    if k == "persist":
      m = self.mods[o[1]]
      m["over"] = dict(m["over"] or {})
      m["over"][o[2]] = o[3]
      return None, None, None
    if k == "reparse":
      return True, None, None
    if k == "is":
      m = self.mods[o[1]]
      t = [m["scheme"]] if m["scheme"] else []
      if m["scheme"] in ("bgv", "bfv"):
        t.append("bgv|bfv")
      return None, None, " ".join(t + [b for b in ("openfhe", "lattigo") if b in m["unit"]])
    if k == "value":
      n = parsed(o[3]) if o[2] in KEYS else None
      return n is not None, None, None if n is None else "%d : i64" % n
    if k == "override":
      for kv in o[2]:
        key, eq, v = kv.partition("=")
        n = parsed(v) if eq and key in KEYS else None
        if n is None or self.resolve(o[1]) is None:
          self.mods[o[1]] = None
          return False, None, None
        m = self.mods[o[1]]
        m["over"] = dict(m["over"] or {})
        m["over"][key] = "%d : i64" % n
      return True, None, None
    if k == "annotate":
      if o[3] not in DESC[1] or o[3] not in self.reg:
        self.mods[o[1]] = None
        return False, None, None
      m = self.mods[o[1]]
      for n in DESC[1]:
        m["other"].pop(n, None)
      m["unit"] = sorted([u for u in m["unit"] if u not in DESC[1]] + [o[3]])
      if o[2]:
        m["scheme"] = o[2]
      return True, None, None
    raise RuntimeError(k)


def lower(o):
  if o[0] == "override":
    return ["run", o[1], "apply-config-override{config=%s}" % ",".join(o[2])]
  if o[0] == "annotate":
    return ["run", o[1], "annotate-module{%sbackend=%s}" % ("scheme=%s " % o[2] if o[2] else "", o[3])]
  return o


def source(lines):
  return "module%s {\n}\n" % (" attributes {%s}" % ", ".join(lines) if lines else "")


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = R()
  kw = {}
  if req.get("sched") is not None:
    kw["replay"] = mlirsrv.flat(req["sched"])

  # Operations on a module that was never parsed, or after a failed pass, are left out.
  model = Model(plan)
  ops, exp = [], []
  for x in sorted(set(plan["ctx"])):
    ops.append(["ctx", x, int(plan["threads"] > 0)])
    exp.append(None)

  def usable(o):
    return o[0] in ("get", "name", "value") or model.mods.get(o[1]) is not None

  def put(o):
    if not usable(o):
      return None
    e = (o, model.expect(o))
    r.probes[o[0]] = r.probes.get(o[0], 0) + 1
    return e

  dup = False
  for o in plan["ops"]:
    if o[0] == "parse":
      model.parse(o[1])
      ops.append(["parse", o[1], plan["ctx"][o[1]], source(plan["mods"][o[1]])])
      exp.append("parse")
    elif o[0] in ("register", "registerone"):
      new = {n: dict(f) for n, f in DESC[1].items()} if o[0] == "register" else {o[1]: dict(DESC[0])}
      if set(new) & set(model.reg):
        continue
      model.reg.update(new)
      ops.append(o)
      exp.append(None)
    elif o[0] == "par":
      br, ex = [], []
      for b in o[1]:
        es = [e for e in (put(y) for y in b) if e]
        br.append([lower(e[0]) for e in es])
        ex.append(es)
      ops.append(["par", br])
      exp.append(ex)
    else:
      e = put(o)
      if e:
        ops.append(lower(o))
        exp.append(e)
  x = mlirsrv.call(box, ops, threads=plan["threads"], weights=plan["weights"], sched=plan["schedseed"], alloc=plan["alloc"], placed=1, reuse=60,
                   preempt=plan["preempt"], **kw)
  c.ops = len(ops)
  if "crash" in x:
    c.note("crash", x["crash"], x["err"][:200])
    c.add("C25", "crash", "crash", "the process died (%s): %s" % (x["crash"], x["err"][-300:]))
    return finish(c, x)
  for o, e, g in zip(ops, exp, x["res"]):
    if e is None:
      continue
    if e == "parse":
      if not g.get("ok"):
        raise RuntimeError("the module does not parse: %s" % g)
    elif isinstance(e, list):
      for es, gs in zip(e, g["branches"]):
        for (p, w), y in zip(es, gs):
          judge(c, p, w, y)
    else:
      judge(c, e[0], e[1], g)
  if plan["dup"] and model.reg:
    first = [o for o in ops if o[0] in ("register", "registerone")]
    y = mlirsrv.call(box, first + [["registerone", sorted(model.reg)[0]], ["get", sorted(model.reg)[0]]], threads=0, weights=[1], sched=1,
                     alloc=plan["alloc"], placed=1, reuse=60, preempt=0)
    r.fired["backend registered twice"] = r.fired.get("backend registered twice", 0) + 1
    if "crash" not in y:
      c.add("C25", "duplicate", "duplicate", "registering a backend again is not refused; lookup then gives %s" % y["res"][-1])
  return finish(c, x)


def judge(c, o, want, got):
  ok, cfg, out = want
  k = o[0]
  c.note(o, got.get("ok"), got.get("cfg"), got.get("out"), got.get("diags"))
  c.state(k, ok, cfg, out)
  if got.get("pipe"):
    raise RuntimeError("the pipeline does not parse: %s" % got)
  if got.get("badattr"):
    raise RuntimeError("the attribute does not parse: %s" % o)
  if ok is not None and bool(got.get("ok")) != ok:
    return c.add("C25", "outcome", "outcome:%s:%s" % (k, ok), "%s %s where it should %s: %s" % (
        o, "succeeds" if got.get("ok") else "fails", "succeed" if ok else "fail", got))
  if cfg is not None and got.get("cfg") != cfg:
    return c.add("C25", "value", "value:" + k, "%s gives %s instead of %s" % (o, got.get("cfg"), cfg))
  if out is not None and got.get("out") != out:
    return c.add("C25", "value", "value:" + k, "%s gives %r instead of %r" % (o, got.get("out"), out))
  if ok is False and k not in ("get",) and not got.get("diags"):
    return c.add("C25", "silent", "silent:" + k, "%s fails without a diagnostic" % o)
  if k == "reparse" and not got.get("same"):
    return c.add("C25", "value", "value:reparse", "reading the printed module back gives another one: %s" % got)
  if k == "annotate" and ok:
    head = got["out"].split("\n", 1)[0]
    b = [n for n in DESC[1] if re.search(r"backend\.%s\b" % n, head)]
    if b != [o[3]]:
      return c.add("C25", "value", "value:annotate", "after %s the module is %s" % (o, head))
    if o[2] and sorted(re.findall(r"scheme\.(\w+)", head)) != [o[2]]:
      return c.add("C25", "value", "value:annotate", "after %s the module is %s" % (o, head))
    c.run.fired["passes run"] = c.run.fired.get("passes run", 0) + 1


def finish(c, x):
  st = x.get("stats", {})
  out = c.result(c.ops > 4)
  out["sched"] = mlirsrv.pairs(x.get("trace", []))
  out["switches"] = st.get("switches", 0)
  out["order"] = "%x" % st.get("sched", 0) if st.get("switches") else ""
  out["tools"] = st.get("tasks", 0)
  c.run.fired["thread switches"] = st.get("switches", 0)
  return out
