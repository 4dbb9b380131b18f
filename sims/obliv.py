"""Simulation of the passes that make programs data-oblivious (C29): every generated program is
executed by a reference interpreter before and after each pass, with public and secret inputs
drawn separately, following what is computed from a secret."""
import random

from dst import simple
from dst.world import h64
from sims import mlirsrv, ogen


def prepare(scratch):
  mlirsrv.prepare(scratch, "secret_sim")


IF, FOR, WHILE, EXTRACT, INSERT = ("convert-if-to-select", "convert-secret-for-to-static-for", "convert-secret-while-to-static-for",
                                   "convert-secret-extract-to-static-extract", "convert-secret-insert-to-static-insert")
FULL = [EXTRACT, INSERT, WHILE, FOR, IF]
KIND = {IF: "scf.if", FOR: "scf.for", WHILE: "scf.while", EXTRACT: "tensor.extract", INSERT: "tensor.insert"}


class R:

  def __init__(self):
    self.fired, self.probes, self.clock_us = {}, {}, 0


def generate(seed):
  rng = random.Random(h64("obliv", seed))
  w = {}
  if rng.random() < 0.6:
    w = rng.choice([{"if": 6}, {"for": 6}, {"while": 6}, {"extract": 8}, {"insert": 8, "extract": 3}, {"for": 4, "if": 4}, {"while": 4, "for": 3},
                    {"for": 4, "extract": 6, "insert": 4}])
  mod = ogen.module(rng, {"weights": w, "len": rng.choice([(1, 3), (2, 8), (5, 14)]), "depth": rng.choice([1, 2, 2, 3]),
                          "secret": rng.choice([0.3, 0.6, 1]), "odd": rng.choice([0, 0.1, 0.5]), "nfun": rng.choice([1, 1, 2])})
  x = rng.random()
  if x < 0.4:
    ops = list(FULL)
  elif x < 0.6:
    ops = [rng.choice(FULL)]
  else:
    ops = [rng.choice(FULL) for _ in range(rng.randint(2, 5))]
  ops = [[o + "{convert-all-scf-for=false}" if o == FOR and rng.random() < 0.5 else o] for o in ops]
  for k in range(len(ops) - 1, -1, -1):
    if rng.random() < 0.1:
      ops.insert(k, [rng.choice(["cse", "cse", "annotate-secretness{verbose=true}"])])
  if rng.random() < 0.3:
    ops.append(["annotate-secretness{verbose=true}"])
  if rng.random() < 0.3:
    ops = [["func.func(%s)" % o[0]] for o in ops]
  envs = []
  for _ in range(2):
    p = rng.randrange(1 << 30)
    envs += [[p, rng.choice([3, 20]), rng.randrange(1 << 30)] for _ in range(3)]
  thr = rng.choice([0, 0, 2, 4])
  return {"mods": [mod], "ops": ops, "envs": envs, "alloc": rng.randrange(1, 1 << 30), "reuse": rng.choice([0, 30, 60, 95]),
          "schedseed": rng.randrange(1, 1 << 30), "threads": thr, "weights": [rng.choice([1, 10]) for _ in range(thr + 1)],
          "preempt": rng.choice([100, 1000]), "simple": {"threads": 0, "preempt": 0}}


def told(diags, kind):
  """Whether the pass said it left something as it is."""
  return bool(diags)


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = R()
  ev = [["evals", 0, s, k, t] for s, k, t in plan["envs"]]
  ops = [["ctx", 0, int(plan["threads"] > 0)], ["parse", 0, 0, "\n".join(plan["mods"][0])]] + ev
  for o in plan["ops"]:
    ops += [["run", 0, o[0]]] + ev
  kw = {}
  if req.get("sched") is not None:
    kw["replay"] = mlirsrv.flat(req["sched"])
  x = mlirsrv.call(box, ops, threads=plan["threads"], weights=plan["weights"], sched=plan["schedseed"], alloc=plan["alloc"], placed=1,
                   reuse=plan["reuse"], preempt=plan["preempt"], **kw)
  c.ops = len(plan["ops"])
  if "crash" in x:
    c.note("crash", x["crash"], x["err"][:200])
    c.add("C29", "crash", "crash", "the process died (%s) in %s: %s" % (x["crash"], [o[0] for o in plan["ops"]], x["err"][-300:]))
    return finish(c, x)
  res = x["res"]
  if not res[1].get("ok"):
    c.note("invalid", res[1].get("diags"))
    r.probes["invalid program"] = 1
    return finish(c, x)
  n = len(ev)
  before = [e["eval"] for e in res[2:2 + n]]
  for b in before:
    for v in b.values():
      if v["v"].startswith("bad"):
        r.probes[v["v"]] = r.probes.get(v["v"], 0) + 1
  at = 2 + n
  quiet, done = True, set()
  for o in plan["ops"]:
    rr, after = res[at], [e["eval"] for e in res[at + 1:at + 1 + n]]
    at += 1 + n
    name = o[0].removeprefix("func.func(").rstrip(")")
    base = name.split("{")[0]
    c.note(o[0], rr.get("ok"), h64(rr.get("out", "")), rr.get("pipe"), rr.get("diags"))
    if rr.get("pipe"):
      raise RuntimeError(rr["pipe"])
    if not rr.get("ok"):
      c.state(base, "fails", (rr.get("diags") or ["?"])[0].split(":")[-1][:40])
      if any("does not dominate" in d or "operand" in d or "requires" in d or "type" in d for d in rr.get("diags", [])):
        c.add("C29", "invalid-ir", "invalid:" + base, "%s left invalid IR: %s" % (name, rr["diags"][0][:300]))
      break
    said = bool(rr.get("diags"))
    quiet &= not said
    if said:
      k = "%s says it left something as it is" % base
      r.probes[k] = r.probes.get(k, 0) + 1
    for (s, k, t), b, a in zip(plan["envs"], before, after):
      for f, v in b.items():
        w = a.get(f, {"v": "none", "leaks": [], "path": 0})
        c.state(base, v["v"][:12] if v["v"].startswith("bad") else "", said, len(v["v"]) // 40, tuple(v["leaks"]), tuple(w["leaks"]))
        if v["v"].startswith("bad"):
          continue
        r.fired["programs executed"] = r.fired.get("programs executed", 0) + 1
        if w["v"] != v["v"]:
          c.add("C29", "meaning-changed", "changed:" + base, "%s changes what @%s computes with public inputs %d and secret inputs %d: %s became %s" % (
              name, f, s, t, v["v"][:140], w["v"][:140]))
          return finish(c, x)
        kind = KIND.get(base)
        if kind and not said and kind in w["leaks"]:
          c.add("C29", "secret-left", "left:" + base, "after %s, which reports nothing, a %s of @%s still depends on a secret input" % (name, kind, f))
          return finish(c, x)
        if base == "annotate-secretness" and "public" in w["leaks"]:
          c.add("C29", "marked-public", "public", "%s marks a value of @%s public that was computed from a secret" % (name, f))
          return finish(c, x)
        if kind and kind in v["leaks"] and kind not in w["leaks"]:
          r.fired["executions made independent of secrets by " + base] = r.fired.get("executions made independent of secrets by " + base, 0) + 1
    before = after
  return finish(c, x)


def finish(c, x):
  st = x.get("stats", {})
  for k, n in (("freed blocks reused", st.get("reused", 0)), ("thread switches", st.get("switches", 0))):
    if n:
      c.run.fired[k] = c.run.fired.get(k, 0) + n
  out = c.result(bool(x.get("res") and len(x["res"]) > 3))
  out["sched"] = mlirsrv.pairs(x.get("trace", []))
  out["switches"] = st.get("switches", 0)
  out["order"] = "%x" % st.get("sched", 0) if st.get("switches") else ""
  out["tools"] = st.get("tasks", 0)
  return out
