"""Simulation of the passes that rewrite programs (C26): every generated program is executed
by a reference interpreter before and after each pass, in an environment that decides what
the program cannot know: whether indices coincide, what unknown functions return and write."""
import random

from dst import simple
from dst.world import h64
from sims import mgen, mlirsrv

prepare = mlirsrv.prepare

FP = ["forward-insert-to-extract", "forward-store-to-load", "full-loop-unroll", "canonicalize", "cse", "remove-unused-memref"]
OWN = ["forward-insert-to-extract", "forward-store-to-load", "full-loop-unroll", "remove-unused-memref", "remove-unused-pure-call"]


class R:

  def __init__(self):
    self.fired, self.probes, self.clock_us = {}, {}, 0


def generate(seed):
  rng = random.Random(h64("meaning", seed))
  w = {}
  if rng.random() < 0.5:
    w = rng.choice([{"insert": 9, "extract": 9, "store": 1, "load": 1}, {"store": 9, "load": 9, "insert": 1, "extract": 1}, {"loop": 5, "if": 3},
                    {"call": 8}, {"alloc": 5, "store": 8}])
  if w.get("store") in (8, 9):
    dims = rng.random() < 0.6
  else:
    dims = rng.random() < 0.1
  mod = mgen.module(rng, nfun=rng.choice([1, 1, 2, 3]), opts={"weights": w, "len": rng.choice([(3, 8), (4, 18), (10, 30)]), "helpers": True, "dims": dims}, attrs="")
  ops = []
  for _ in range(rng.randint(1, 4)):
    p = rng.choice(OWN) if rng.random() < 0.75 else rng.choice(["canonicalize", "cse"])
    if p == "remove-unused-pure-call" or (p != "remove-unused-memref" and rng.random() < 0.3):
      ops.append([p])
    else:
      ops.append(["func.func(%s)" % p])
  envs = [[rng.randrange(1 << 30), k] for k in (1, 2, 3)] + [[rng.randrange(1 << 30), 2], [rng.randrange(1 << 30), 3]]
  thr = rng.choice([0, 2, 4])
  return {"mods": [mod], "ops": ops, "envs": envs, "alloc": rng.randrange(1, 1 << 30), "schedseed": rng.randrange(1, 1 << 30), "threads": thr,
          "weights": [rng.choice([1, 10]) for _ in range(thr + 1)], "preempt": rng.choice([100, 1000]), "simple": {"threads": 0, "preempt": 0}}


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = R()
  ev = [["eval", 0, s, k] for s, k in plan["envs"]]
  ops = [["ctx", 0, int(plan["threads"] > 0)], ["parse", 0, 0, "\n".join(plan["mods"][0])]] + ev
  for o in plan["ops"]:
    ops += [["run", 0, o[0]]] + ev
  kw = {}
  if req.get("sched") is not None:
    kw["replay"] = mlirsrv.flat(req["sched"])
  x = mlirsrv.call(box, ops, threads=plan["threads"], weights=plan["weights"], sched=plan["schedseed"], alloc=plan["alloc"], placed=1, reuse=60,
                   preempt=plan["preempt"], **kw)
  c.ops = len(plan["ops"])
  res = {}
  if "crash" in x:
    c.note("crash", x["crash"], x["err"][:200])
    c.add("C26", "crash", "crash", "the process died (%s) in %s: %s" % (x["crash"], [o[0] for o in plan["ops"]], x["err"][-300:]))
    return finish(c, x)
  res = x["res"]
  if not res[1].get("ok"):
    c.note("invalid", res[1].get("diags"))
    return finish(c, x)
  n = len(ev)
  before = [e["eval"] for e in res[2:2 + n]]
  at = 2 + n
  for o in plan["ops"]:
    rr, after = res[at], [e["eval"] for e in res[at + 1:at + 1 + n]]
    at += 1 + n
    name = o[0].removeprefix("func.func(").rstrip(")")
    c.note(o[0], rr.get("ok"), h64(rr.get("out", "")), rr.get("pipe"))
    if rr.get("pipe"):
      break
    if not rr.get("ok"):
      c.state(name, "fails", (rr.get("diags") or ["?"])[0].split(":")[-1][:40])
      if any("does not dominate" in d or "operand" in d for d in rr.get("diags", [])):
        c.add("C26", "invalid-ir", "invalid:" + name, "%s left invalid IR: %s" % (name, rr["diags"][0][:300]))
      break
    for (s, k), b, a in zip(plan["envs"], before, after):
      for f, v in b.items():
        c.state(name, v[:12] if v.startswith("bad") else "", len(v) // 40, a.get(f) == v)
        if v.startswith("bad"):
          r.probes[v] = r.probes.get(v, 0) + 1
          continue
        r.fired["programs executed with coinciding indices" if k < 3 else "programs executed"] = r.fired.get(
            "programs executed with coinciding indices" if k < 3 else "programs executed", 0) + 1
        if a.get(f) != v:
          c.add("C26", "meaning-changed", "changed:" + name, "%s changes what @%s computes with environment %d, indices below %d: %s became %s" % (
              name, f, s, k, v[:140], str(a.get(f))[:140]))
          return finish(c, x)
    before = after
  return finish(c, x)


def finish(c, x):
  st = x.get("stats", {})
  out = c.result(bool(x.get("res") and len(x["res"]) > 3))
  out["sched"] = mlirsrv.pairs(x.get("trace", []))
  out["switches"] = st.get("switches", 0)
  out["order"] = "%x" % st.get("sched", 0) if st.get("switches") else ""
  out["tools"] = st.get("tasks", 0)
  return out
