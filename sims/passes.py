"""Simulation of a compiler process (C20): several contexts and modules, pipelines run by a
simulated thread pool, memory placed by seed.  The reference is each module's own history
alone, in a new process, single-threaded."""
import random
import re

from dst import simple
from dst.world import h64
from sims import mgen, mlirsrv

prepare = mlirsrv.prepare


class R:

  def __init__(self):
    self.fired, self.probes, self.clock_us = {}, {}, 0


def generate(seed):
  rng = random.Random(h64("passes", seed))
  nm = rng.choice([1, 1, 2, 3])
  mods = []
  # A pipeline may come back, and its pass manager may then be the one used before.
  pipes = [mgen.pipeline(rng) if rng.random() < 0.5 else mgen.fill(rng, rng.choice(mgen.OWN)) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < 0.4 else None
  nm = max(nm, rng.choice([2, 3])) if pipes else nm
  for i in range(nm):
    if i and rng.random() < (0.6 if pipes else 0.2):
      m = list(rng.choice(mods))  # the same text again, or the same without marks
      if rng.random() < 0.5:
        m = [re.sub(r' attributes \{client\.\w+ = \{func_name = "\w+"(, index = 0 : i64)?\}\}', "", l) for l in m]
      if rng.random() < 0.5:
        mods.append(m)
      else:
        mods.insert(rng.randrange(len(mods) + 1), m)
    else:
      mods.append(mgen.module(rng, nfun=rng.choice([1, 2, 4, 6, 10]), opts={
          "prep": rng.choice([0, 0, 0.3]), "len": rng.choice([(2, 6), (4, 14)]), "dup": rng.choice([0.02, 0.2]), "helpers": rng.random() < (0.7 if pipes else 0.3),
          "weights": rng.choice([{}, {}, {"validate": 3}, {"call": 5}, {"loop": 4}])}))
  nctx = 1 if pipes and rng.random() < 0.7 else rng.randint(1, nm)
  ops = [["ctx", k, int(rng.random() < 0.9)] for k in range(nctx)]
  reg = rng.random() < 0.9
  if reg:
    ops.insert(rng.randrange(len(ops) + 1), ["register"])
  ctx = {i: rng.randrange(nctx) for i in range(nm)}
  per = []
  for i in range(nm):
    o = [["parse", i, ctx[i], i]]
    for _ in range(rng.randint(1, 3)):
      x = rng.random()
      if x < 0.75:
        o.append(["run", i, rng.choice(pipes), 1] if pipes else ["run", i, mgen.pipeline(rng)])
      elif x < 0.8:
        o.append(["verify", i])
      elif x < 0.9:
        o.append(["print", i])
      else:
        o.append(["parse", i, ctx[i], i])
    per.append(o)
  if nm > 1 and len(set(ctx.values())) == nm and rng.random() < 0.5:
    ops.append(["par", per])
  else:
    while any(per):
      o = rng.choice([x for x in per if x])
      ops.append(o.pop(0))
    if rng.random() < 0.3 and len(ops) > 3:
      ops.insert(rng.randrange(nctx + 1, len(ops) + 1), ["drop", rng.randrange(nm)])
  thr = rng.choice([1, 2, 3, 4, 6])
  return {"mods": mods, "ops": ops, "alloc": rng.randrange(1, 1 << 30), "schedseed": rng.randrange(1, 1 << 30), "threads": thr,
          "weights": [rng.choice([1, 10, 10, 60]) for _ in range(thr + 1)], "preempt": rng.choice([30, 300, 1000, 4000]), "reuse": rng.choice([20, 60, 95]),
          "simple": {"preempt": 0, "reuse": 60}}


def real(o, mods):
  if o[0] == "parse":
    return ["parse", o[1], o[2], "\n".join(mods[o[3]])]
  if o[0] == "par":
    return ["par", [[real(x, mods) for x in b] for b in o[1]]]
  return o


def fresh(o):
  """The same operation by a pass manager of its own."""
  return o[:3] if o[0] == "run" else o


MODOPS = {"parse", "run", "verify", "print", "drop"}


def own(ops, m):
  """The history of module m alone (with what it depends on)."""
  out = []
  for o in ops:
    if o[0] == "par":
      for b in o[1]:
        out += [x for x in b if x[0] in MODOPS and x[1] == m]
    elif o[0] in ("register", "ctx") or (o[0] in MODOPS and o[1] == m):
      out.append(o)
  return out


def flatres(ops, res):
  for o, r in zip(ops, res):
    if o[0] == "par":
      for b, br in zip(o[1], r.get("branches", [])):
        yield from zip(b, br)
    else:
      yield o, r


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = R()
  mods, ops = plan["mods"], plan["ops"]
  kw = {}
  if req.get("sched") is not None:
    kw["replay"] = mlirsrv.flat(req["sched"])
  x = mlirsrv.call(box, [real(o, mods) for o in ops], threads=plan["threads"], weights=plan["weights"], sched=plan["schedseed"], alloc=plan["alloc"],
                   placed=1, reuse=plan["reuse"], preempt=plan["preempt"], **kw)
  c.ops = len(ops)
  refs = {}
  for m in range(len(mods)):
    h = own(ops, m)
    if any(o[0] in MODOPS for o in h):
      refs[m] = (h, mlirsrv.call(box, [real(fresh(o), mods) for o in h], threads=0, placed=0, alloc=1))
  if "crash" in x:
    c.note("crash", x["crash"], x["err"][:200])
    if not any("crash" in y for _, y in refs.values()):
      c.add("C20", "crash", "crash", "the process died (status %s, %s) where each module alone passes" % (x["crash"], x["err"][-300:]))
    return finish(c, x)
  got = {}
  for o, rr in flatres(ops, x["res"]):
    if o[0] in MODOPS:
      got.setdefault(o[1], []).append((o, rr))
  for s in x.get("stray", []):
    c.add("C20", "stray-diagnostic", "stray", "a diagnostic was raised outside every operation: %s" % s[:200])
  for m, (h, y) in refs.items():
    if "crash" in y:
      c.note("reference crash", m, y["crash"])
      r.probes["reference crashed"] = r.probes.get("reference crashed", 0) + 1
      continue
    want = [(o, rr) for o, rr in zip(h, y["res"]) if o[0] in MODOPS]
    for (o, a), (_, b) in zip(got.get(m, []), want):
      c.note(o[0], o[1], o[2] if o[0] == "run" else "", a.get("ok"), "%x" % h64(a.get("out", ""), str(a.get("diags"))))
      c.state(o[0], a.get("ok"), o[2][:60] if o[0] == "run" else "")
      if a.get("reused"):
        r.fired["pass managers used again"] = r.fired.get("pass managers used again", 0) + 1
      what = differs(o, a, b)
      if what:
        c.add("C20", "differs", "differs:" + what[0], "%s of module %d in a process with %d threads and %d modules differs from that module alone: %s" % (
            o[2] if o[0] == "run" else o[0], m, plan["threads"], len(mods), what[1]))
        break
      if o[0] == "parse" and not a.get("ok"):
        r.probes["modules that do not parse"] = r.probes.get("modules that do not parse", 0) + 1
        break
      if o[0] == "run" and not a.get("ok"):
        r.probes["pipelines that fail"] = r.probes.get("pipelines that fail", 0) + 1
        break  # what a failed pipeline leaves behind is not specified
  return finish(c, x)


def nested_failure(p):
  return "func.func" in p and "full-loop-unroll" in p


def differs(o, a, b):
  if a.get("ok") != b.get("ok"):
    return "outcome", "%s, alone %s (%s)" % (a.get("ok"), b.get("ok"), (a.get("diags") or b.get("diags") or [""])[0][:150])
  if a.get("pipe") != b.get("pipe") or a.get("nomod") != b.get("nomod"):
    return "outcome", "%s vs %s" % (a, b)
  if a.get("out") != b.get("out"):
    for l, k in zip(a["out"].split("\n"), b["out"].split("\n")):
      if l != k:
        return "ir", "%r, alone %r" % (l.strip()[:120], k.strip()[:120])
    return "ir", "length"
  if o[0] in ("parse", "verify") and not a.get("ok"):
    return None  # MLIR verifies the functions of a module in parallel and reports in any order
  if o[0] == "run" and not a.get("ok") and nested_failure(o[2]):
    return None
  if a.get("diags") != b.get("diags"):
    return "diagnostics", "%s, alone %s" % (str(a.get("diags"))[:200], str(b.get("diags"))[:200])
  return None


def finish(c, x):
  st = x.get("stats", {})
  c.run.fired["thread switches"] = st.get("switches", 0)
  c.run.fired["freed blocks reused"] = st.get("reused", 0)
  out = c.result(len(c.plan["ops"]) > 3)
  out["sched"] = mlirsrv.pairs(x.get("trace", []))
  out["switches"] = st.get("switches", 0)
  out["order"] = "%x" % st.get("sched", 0) if st.get("switches") else ""
  out["tools"] = st.get("tasks", 0)
  return out
