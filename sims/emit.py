"""Simulation of code generation (C21): several modules in one process are emitted again and
again, interleaved with each other, from one or several threads, under an allocator whose
placements the seed decides, into outputs that take data in other chunk sizes.  The reference
is each emission alone in a fresh process.  Code emitted by levels is also executed
symbolically: every task of a level may run before every other one."""
import random
import re

from dst import simple
from dst.world import h64
from sims import mlirsrv, tgen

prepare = mlirsrv.prepare
EM = {"tfhe": ["tfhe", "tfhe-levels", "tfhe-levels"], "bool": ["bool"], "packed": ["bool-packed"], "hl": ["hl"], "plain": ["metadata"], "py": ["pybind"]}


class R:

  def __init__(self):
    self.fired, self.probes, self.clock_us = {}, {}, 0


def generate(seed):
  rng = random.Random(h64("emit", seed))
  nm = rng.choice([1, 2, 2, 3, 4])
  mods, fams = [], []
  for i in range(nm):
    fam = rng.choice(["tfhe", "tfhe", "tfhe", "bool", "packed", "hl", "hl", "plain", "py"])
    if i and rng.random() < 0.3:
      fam = rng.choice(fams)
    if fam == "plain":
      m = tgen.signatures(rng)[0]
    elif fam == "py":
      m = tgen.signatures(rng, True)[0]
    else:
      m = tgen.module(rng, fam, rng.choice([1, 1, 2, 3]), {"argstore": rng.random() < 0.5, "steps": rng.random() < 0.3, "boolloops": 1,
                                                          "len": rng.choice([(1, 6), (3, 25), (20, 60)])})
    mods.append(m)
    fams.append(fam)
  if rng.random() < 0.3:
    # the same program with other names for its values
    k = rng.randrange(nm)
    mods.append([re.sub(r"%v(\d+)", lambda x: "%%n%d" % ((int(x.group(1)) * 7919) % 104729), l) for l in mods[k]])
    fams.append(fams[k])
  else:
    k = -1
  twin = [k, len(mods) - 1] if k >= 0 else None
  nctx = rng.randint(1, len(mods))
  ctx = [rng.randrange(nctx) for _ in mods]
  per = []
  for i in range(len(mods)):
    o = [["parse", i, ctx[i], i]]
    for _ in range(rng.randint(1, 4)):
      x = rng.random()
      if x < 0.85:
        o.append(["emit", i, rng.choice(EM[fams[i]]), rng.choice([0, 0, 1, 7, 64, 4096])])
      elif x < 0.92:
        o.append(["print", i])
      else:
        o.append(["parse", i, ctx[i], i])
    per.append(o)
  ops = [["ctx", i, 1] for i in range(nctx)]
  if len(set(ctx)) == len(mods) and rng.random() < 0.6:
    ops.append(["par", per])
  else:
    while any(per):
      ops.append(rng.choice([x for x in per if x]).pop(0))
  thr = rng.choice([0, 0, 2, 4])
  return {"mods": mods, "twin": twin, "ops": ops, "alloc": rng.randrange(1, 1 << 30), "schedseed": rng.randrange(1, 1 << 30), "threads": thr,
          "weights": [rng.choice([1, 10, 60]) for _ in range(thr + 1)], "preempt": rng.choice([100, 1000, 4000]), "reuse": rng.choice([20, 60, 95]),
          "simple": {"preempt": 0, "reuse": 60, "threads": 0, "twin": None}}


def real(o, mods):
  if o[0] == "parse":
    return ["parse", o[1], o[2], "\n".join(mods[o[3]])]
  if o[0] == "par":
    return ["par", [[real(x, mods) for x in b] for b in o[1]]]
  return o


def leaves(ops, res):
  for o, r in zip(ops, res):
    if o[0] == "par":
      for b, br in zip(o[1], r.get("branches", [])):
        yield from zip(b, br)
    else:
      yield o, r


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = R()
  mods, ops = plan["mods"], plan["ops"]
  kw = {}
  if req.get("sched") is not None:
    kw["replay"] = mlirsrv.flat(req["sched"])
  x = mlirsrv.call(box, [real(o, mods) for o in ops], threads=plan["threads"], weights=plan["weights"], sched=plan["schedseed"], alloc=plan["alloc"],
                   placed=1, reuse=plan["reuse"], preempt=plan["preempt"], **kw)
  c.ops = len(ops)
  if "crash" in x:
    c.note("crash", x["crash"], x["err"][:200])
    c.add("C21", "crash", "crash", "the process died (%s) while emitting: %s" % (x["crash"], x["err"][-300:]))
    return finish(c, x)
  refs, twin = {}, plan.get("twin") or [-1, -1]

  def ref(m, e):
    if m == twin[1] and twin[0] < len(mods):
      m = twin[0]
    if (m, e) not in refs:
      refs[m, e] = mlirsrv.call(box, [["ctx", 0, 0], ["parse", 0, 0, "\n".join(mods[m])], ["emit", 0, e, 0]], threads=0, placed=0, alloc=1)
    return refs[m, e]

  for s in x.get("stray", []):
    c.add("C21", "stray-diagnostic", "stray", "a diagnostic was raised outside every operation: %s" % s[:200])
  seen = {}
  for o, a in leaves(ops, x["res"]):
    if o[0] == "parse":
      c.note(o[0], o[1], a.get("ok"))
      if not a.get("ok"):
        r.probes["modules that do not parse"] = r.probes.get("modules that do not parse", 0) + 1
    if o[0] != "emit" or a.get("nomod"):
      continue
    m, e = o[1], o[2]
    y = ref(m, e)
    c.note("emit", m, e, a.get("ok"), "%x" % h64(a.get("out", ""), str(a.get("diags"))))
    c.state(e, a.get("ok"), len(a.get("out", "")) // 300, (a.get("diags") or [""])[0][-40:])
    if "crash" in y:
      c.add("C21", "crash", "crash alone", "the process died (%s) when it emitted module %d as %s alone: %s" % (y["crash"], m, e, y["err"][-300:]))
      break
    b = y["res"][2]
    k = "emitted %s" % e if a.get("ok") else "refused %s" % e
    r.fired[k] = r.fired.get(k, 0) + 1
    if not a.get("ok") and not a.get("diags"):
      c.add("C21", "silent-failure", "silent:" + e, "emitting module %d as %s fails without a diagnostic" % (m, e))
      break
    if a.get("ok") != b.get("ok") or a.get("out") != b.get("out"):
      c.add("C21", "differs", "differs:" + e, "emission %d of module %d as %s differs from the module alone in a fresh process: %s" % (
          seen.get((m, e), 0) + 1, m, e, first(a, b)))
      break
    seen[m, e] = seen.get((m, e), 0) + 1
    if e == "tfhe-levels" and a.get("ok"):
      bad = levels(a["out"])
      if bad:
        c.add("C21", "order", "order:" + bad[0], "module %d by levels: %s" % (m, bad[1]))
        break
  return finish(c, x)


def first(a, b):
  if a.get("ok") != b.get("ok"):
    return "%s, alone %s %s" % (a.get("ok"), b.get("ok"), (a.get("diags") or b.get("diags") or [""])[0][:200])
  for l, k in zip(a["out"].split("\n"), b["out"].split("\n")):
    if l != k:
      return "%r, alone %r" % (l.strip()[:160], k.strip()[:160])
  return "length %d, alone %d" % (len(a["out"]), len(b["out"]))


ENTRY = re.compile(r"\(\((LUT3\(\"(\w+)\"\)|LSH\(\d+\)|ADD), (\d+)\), &\[([^\]]*)\]\)")


def levels(text):
  """Does each level only use what earlier levels and statements defined?"""
  for f in re.split(r"^pub fn ", text, flags=re.M)[1:]:
    have, luts, lev = set(), set(), {}
    for line in f.split("\n"):
      line = line.strip()
      for n in re.findall(r"temp_nodes\[&(\d+)\]", line):
        if n not in have:
          return "undefined", "temp_nodes[&%s] is read before it is written" % n
      for n in re.findall(r"luts\[\"(\w+)\"\]", line):
        if n not in luts:
          return "undefined-lut", "lookup table %s is read before it is defined" % n
      g = re.match(r"temp_nodes\.insert\((\d+),", line)
      if g:
        have.add(g.group(1))
      g = re.match(r"luts\.insert\(\"(\w+)\"", line)
      if g:
        luts.add(g.group(1))
      g = re.match(r"static (LEVEL_\d+_\d+) : \[.*?; (\d+)\] = \[(.*)\];$", line)
      if g:
        es = [(x.group(2), x.group(3), re.findall(r"Tv\((\d+)\)", x.group(4))) for x in ENTRY.finditer(g.group(3))]
        if len(es) != int(g.group(2)):
          return "count", "%s announces %s tasks and has %d" % (g.group(1), g.group(2), len(es))
        lev[g.group(1)] = es
      g = re.match(r"run_level\(.*&(LEVEL_\d+_\d+)\);$", line)
      if g:
        if g.group(1) not in lev:
          return "nolevel", "%s is run before it is defined" % g.group(1)
        es = lev[g.group(1)]
        for lut, n, args in es:
          for v in args:
            if v not in have:
              return "undefined", "a task of %s reads Tv(%s), which no earlier level or statement defines" % (g.group(1), v)
          if lut and lut not in luts:
            return "undefined-lut", "a task of %s uses lookup table %s before it is defined" % (g.group(1), lut)
        if len({n for _, n, _ in es}) != len(es):
          return "twice", "two tasks of %s write the same result" % g.group(1)
        have |= {n for _, n, _ in es}
  return None


def finish(c, x):
  st = x.get("stats", {})
  c.run.fired["thread switches"] = st.get("switches", 0)
  c.run.fired["freed blocks reused"] = st.get("reused", 0)
  out = c.result(len(c.plan["ops"]) > 3)
  out["sched"] = mlirsrv.pairs(x.get("trace", []))
  out["switches"] = st.get("switches", 0)
  out["order"] = "%x" % st.get("sched", 0) if st.get("switches") else ""
  out["tools"] = st.get("tasks", 0)
  return out
