"""Shared by the single-process simulations: history, violations, result."""
import hashlib
import json
import os
import re

from dst.world import h64


class Ctx:

  def __init__(self, req, box, plan):
    self.req, self.box, self.plan = req, box, plan
    self.log, self.viol, self.states = [], [], set()
    self.ops = self.tools = 0
    self.run = None
    self.sched = None
    self.cmp = None

  def canon(self, t):
    t = str(t).replace(self.box, "BOX")
    return re.sub(r" at 0x[0-9a-f]+", " at 0x", t)

  def note(self, *a):
    self.log.append(self.canon(" ".join(str(x) for x in a))[:400])

  def add(self, prop, cls, sig, msg):
    self.viol.append({"prop": prop, "cls": cls, "sig": self.canon(sig), "msg": self.canon(msg)[:700]})

  def state(self, *a):
    self.states.add("%x" % h64(*[self.canon(x) for x in a]))

  def result(self, nontrivial=True):
    h = hashlib.sha1()
    for l in self.log:
      h.update(l.encode("utf-8", "replace") + b"\n")
    h.update(json.dumps([[v["cls"], v["sig"]] for v in self.viol]).encode())
    s, r = self.sched, self.run
    order = ""
    if s is not None:
      h.update(json.dumps(s.order).encode())
      order = "%x" % h64(*s.order) if s.switches else ""
    return {
        "plan": self.plan, "sched": s.taken if s is not None else [], "hash": h.hexdigest()[:16], "viol": self.viol,
        "fired": r.fired if r else {}, "probes": r.probes if r else {},
        "sim_us": s.now if s is not None else getattr(r, "clock_us", 0),
        "switches": s.switches if s is not None else 0, "order": order, "ops": self.ops, "tools": self.tools,
        "nontrivial": bool(nontrivial), "states": sorted(self.states), "log": self.log[-80:], "cmp": self.cmp,
        "summary": self.log[:8]}


def tree(root, skip=()):
  """Snapshot of a directory tree: relative path -> content hash or kind."""
  out = {}
  for r, ds, fs in os.walk(root):
    ds.sort()
    rel = os.path.relpath(r, root)
    if rel.split("/")[0] in skip:
      ds[:] = []
      continue
    out[rel] = "d"
    for d in ds:
      p = os.path.join(r, d)
      if os.path.islink(p):
        out[os.path.join(rel, d)] = "l:" + os.readlink(p)
    for f in fs:
      p = os.path.join(r, f)
      if os.path.islink(p):
        out[os.path.join(rel, f)] = "l:" + os.readlink(p)
      else:
        with open(p, "rb") as fh:
          out[os.path.join(rel, f)] = hashlib.sha1(fh.read()).hexdigest()
  return out
