"""Simulation of interface descriptions (C28): function metadata and Python bindings of
generated modules are emitted again and again in one process, interleaved with failing and
other emissions, under seeded allocators, schedules and output chunk sizes.  Metadata is read
back as JSON; bindings are compiled against a stand-in for pybind11, registered, and every bound
function is called.  Both are compared with the signatures the module was generated from."""
import json
import os
import random
import re
import subprocess

from dst import simple
from dst.world import h64
from sims import mlirsrv, tgen

prepare = mlirsrv.prepare
STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "dst", "pybind")
WORDS = set("main int float double long short char bool void auto class struct for if else do while new delete this true false and or not xor".split())


class R:

  def __init__(self):
    self.fired, self.probes, self.clock_us = {}, {}, 0


def module(rng, py):
  """-> (lines, functions [(name, [type], [type])], refused: a word or None)"""
  valid = rng.random() < 0.1
  while True:
    lines, fs = tgen.signatures(rng, py)
    if len({f[0] for f in fs}) == len(fs) and (not py or valid or all(re.match(r"[a-z_]\w*$", f[0]) for f in fs)):
      break
  bad = None
  if rng.random() < 0.08:
    lines.insert(1, "  memref.global constant @kk : memref<2xi8> = dense<[1, 2]>")
    bad = "op"
  return lines, fs, bad


def generate(seed):
  rng = random.Random(h64("iface", seed))
  nm = rng.choice([1, 2, 2, 3])
  mods, fs, fams, bads = [], [], [], []
  for i in range(nm):
    py = rng.random() < 0.45
    l, f, b = module(rng, py)
    mods.append(l)
    fs.append(f)
    fams.append("pybind" if py else "metadata")
    bads.append(b)
  per = []
  for i in range(nm):
    o = [["parse", i, i % 2, i]]
    for _ in range(rng.choice([1, 1, 2, 3])):
      e = fams[i] if rng.random() < 0.9 else rng.choice(["pybind", "metadata"])
      o.append(["emit", i, e, rng.choice([0, 0, 1, 7, 64, 4096]), rng.choice(["gen.h", "sub/foo.h", "a-b.h"]), rng.choice(["mod_py", "_heir_foo", "m2"])])
      if rng.random() < 0.1:
        o.append(["parse", i, i % 2, i])
    per.append(o)
  ops = [["ctx", 0, 1], ["ctx", 1, 1]]
  if nm > 1 and nm < 3 and rng.random() < 0.4:
    ops.append(["par", per])
  else:
    while any(per):
      ops.append(rng.choice([x for x in per if x]).pop(0))
  thr = rng.choice([0, 0, 2, 4])
  return {"mods": mods, "fs": fs, "bads": bads, "ops": ops, "alloc": rng.randrange(1, 1 << 30), "schedseed": rng.randrange(1, 1 << 30), "threads": thr,
          "weights": [rng.choice([1, 10, 60]) for _ in range(thr + 1)], "preempt": rng.choice([100, 1000, 4000]), "reuse": rng.choice([20, 60, 95]),
          "simple": {"preempt": 0, "reuse": 60, "threads": 0}}


def real(o, mods):
  if o[0] == "parse":
    return ["parse", o[1], o[2], "\n".join(mods[o[3]])]
  if o[0] == "par":
    return ["par", [[real(x, mods) for x in b] for b in o[1]]]
  return o


def leaves(ops, res):
  for o, r in zip(ops, res):
    if o[0] == "par":
      for b, br in zip(o[1], r.get("branches", [])):
        yield from zip(b, br)
    else:
      yield o, r


def plain(name):
  """The symbol behind its spelling in the module."""
  return name[1:-1].replace("\\22", '"') if name.startswith('"') else name


def type_json(t):
  """-> JSON of a type; None: not supported; ...: not decided here."""
  m = re.match(r"(s|u)?i(\d+)$", t)
  if m:
    return {"integer": {"width": int(m.group(2)), "is_signed": m.group(1) == "s"}}
  m = re.match(r"memref<((?:\d+x)*)(.*)>$", t)
  if m:
    if "?" in t:
      return ...
    e = type_json(m.group(2))
    return e if e in (None, ...) else {"memref": {"shape": [int(x) for x in m.group(1).split("x")[:-1]], "element_type": e}}
  return None


def functions(plan, i):
  """The functions that are left in the module's text (a minimised plan has fewer lines)."""
  text = "\n".join(plan["mods"][i])
  return [f for f in plan["fs"][i] if "@%s(" % f[0] in text]


def metadata(fs):
  """-> expected JSON, None if it must be refused, ... if undecided"""
  out, undecided = [], False
  for name, a, r in fs:
    ts = [type_json(t) for t in a + r]
    if None in ts or len(r) > 1:
      return None
    undecided |= ... in ts
    out.append({"name": plain(name), "params": [{"index": i, "type": t} for i, t in enumerate(ts[:len(a)])], "return_types": ts[len(a):]})
  return ... if undecided else {"functions": out}


def bindings(fs):
  """-> what the compiled module must register, or None if its names are not C++ names"""
  want = {("module",)}
  dbg = set()
  for name, a, r in fs:
    n = plain(name)
    if n.startswith("__heir_debug"):
      dbg.add("vector" if len(a) > 2 and a[2].startswith(("memref", "tensor")) else "single")
      continue
    if not re.match(r"[A-Za-z_]\w*$", n) or n in WORDS:
      return None
    want.add(("def", n, n))
    if len(r) > 1:
      want.add(("class", n + "Struct"))
      want |= {("field", "%sStruct.arg%d" % (n, i), i * 8) for i in range(len(r))}
  return want | {("def", "__heir_debug", d) for d in dbg}


def header(fs):
  h = ['#pragma once', '#include "types.h"']
  for name, a, r in fs:
    n = plain(name)
    if n.startswith("__heir_debug"):
      continue
    if len(r) > 1:
      h.append("struct %sStruct { %s };" % (n, " ".join("long long arg%d;" % i for i in range(len(r)))))
    ret, val = ("%sStruct" % n, "{}") if len(r) > 1 else ("long long", "0") if r else ("void", "")
    h.append("inline %s %s(%s) { SIM_RAN(\"%s\"); return %s; }" % (ret, n, ", ".join("int" for _ in a), n, val))
  m = "const std::map<std::string, std::string>&"
  h.append('inline void __heir_debug(CryptoContextT, PrivateKeyT, CiphertextT, %s) { SIM_RAN("single"); }' % m)
  h.append('inline void __heir_debug(CryptoContextT, PrivateKeyT, std::vector<CiphertextT>, %s) { SIM_RAN("vector"); }' % m)
  return "\n".join(h) + "\n"


COMMON = {"PublicKey", "PrivateKey", "KeyPair", "Ciphertext", "Plaintext", "CryptoContext"}
CACHE = {}


def execute(box, text, fs, hdr):
  """-> (error text, [rows])"""
  key = (text, str(fs), hdr)
  if key in CACHE:
    return CACHE[key]
  d = "%s/py%d" % (box, len(CACHE))
  os.makedirs(os.path.dirname("%s/inc/%s" % (d, hdr)))
  with open("%s/inc/%s" % (d, hdr), "w") as f:
    f.write(header(fs))
  with open(d + "/mod.cpp", "w") as f:
    f.write(text)
  p = subprocess.run(["/usr/bin/g++", "-std=c++17", "-O0", "-w", "-I" + d + "/inc", "-I" + STUB, "-o", d + "/mod", d + "/mod.cpp"], stdout=subprocess.PIPE,
                     stderr=subprocess.STDOUT, text=True, cwd=d, stdin=subprocess.DEVNULL)
  if p.returncode:
    CACHE[key] = ("\n".join(l for l in p.stdout.replace(d, "").split("\n") if "error" in l)[:300] or p.stdout[-300:], [])
  else:
    q = subprocess.run([d + "/mod"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, cwd=d, stdin=subprocess.DEVNULL)
    CACHE[key] = ("exit %d" % q.returncode if q.returncode else "", [l.split("\t") for l in q.stdout.splitlines()])
  for x in (d + "/mod", d + "/mod.cpp"):
    if os.path.exists(x):
      os.unlink(x)
  return CACHE[key]


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = R()
  CACHE.clear()
  mods, ops = plan["mods"], plan["ops"]
  kw = {}
  if req.get("sched") is not None:
    kw["replay"] = mlirsrv.flat(req["sched"])
  x = mlirsrv.call(box, [real(o, mods) for o in ops], threads=plan["threads"], weights=plan["weights"], sched=plan["schedseed"], alloc=plan["alloc"],
                   placed=1, reuse=plan["reuse"], preempt=plan["preempt"], **kw)
  c.ops = len(ops)
  if "crash" in x:
    c.note("crash", x["crash"], x["err"][:200])
    c.add("C28", "crash", "crash", "the process died (%s) while emitting: %s" % (x["crash"], x["err"][-300:]))
    return finish(c, x)
  bad = set()
  for o, a in leaves(ops, x["res"]):
    if o[0] == "parse":
      (bad.discard if a.get("ok") else bad.add)(o[1])
      if not a.get("ok"):
        r.probes["modules that do not parse"] = r.probes.get("modules that do not parse", 0) + 1
    if o[0] != "emit" or a.get("nomod") or o[1] in bad:
      continue
    judge(c, r, box, plan, o, a)
    if c.viol:
      break
  return finish(c, x)


def judge(c, r, box, plan, o, a):
  m, e = o[1], o[2]
  fs = functions(plan, m)
  k = "%s %s" % (e, "emitted" if a.get("ok") else "refused")
  r.fired[k] = r.fired.get(k, 0) + 1
  c.note("emit", m, e, a.get("ok"), "%x" % h64(a.get("out", ""), str(a.get("diags"))))
  c.state(e, a.get("ok"), len(fs), (a.get("diags") or [""])[0][-40:])
  what = "module %d as %s" % (m, e)
  glob = plan["bads"][m] and "@kk" in "\n".join(plan["mods"][m]) or any("memref.global" in l for l in plan["mods"][m])
  want = metadata(fs) if e == "metadata" else None if glob else bindings(fs) or ...
  if want is ...:
    return
  if want is None:
    if a.get("ok"):
      return c.add("C28", "not-refused", "accepted:" + e, "%s succeeds although a part of it cannot be described: %s" % (what, a["out"][:200]))
    if not a.get("diags"):
      c.add("C28", "silent", "silent:" + e, "%s fails without a diagnostic" % what)
    return
  if not a.get("ok"):
    return c.add("C28", "refused", "refused:" + e, "%s fails: %s" % (what, (a.get("diags") or [""])[0][:200]))
  if e == "metadata":
    try:
      got = json.loads(a["out"])
    except ValueError as x:
      return c.add("C28", "not-json", "json", "%s is not JSON (%s): %s" % (what, x, a["out"][:200]))
    if got != want:
      g, w = got.get("functions") if isinstance(got, dict) else None, want["functions"]
      d = next((p for p in zip(g, w) if p[0] != p[1]), (g, w)) if isinstance(g, list) else (got, want)
      c.add("C28", "signature", "signature", "%s says %s instead of %s" % (what, json.dumps(d[0], sort_keys=True)[:300], json.dumps(d[1], sort_keys=True)[:300]))
    return
  err, rows = execute(box, a["out"], fs, o[4])
  r.fired["bindings executed"] = r.fired.get("bindings executed", 0) + 1
  if err:
    return c.add("C28", "does-not-compile", "compile", "the bindings of %s do not compile or run: %s" % (what, err))
  got, common, twice = set(), [], None
  for kind, mod, name, n, x in rows:
    if kind == "module":
      t = ("module",)
      if mod != o[5]:
        return c.add("C28", "module", "module", "the bindings of %s define module %s instead of %s" % (what, mod, o[5]))
    elif kind == "def":
      t = ("def",) + tuple(name.split("=", 1))
      if x != "0":
        return c.add("C28", "lock", "lock", "%s of %s runs with the interpreter lock held" % (name, what))
    elif kind == "class" and name in COMMON:
      common.append(name)
      continue
    elif kind == "class":
      t = ("class", name)
    elif kind == "field" and name.split(".")[0] not in COMMON:
      t = ("field", name, int(n))
    else:
      continue
    if t in got:
      twice = t
    got.add(t)
  if sorted(common) != sorted(COMMON):
    return c.add("C28", "binding", "common", "the bindings of %s register %s, expected each of %s once" % (what, common, sorted(COMMON)))
  if twice:
    return c.add("C28", "binding", "twice", "the bindings of %s register %s twice" % (what, twice))
  if got != want:
    c.add("C28", "binding", "binding", "the bindings of %s: missing %s, unexpected %s" % (what, sorted(want - got)[:4], sorted(got - want)[:4]))


def finish(c, x):
  st = x.get("stats", {})
  c.run.fired["thread switches"] = st.get("switches", 0)
  c.run.fired["freed blocks reused"] = st.get("reused", 0)
  out = c.result(len(c.plan["ops"]) > 3)
  out["sched"] = mlirsrv.pairs(x.get("trace", []))
  out["switches"] = st.get("switches", 0)
  out["order"] = "%x" % st.get("sched", 0) if st.get("switches") else ""
  out["tools"] = st.get("tasks", 0)
  return out
