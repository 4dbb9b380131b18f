"""Simulation of emitted programs (C27): generated modules are emitted as Rust by the real
emitters, compiled by rustc against stand-ins for tfhe and rayon, and run; the stand-in
scheduler runs the tasks of a parallel level in seeded orders.  Every result is compared with
what the module computes."""
import json
import os
import random
import re
import subprocess
import sys

from dst import simple
from dst.world import h64
from sims import mlirsrv, tgen, tref

SRV = None
N = 0
SERVER = r"""
import os, subprocess, sys
base = sys.argv[1]
rustc = open(base + "/rustc.path").read()
print("ready", flush=True)
for line in sys.stdin:
  src, out, tok = line.rstrip("\n").split("\t")
  with open(out + ".log", "w") as f:
    p = subprocess.run(["timeout", "-s", "KILL", "100", rustc, "--edition", "2021", "--crate-name", "gen", "--cap-lints", "allow", "-C", "debuginfo=0",
                        "-C", "opt-level=0", "-C", "incremental=", "-L", base, "--extern", "tfhe=%s/libtfhe.rlib" % base, "--extern",
                        "rayon=%s/librayon.rlib" % base, "--error-format=short", src, "-o", out], stdout=f, stderr=subprocess.STDOUT,
                       cwd="/", stdin=subprocess.DEVNULL)
  os.chmod(out + ".log", 0o644)
  if os.path.exists(out):
    os.chmod(out, 0o755)
  print(tok, p.returncode, flush=True)
"""


class R:

  def __init__(self):
    self.fired, self.probes, self.clock_us = {}, {}, 0


def prepare(scratch):
  global SRV
  mlirsrv.prepare(scratch)
  base = os.path.join(os.path.dirname(scratch), "bin")
  SRV = subprocess.Popen([sys.executable, "-c", SERVER, base], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0, cwd="/")
  if SRV.stdout.readline() != b"ready\n":
    raise RuntimeError("the rustc server did not start")


def rustc(src, out):
  global N
  N += 1
  tok = "%d-%d" % (os.getpid(), N)
  os.write(SRV.stdin.fileno(), ("%s\t%s\t%s\n" % (src, out, tok)).encode())
  buf = b""
  while True:
    while b"\n" not in buf:
      d = os.read(SRV.stdout.fileno(), 4096)
      if not d:
        raise RuntimeError("the rustc server is gone")
      buf += d
    line, buf = buf.split(b"\n", 1)
    w = line.decode().split()
    if w[0] == tok:
      break
  with open(out + ".log", errors="replace") as f:
    return int(w[1]), f.read()


EM = {"tfhe": ["tfhe", "tfhe-levels"], "bool": ["bool"], "hl": ["hl"]}


def generate(seed):
  rng = random.Random(h64("rustgen", seed))
  mods, fams = [], []
  for i in range(rng.choice([6, 10, 14])):
    fam = rng.choice(["tfhe", "tfhe", "bool", "hl"])
    mods.append(tgen.module(rng, fam, rng.choice([1, 2, 3]), {"argstore": 1, "steps": fam == "tfhe" and rng.random() < 0.4, "boolloops": 1,
                                                             "len": rng.choice([(1, 6), (3, 25), (20, 50)])}))
    fams.append(fam)
  return {"mods": mods, "fams": fams, "alloc": rng.randrange(1, 1 << 30), "orders": [rng.randrange(1, 1 << 30) for _ in range(3)], "simple": {}}


def rtype(ty, fam):
  """-> (Rust expression builder for a value of the type, number of fingerprints)"""
  if ty.startswith(("tensor", "memref")):
    s, _ = tref.dims(ty)
    n = tref.size(s)

    def build(v):
      e = ["C(%d)" % x for x in v]
      if fam == "bool":
        return "vec![%s]" % ", ".join(e)
      for k in reversed(s):
        e = ["[%s]" % ", ".join(e[i:i + k]) for i in range(0, len(e), k)]
      return e[0]
    return build, n
  if "lookup_table" in ty:
    return (lambda v: "LookupTableOwned(%d)" % (v[0] & 255)), 1
  return (lambda v: "C(%d)" % v[0]), 1


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = R()
  mods, fams = plan["mods"], plan["fams"]
  ops = [["ctx", 0, 0]]
  want = []
  for i, m in enumerate(mods):
    ops.append(["parse", i, 0, "\n".join(m)])
    for e in EM[fams[i]]:
      want.append((i, e, len(ops)))
      ops.append(["emit", i, e, 0])
  x = mlirsrv.call(box, ops, threads=0, alloc=plan["alloc"], placed=1, reuse=60)
  c.ops = len(want)
  if "crash" in x:
    c.note("crash", x["crash"])
    c.add("C27", "crash", "crash", "the process died (%s) while emitting: %s" % (x["crash"], x["err"][-300:]))
    return c.result(True)
  src, expect, where = ["#![allow(warnings)]"], {}, []
  main = []
  for i, e, k in want:
    a = x["res"][k]
    if a.get("nomod") or not x["res"][[j for j, o in enumerate(ops) if o[0] == "parse" and o[1] == i][0]].get("ok"):
      c.note("unparsed", i)
      r.probes["modules that do not parse"] = r.probes.get("modules that do not parse", 0) + 1
      continue
    c.note("emit", i, e, a.get("ok"), "%x" % h64(a.get("out", ""), str(a.get("diags"))))
    if not a.get("ok"):
      c.add("C27", "refused", "refused:" + e, "module %d is refused by %s: %s" % (i, e, (a.get("diags") or ["no diagnostic"])[0][:300]))
      return c.result(True)
    fs, gl = tref.functions(mods[i])
    name = "m%d_%s" % (i, e.replace("-", "_"))
    lines = a["out"].split("\n")
    where.append((len(src) + 1, len(src) + 1 + len(lines), i, e))
    src += ["mod %s {" % name] + lines + ["}"]
    mod = "tfhe::shortint" if fams[i] == "tfhe" else "tfhe::boolean::prelude"
    for f, fn in fs.items():
      args, vals = [], []
      for j, (an, ty) in enumerate(fn[0]):
        if "server_key" in ty:
          if fams[i] != "hl":
            args.append("&ServerKey(0)")
          vals.append(0)
          continue
        build, n = rtype(ty, fams[i])
        v = [tref.h(99, [i, j, q]) for q in range(n)]
        if "lookup_table" in ty:
          v = [v[0] & 255]
        args.append("&" + build(v))
        vals.append(tref.Box(tref.dims(ty)[0], v) if ty.startswith(("tensor", "memref")) else v[0])
      try:
        ref = tref.execute(fn, gl, vals, fams[i] == "hl", fs)
      except tref.Undefined as u:
        r.probes["undefined: %s" % u] = r.probes.get("undefined: %s" % u, 0) + 1
        continue
      except tref.Odd as u:
        raise RuntimeError("reference: %s" % u)
      for s in plan["orders"] if e == "tfhe-levels" else plan["orders"][:1]:
        lab = "%d/%s/%s/%d" % (i, e, f, s)
        expect[lab] = " ".join("%x" % v for v in ref)
        use = "use tfhe::fhe as C;" if fams[i] == "hl" else "use %s::Ciphertext as C; use %s::ServerKey;" % (mod, mod)
        main.append("{ %s %s rayon::seed(%d); tfhe::call(%s, || super::%s::%s(%s)); }" % (
            use, "use tfhe::shortint::server_key::LookupTableOwned;" if fams[i] == "tfhe" else "", s, json.dumps(lab), name, f, ", ".join(args)))
  src += ["mod drive {"] + ["pub fn r%d() { %s }" % (k, l) for k, l in enumerate(main)] + ["}"]
  src += ["fn main() {", "std::panic::set_hook(Box::new(|_| {}));"] + ["drive::r%d();" % k for k in range(len(main))]
  src += ["let s = rayon::stats(); println!(\"stats {} {}\", s.0, s.1);", "}"]
  text = "\n".join(src) + "\n"
  rs, exe = os.path.join(box, "gen.rs"), os.path.join(box, "gen")
  with open(rs, "w") as f:
    f.write(text)
  rc, log = rustc(rs, exe)
  if rc:
    for m in re.finditer(r"gen\.rs:(\d+):\d+: error(.*)", log):
      n = int(m.group(1))
      for lo, hi, i, e in where:
        if lo <= n <= hi:
          c.note("rustc", i, e, m.group(2))
          c.add("C27", "does-not-compile", "rustc:%s:%s" % (e, m.group(2)[:8]), "module %d as %s is not a valid program: error%s at %r" % (
              i, e, m.group(2)[:200], src[n - 1].strip()[:160]))
          return c.result(True)
    raise RuntimeError("rustc failed outside the emitted code: %s" % log[-800:])
  p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, timeout=60, cwd=box, env={})
  got = {}
  for l in p.stdout.split("\n"):
    w = l.split(" ", 1)
    got[w[0]] = w[1] if len(w) > 1 else ""
  if p.returncode or "stats" not in got:
    c.add("C27", "aborts", "aborts", "the emitted programs end with status %s: %s" % (p.returncode, p.stdout[-300:]))
    return c.result(True)
  for lab, v in expect.items():
    i, e, f, s = lab.split("/")
    g = got.get(lab)
    c.note(lab, g == v, h64(g or ""))
    c.state(e, len(v) // 17, f)
    r.fired["programs run: " + e] = r.fired.get("programs run: " + e, 0) + 1
    if g != v:
      w = "panics: " + g[6:][:160] if g and g.startswith("panic") else "%s, the module computes %s" % (str(g)[:120], v[:120])
      c.add("C27", "wrong-result", "%s:%s" % ("panic" if g and g.startswith("panic") else "wrong", e), "@%s of module %s as %s (task order %s): %s" % (
          f, i, e, s, w))
      break
  t = got["stats"].split()
  r.fired["parallel tasks"] = int(t[0])
  r.fired["tasks run out of order"] = int(t[1])
  out = c.result(bool(expect))
  out["order"] = "%x" % h64(*plan["orders"]) if int(t[1]) else ""
  out["switches"] = int(t[1])
  out["tools"] = len(expect)
  return out
