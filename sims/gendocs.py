"""Simulation of scripts/docs (C12): documentation generated under seeded directory
orders, hash seeds, tool failures and file faults."""
import os
import random
import re
import sys
import types

from dst import script, simple, world
from dst.script import h64

SCRIPT = "/repo/scripts/docs/copy_tblgen_files.py"


def yaml_stub():
  m = types.ModuleType("yaml")

  def safe_load(t):
    out = {}
    for l in t.split("\n"):
      if ":" in l:
        k, v = l.strip().split(":", 1)
        v = v.strip()
        out[k] = int(v) if v.isdigit() else v
    return out or None
  m.safe_load = safe_load
  m.dump = lambda d, **k: "".join("%s: %s\n" % (x, d[x]) for x in (sorted(d) if k.get("sort_keys", True) else d))
  return m


def prepare(scratch):
  world.install()
  import runpy, pathlib, shutil, fire, fire.core, glob, re, collections  # noqa
  sys.modules["yaml"] = yaml_stub()
  world.install_clock()


class DRun(script.SRun):

  def __init__(self, scratch):
    super().__init__(scratch)
    self.root = scratch + "/w"
    self.tool = {}
    self.tool_calls = []
    self.tool_bad = []
    self.in_path = True
    self.exists = True

  def readable(self, path):
    # listing faults are left out: the glob module hides them by design
    return path.startswith(self.root) and os.path.splitext(path)[1] in (".md", ".mlir")

  def prog(self, argv, env, cwd, data):
    name = argv[0]
    if name == "FileCheck":
      return 0, b"", b""
    ok = (name == "heir-opt" and self.in_path) or os.path.normpath(os.path.join(cwd, name)) == self.root + "/bazel-bin/tools/heir-opt"
    if os.path.basename(name) != "heir-opt" or not ok or not self.exists:
      self.tool_bad.append(name)
      return 127, b"", b"sh: 1: %s: not found\n" % name.encode()
    files = [a for a in argv[1:] if not a.startswith("-")]
    src = b""
    if files and files[0] != "-":
      p = os.path.join(cwd, files[0])
      if not os.path.isfile(p):
        self.tool_bad.append(name)
        return 1, b"", b"cannot open %s\n" % files[0].encode()
      with open(p, "rb") as f:
        src = f.read()
    else:
      src = data
    n = len(self.tool_calls)
    self.tool_calls.append(argv)
    m = re.findall(rb"extok\d+", src)
    key = (m[0].decode() if m else "none") + ":" + ",".join(a for a in argv[1:] if a.startswith("--"))
    b = self.tool.get(str(n))
    if b:
      self.fire("tool_" + b)
      self.tool_bad.append(key)
      out = b"partial output of " + key.encode() + b"\n"
      return {"fail": (1, out, b"error: x\n"), "fail_quiet": (1, b"", b""), "signal": (-11, out, b""), "crash": (134, b"", b"PLEASE submit\n")}[b]
    prior = b"" if not data or files and files[0] != "-" else b" after " + b" ".join(re.findall(rb"ran\[[^\]]*\]", data))
    return 0, b"module {\n  // ran[" + key.encode() + b"]" + prior + b"\n}\n", b"warning\n" if n % 2 else b""


def generate(seed):
  rng = random.Random(h64("gendocs", seed))
  src, ex = {}, {}
  tok = [0]

  def t():
    tok[0] += 1
    return "TOK%d." % tok[0]

  def example():
    i = len(ex)
    f = "tests/Transforms/t%d/doctest.mlir" % i
    how = rng.choice(["plain", "plain", "pipe", "cont", "stdin", "two"])
    run = {"plain": "// RUN: heir-opt --pass-%d %%s | FileCheck %%s\n" % i, "pipe": "// RUN: heir-opt --pass-%d %%s | heir-opt --second=%d | FileCheck %%s\n" % (i, i),
           "cont": "// RUN: heir-opt --pass-%d \\\n// RUN:   --other %%s | FileCheck %%s\n" % i, "stdin": "// RUN: heir-opt --pass-%d < %%s | FileCheck %%s\n" % i,
           "two": "// RUN: heir-opt --pass-%d %%s | heir-opt --second | heir-opt --third | FileCheck %%s\n" % i}[how]
    if how == "stdin":
      run = "// RUN: heir-opt --pass-%d %%s\n" % i
    ex[f] = run + "\nfunc.func @f() { // extok%d\n  // CHECK: return\n  return\n}\n" % i
    return f

  def section(name, dup=False):
    b = "### `-%s`\n\n_Summary %s_\n\n" % (name, t())
    if rng.random() < 0.25:
      b += "    " * rng.randint(0, 1) + "(* example filepath=%s *)\n\n" % example()
    if rng.random() < 0.3:
      b += "#### Options\n\n```\n-opt %s\n```\n" % t()
    return b
  names = ["a-b", "annotate", "zzz", "secretize", "lwe-to-bgv", "X", "forward", "m1", "m2", "m3", "q"]
  rng.shuffle(names)
  pre = "<!-- Autogenerated by mlir-tblgen; don't manually edit -->\n"
  dialects = rng.sample(["LWE", "BGV", "CKKS", "Secret", "Mgmt"], rng.randint(1, 4))
  for i in range(rng.randint(1, 4)):
    n = rng.choice(["Secretize", "Foo", "Bar", "Baz"])
    where = rng.choice(["Transforms/%s/%sPasses.md" % (n, n), "Dialect/%s/Transforms/Passes.md" % rng.choice(dialects),
                        "Dialect/%s/Conversions/%sTo/%sTo.md" % (rng.choice(dialects), n, n), "Dialect/%s/Conversions/%sTo/%sToPasses.md" % (rng.choice(dialects), n, n)])
    src[where] = pre + "".join(section(names.pop() if names and rng.random() < 0.9 else "dup") for _ in range(rng.randint(1, 3)) if names)
  for d in dialects:
    for g in ("Dialect", "Attributes", "Types", "Ops"):
      if rng.random() < 0.8:
        src["Dialect/%s/IR/%s%s.md" % (d, d, g)] = pre + "# %s '%s' %s\n\n%s\n[TOC]\n" % (g, d.lower(), g, t())
      if rng.random() < 0.15:
        src["Dialect/%s/IR/Extra%s.md" % (d, g)] = "more %s %s\n" % (g, t())
    for x in rng.sample(["Enums.md", "Interfaces.md", "sub/Deep.md", "Zed.md", "OpsX.md"], rng.choice([0, 0, 1, 2, 3])):
      src["Dialect/%s/IR/%s" % (d, x)] = "## %s %s\n" % (x, t())
  if rng.random() < 0.3:  # conversions at other depths
    n = rng.choice(names) if names else "deep"
    src[rng.choice(["Dialect/%s/Conversions/Flat.md", "Dialect/%s/Conversions/A/B/Deep.md", "Dialect/%s/Sub/Conversions/A/AToB.md"]) % rng.choice(dialects)] = pre + section(n + "-deep")
  if rng.random() < 0.3:  # a dialect without documents of its own
    d = rng.choice(["Aa", "Zz"])
    src["Dialect/%s/%s" % (d, rng.choice(["IR/%s.h.inc" % d, "Transforms/Passes.h.inc", "Transforms/%sPasses.md" % d]))] = pre + section("of-" + d)
  if rng.random() < 0.5:
    src["Dialect/CMakeLists.txt"] = "x"
  ops = []
  for _ in range(rng.randint(1, 3)):
    o = {"op": "gen", "salt": rng.randrange(1, 1 << 20), "path": rng.choice(["bin", "bin", "bazel", "bazel", "noexec", "isdir"]), "tool": {}, "exists": rng.random() > 0.05, "path2": rng.choice(["bin", "bazel"])}
    if ex and rng.random() < 0.35:
      o["tool"][str(rng.randrange(2 * len(ex)))] = rng.choice(["fail", "fail_quiet", "signal", "crash"])
    o["fault"] = script.rand_fault(rng, {"write": (["ENOSPC", "EIO", "short", "kill"], 14), "mut": (["EACCES", "ENOSPC", "kill"], 16),
                                         "read": (["EIO", "EMFILE"], 25), "close": (["EIO"], 10), "spawn": (["EAGAIN"], 2)}, 0.25)
    ops.append(o)
  return {"src": src, "ex": ex, "ops": ops, "simple": {}}


def write_all(root, files):
  for f, b in files.items():
    p = os.path.join(root, f)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as fh:
      fh.write(b)


def read_docs(root):
  out = {}
  d = root + "/docs"
  for r, ds, fs in os.walk(d):
    ds.sort()
    for f in sorted(fs):
      with open(os.path.join(r, f)) as fh:
        out[os.path.relpath(os.path.join(r, f), d)] = fh.read()
  return out


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = DRun(box)
  c.cmp = {}
  salt = req.get("salt", 0)
  world.begin(r, req["seed"])
  try:
    with world.quietly():
      fresh(r, plan)
    for n, o in enumerate(plan["ops"]):
      c.ops += 1
      p = go(c, r, o, salt)
      docs = judge(c, r, n, o, plan, p)
      if p.ok:
        c.cmp[str(n)] = {"ok": True, "exc": "", "seq": [], "texts": [k + "\n" + docs[k] for k in sorted(docs)]}
      else:
        c.cmp[str(n)] = None
    # the same sources once more: over what earlier runs left, and in a fresh tree in another directory order
    calm = dict(plan["ops"][0] if plan["ops"] else {"salt": 5, "path": "bin"}, tool={}, exists=True, fault=None)
    outs = []
    for i in range(2):
      with world.quietly():
        if i:
          fresh(r, plan)
      p = go(c, r, dict(calm, salt=calm["salt"] * 31 + i, path=calm["path"] if not i else calm.get("path2", "bin")), salt)
      outs.append(judge(c, r, "calm%d" % i, calm, plan, p))
      if not p.ok:
        return c.result()
    for k in sorted(set(outs[0]) | set(outs[1])):
      if outs[0].get(k) != outs[1].get(k):
        a, b = outs[0].get(k, "").split("\n"), outs[1].get(k, "").split("\n")
        d = next(((x, y) for x, y in zip(a, b) if x != y), ("length %d" % len(a), "length %d" % len(b)))
        c.add("C12", "not-reproducible", "order", "%s differs between two directory orders (or over old output): %r vs %r" % (k, d[0][:120], d[1][:120]))
        break
    c.cmp["calm"] = {"ok": True, "exc": "", "seq": [], "texts": [k + "\n" + outs[1][k] for k in sorted(outs[1])]}
  finally:
    world.end()
  return c.result()


def fresh(r, plan):
  import shutil
  if os.path.exists(r.root):
    shutil.rmtree(r.root)
  write_all(r.root + "/bazel-bin/lib", plan["src"])
  write_all(r.root, plan["ex"])
  os.makedirs(r.root + "/docs/content/en/docs")
  os.makedirs(r.root + "/bin", exist_ok=True)
  os.makedirs(r.root + "/decoy1")
  os.makedirs(r.root + "/decoy2/heir-opt")
  with open(r.root + "/decoy1/heir-opt", "w") as f:
    f.write("x")
  os.chmod(r.root + "/decoy1/heir-opt", 0o644)
  for t in ("/bin/heir-opt", "/bazel-bin/tools/heir-opt"):
    os.makedirs(os.path.dirname(r.root + t), exist_ok=True)
    with open(r.root + t, "w") as f:
      f.write("x")
    os.chmod(r.root + t, 0o755)


def go(c, r, o, salt):
  r.begin_proc(o["fault"])
  r.scan_salt = o["salt"] + 1000003 * salt
  r.tool, r.tool_calls, r.tool_bad = o["tool"], [], []
  r.in_path, r.exists = o["path"] == "bin", o["exists"]
  env = {"PATH": {"bin": r.root + "/bin:", "noexec": r.root + "/decoy1:", "isdir": r.root + "/decoy2:"}.get(o["path"], "") + "/usr/bin", "HOME": c.box}
  p = script.execute(c, SCRIPT, [], r.root, env, pypath=["/repo"])
  c.tools += len(r.tool_calls)
  return p


def judge(c, r, n, o, plan, p):
  with world.quietly():
    docs = read_docs(r.root)
  c.note(n, p.status, p.err.strip().split("\n")[-1][-200:], len(r.tool_calls), r.tool_bad, h64(repr(sorted(docs.items()))))
  c.state(p.status, bool(r.hits), bool(r.tool_bad), len(plan["src"]), len(plan["ex"]), len(docs))
  if r.escapes:
    c.add("C12", "writes-elsewhere", "escape", "tried to write %s" % r.escapes[:2])
  if p.status != 0:
    if not r.hits and not r.tool_bad and p.status != -9:
      c.add("C12", "fails-without-fault", "status", "run %s: %s" % (n, p.err[-300:]))
    return docs
  if r.tool_bad:
    c.add("C12", "failed-example-shown", "example", "run %s exits 0 although the tool failed for %s" % (n, r.tool_bad[:2]))
  base = "content/en/docs/"
  passes = docs.get(base + "passes.md", "")
  heads = re.findall(r"^### .*$", passes, re.M)
  if not re.match(r"---\n(?:(?!---).)*title: Passes", passes, re.S) or passes.count("title: Passes") != 1:
    c.add("C12", "missing", "front matter", "run %s exits 0 and passes.md begins with %r" % (n, passes[:60]))
  if heads != sorted(heads):
    c.add("C12", "unsorted", "sections", "run %s: sections of passes.md are not sorted: %s" % (n, heads[:6]))
  for f, b in sorted(plan["src"].items()):
    ispass = f.endswith("Passes.md") or re.match(r"Dialect/.*/Conversions/.*\.md$", f)
    m = re.match(r"Dialect/([^/]+)/IR/.*\.md$", f)
    if not (ispass or m):
      continue
    name = "passes.md" if ispass else "Dialects/%s.md" % m.group(1)
    text = docs.get(base + name, "")
    for t in re.findall(r"TOK\d+\.", b):
      k = text.count(t)
      if k != 1:
        c.add("C12", "missing" if not k else "repeated", "in " + name.split("/")[0], "run %s exits 0 and %s holds the text %s of %s %d times" % (n, name, t, f, k))
        break
    if ispass:
      for h in re.findall(r"^### .*$", b, re.M):
        if heads.count(h) != sum(len(re.findall("^%s$" % re.escape(h), x, re.M)) for g, x in plan["src"].items() if g.endswith("Passes.md") or "/Conversions/" in g):
          c.add("C12", "repeated", "header", "run %s: %s appears %d times" % (n, h, heads.count(h)))
      for e in re.findall(r"example filepath=(\S+)", b):
        tok = re.search(r"extok\d+", plan["ex"][e]).group(0)
        flags = re.findall(r"--\S+", plan["ex"][e])
        stages = plan["ex"][e].count("heir-opt")
        last = flags[-1] if stages > 1 else ",".join(flags)
        if "(* example" in passes:
          c.add("C12", "example-missing", "placeholder", "run %s exits 0 with the example of %s not filled in" % (n, e))
        elif not re.search(r"```mlir\n(?:(?!```)[^\0])*// %s\n(?:(?!```)[^\0])*  return\n\}\n```" % tok, passes):
          c.add("C12", "example-missing", "input", "run %s exits 0 without the input of the example %s" % (n, e))
        elif not re.search(r"ran\[%s:%s\]" % (tok if stages == 1 else r"\w+", re.escape(last)), passes) or not re.search(r"\[%s:" % tok, passes):
          if not r.tool_bad:
            c.add("C12", "example-missing", "output", "run %s exits 0 without the output of the example %s" % (n, e))
  if docs and len(plan["ops"]) and any(x.startswith(base + "Dialects/") and not re.search(r"Dialect/%s/IR/.*\.md" % re.escape(x[len(base) + 9:-3]), " ".join(plan["src"])) for x in docs):
    c.add("C12", "unknown-dialect", "dialect", "run %s wrote a document for no dialect: %s" % (n, sorted(docs)))
  return docs
