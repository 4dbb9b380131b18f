"""Simulation of scripts/torch_ci/entrypoint.py (C10): simulated exports and
compiler runs over a history of coverage runs and changing model sets."""
import os
import random
import re
import shutil
import sys
import types

from dst import script, simple, world
from dst.script import h64

SRC = "/repo/scripts/torch_ci"


def prepare(scratch):
  world.install()
  import runpy, pathlib, re, shutil, unittest.mock  # noqa
  world.install_clock()


class TRun(script.SRun):

  def __init__(self, scratch):
    super().__init__(scratch)
    self.root = scratch + "/heir"
    self.models = self.root + "/scripts/torch_ci/models"
    self.c = None
    self.beh = {}
    self.runid = 0
    self.exports, self.opts, self.accepted = [], [], set()
    self.heir_opt = True
    self.spawns = 0
    self.spawn_bad = {}
    self.truth = {}

  def readable(self, path):
    return path.startswith(self.root)

  def spawn_begin(self, p):
    self.cur = None
    cmd = p._argv if isinstance(p._argv, str) else " ".join(p._argv)
    m = re.search(r"models/([^/ ]+)\.(py|mlir)\b", cmd)
    k = self.beh.get(m.group(1), {}) if m else {}
    stage = "export" if m and m.group(2) == "py" else "opt"
    if k.get("spawn") == stage:
      self.fire("spawn_eagain")
      self.truth[m.group(1)] = ("spawn", stage)
      raise BlockingIOError(11, "Resource temporarily unavailable tokspawn%s" % m.group(1))
    return super().spawn_begin(p)

  def shell(self, cmd, env, cwd, data, pipefail=False):
    self.last = None
    rc, out, err = super().shell(cmd, env, cwd, data, pipefail)
    m = re.search(r"models/([^/ ]+)\.(py|mlir)\b", cmd)
    if rc > 128 and m and self.beh.get(m.group(1), {}).get("group"):
      self.fire("shell_killed")  # the signal went to the whole process group
      rc = 128 - rc
    return rc, out, err

  def prog(self, argv, env, cwd, data):
    b = os.path.basename(argv[0])
    if b.startswith("python"):
      return self.export(argv, env, cwd)
    if b == "heir-opt":
      path = os.path.normpath(os.path.join(cwd, argv[0]))
      if not self.heir_opt or path != self.root + "/bazel-bin/tools/heir-opt":
        return 127, b"", b"sh: 1: %s: not found\n" % argv[0].encode()
      return self.opt(argv, cwd)
    return super().prog(argv, env, cwd, data)

  def export(self, argv, env, cwd):
    path = os.path.normpath(os.path.join(cwd, argv[-1]))
    m = os.path.splitext(os.path.basename(path))[0]
    k = self.beh.get(m)
    if k is None or not os.path.isfile(path):
      return 2, b"", b"python: can't open file\n"
    self.exports.append(m)
    e = k["export"]
    tok = b"tokexp%d%s" % (self.runid, m.encode())
    if e == "nomlir" and os.path.exists(self.models + "/%s.mlir" % m):
      e = "raise"
    self.truth[m] = ("export", e)
    if e == "raise":
      return 1, b"partial " + tok + b"\n", b"Traceback:\n  error: " + tok + b"\nValueError: x | y\n"
    if e == "exit3":
      return 3, b"", tok + b"\n"
    if e == "signal":
      return -11, b"", tok + b" Segmentation fault\n"
    if e == "bytes":
      return 1, b"\xff\xfe\n", tok + b" \x80\x81\n"
    if e == "nomlir":
      return 0, b"skipped\n", b""
    # the real common.py with a stand-in torch_mlir
    mods = {}
    tm, fx = types.ModuleType("torch_mlir"), types.ModuleType("torch_mlir.fx")
    runid = self.runid

    class OutputType:
      LINALG_ON_TENSORS = "linalg"
    fx.OutputType = OutputType
    fx.export_and_import = lambda model, *a, output_type=None, **kw: "module { // model=%s run=%d out=%s\n%s}\n" % (model, runid, output_type, "  // pad\n" * 200)
    tm.fx = fx
    mods["torch_mlir"], mods["torch_mlir.fx"] = tm, fx
    sys.modules.update(mods)
    saved = self.fault, dict(self.count), self.hits, dict(self.sticky)
    try:
      self.fault, self.count = None, {}
      if e == "enospc":
        self.fault = {"on": "write", "n": 0, "kind": "ENOSPC", "frac": k.get("frac", 0.5)}
      q = world.RUN.quiet
      world.RUN.quiet = 0
      try:
        p = script.execute(self.c, path, argv[2:], cwd, env, pypath=env.get("PYTHONPATH", "").split(":"), nested=True)
      finally:
        world.RUN.quiet = q
    finally:
      self.fault, self.count, self.hits, self.sticky = saved
      for x in mods:
        sys.modules.pop(x, None)
    out, err = p.out.encode(), p.err.encode()
    if e == "okbytes":
      out, err = b"\xff\xfe" + out, b"warning \xc3\n"
    if e == "oknoise":
      err = b"UserWarning: error: something | odd\n"
    if e == "kill" and p.status == 0:
      return -9, out, tok + b" Killed\n"
    return p.status, out, err + (tok if p.status else b"")

  def opt(self, argv, cwd):
    path = os.path.normpath(os.path.join(cwd, argv[-1]))
    m = os.path.splitext(os.path.basename(path))[0]
    k = self.beh.get(m, {"opt": "ok"})
    self.opts.append(m)
    tok = b"tokopt%d%s" % (self.runid, m.encode())
    try:
      with open(path) as f:
        text = f.read()
    except OSError as e:
      return 1, b"", b"error: " + tok + b" could not open input file\n"
    self.truth[m] = ("opt", k["opt"])
    g = re.search(r"model=(\S+) run=(\d+)", text)
    whole = text.endswith("}\n") and g
    if not whole:
      self.truth[m] = ("opt", "error")
      return 1, b"", b"%s:1:1: error: %s expected '}'\n" % (path.encode(), tok)
    o = k["opt"]
    if o == "ok" or o == "warn" or o == "okbytes":
      if int(g.group(2)) == self.runid and g.group(1) == m:
        self.accepted.add(m)
      return 0, b"module {}\n" + (b"\xff" if o == "okbytes" else b""), b"warning: | x\n" if o == "warn" else b""
    if o == "error":
      return 1, b"", b"%s:3:4: error: %s 'linalg.x' | failed\n  note: y\n" % (path.encode(), tok)
    if o == "unknown":
      return 1, b"x\n", b"<unknown>:0: error: %s unsupported\n" % tok
    if o == "plain":
      return 1, b"", b"%s: error: %s\n" % (path.encode(), tok)
    if o == "trace":
      return -6, b"", b"PLEASE submit a bug report to https://x and include the crash backtrace.\n" + tok + b"\n"
    if o == "signal":
      return -11, b"", tok + b"\n"
    if o == "silent":
      return 1, b"", b""
    if o == "bytes":
      return 1, b"\x80", b"%s:3:4: error: %s \xff\xfe\n" % (path.encode(), tok)
    if o == "long":
      return 1, b"", b"%s:3:4: error: %s %s\n" % (path.encode(), tok, b"x" * 5000)
    raise AssertionError(o)


NAMES = ["add", "bmm", "conv1d", "conv2d", "relu", "torch_select", "a", "z", "exp", "heir-opt", "mlir", "x.y"]
EXP = ["ok"] * 9 + ["raise", "exit3", "signal", "bytes", "nomlir", "enospc", "okbytes", "oknoise", "kill"]
OPT = ["ok"] * 5 + ["warn", "okbytes", "error", "unknown", "plain", "trace", "signal", "silent", "bytes", "long"]


def generate(seed):
  rng = random.Random(h64("torchci", seed))
  ops = []
  calm = rng.random() < 0.3
  for n in rng.sample(NAMES, rng.randint(0, 6)):
    ops.append({"op": "model", "m": n})
  for _ in range(rng.randint(1, 4)):
    if rng.random() < 0.25:
      ops.append({"op": rng.choice(["model", "drop", "stale"]), "m": rng.choice(NAMES)})
    beh = {n: {"export": rng.choice(EXP) if not calm else rng.choice(["ok", "ok", "raise"]), "opt": rng.choice(OPT), "frac": rng.choice([0, 0.5, 0.9]), "group": rng.random() < 0.4,
               "spawn": rng.choice([None] * 25 + ["export", "opt"])} for n in NAMES}
    ops.append({"op": "run", "beh": beh, "salt": rng.randrange(1 << 20), "summary": rng.choice(["file", "new", "unset"]), "heir_opt": rng.random() > 0.06,
                "cwd": "", "fault": script.rand_fault(rng, {"write": (["ENOSPC", "EIO", "short", "kill", "int"], 6), "mut": (["EACCES", "ENOSPC", "kill"], 6),
                                                           "read": (["EIO", "EMFILE"], 1), "close": (["EIO"], 3)}, 0.2)})
  return {"ops": ops, "junk": rng.randrange(8), "simple": {"junk": 0}}


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = TRun(box)
  r.c = c
  os.makedirs(r.models)
  for f in os.listdir(SRC):
    if f.endswith(".py") and not f.startswith("test_"):
      shutil.copyfile(SRC + "/" + f, r.root + "/scripts/torch_ci/" + f)
  if os.path.exists("/repo/scripts/__init__.py"):
    shutil.copyfile("/repo/scripts/__init__.py", r.root + "/scripts/__init__.py")
  if plan["junk"] & 1:
    os.mkdir(r.models + "/dir.py")
  if plan["junk"] & 2:
    open(r.models + "/notes.txt", "w").close()
    os.mkdir(r.models + "/__pycache__")
  if plan["junk"] & 4:
    os.mkdir(r.root + "/scripts/torch_ci/failure_logs")
  have = set()
  world.begin(r, req["seed"])
  try:
    for n, o in enumerate(plan["ops"]):
      c.ops += 1
      if o["op"] == "run":
        one(c, r, n, o, have)
        continue
      with world.quietly():
        p = "%s/%s.py" % (r.models, o["m"])
        if o["op"] == "model":
          with open(p, "w") as f:
            f.write("from scripts.torch_ci.common import export_and_save\nexport_and_save(%r, (1, 2), __file__)\n" % o["m"])
          have.add(o["m"])
        elif o["op"] == "drop" and os.path.exists(p):
          os.unlink(p)
          have.discard(o["m"])
        elif o["op"] == "stale":
          with open("%s/%s.mlir" % (r.models, o["m"]), "w") as f:
            f.write("module { // model=%s run=-1\n}\n" % o["m"])
  finally:
    world.end()
  return c.result(nontrivial=len(have) > 0)


def one(c, r, n, o, have):
  r.begin_proc(o["fault"])
  r.beh, r.runid, r.heir_opt, r.scan_salt = o["beh"], n, o["heir_opt"], o["salt"]
  r.exports, r.opts, r.accepted, r.truth = [], [], set(), {}
  env = {"PATH": "/usr/bin", "HOME": c.box}
  sm = c.box + "/summary.md"
  prior = ""
  if o["summary"] != "unset":
    env["GITHUB_STEP_SUMMARY"] = sm
    with world.quietly():
      if o["summary"] == "new" and os.path.exists(sm):
        os.unlink(sm)
      if os.path.exists(sm):
        with open(sm) as f:
          prior = f.read()
  p = script.execute(c, r.root + "/scripts/torch_ci/entrypoint.py", [], r.root, env)
  c.tools += len(r.exports) + len(r.opts)
  c.note(n, p.status, p.out, p.err.strip().split("\n")[-1][-200:], r.exports, r.opts)
  if r.escapes:
    c.add("C10", "writes-elsewhere", "escape", "tried to write %s" % r.escapes[:2])
  summary = ""
  if o["summary"] != "unset":
    with world.quietly():
      if os.path.exists(sm):
        with open(sm) as f:
          summary = f.read()
    if not summary.startswith(prior):
      c.add("C10", "summary-disturbed", "summary", "run %d changed what was in the step summary" % n)
  stats = {}
  for l in p.out.split("\n"):
    m = re.match(r"\| ([^|]*) \| ([^|]*) \|(.*)$", l)
    if m and m.group(1) not in ("Operator", "---"):
      stats.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
  for m, rows in stats.items():
    if m not in have:
      c.add("C10", "unknown-model", "row", "run %d reports %s, which is no model" % (n, m))
    elif len(rows) > 1:
      c.add("C10", "reported-twice", "row", "run %d reports %s %d times" % (n, m, len(rows)))
  if p.status == -9:
    return
  if p.status != 0:
    if not r.hits:
      c.add("C10", "stops", "status", "run %d ended with status %d although only models failed (%s): %s" % (
          n, p.status, {m: t for m, t in r.truth.items() if t[1] not in ("ok", "oknoise", "warn")}, p.err[-260:]))
    return
  exp = {}
  for m in sorted(have):
    b = o["beh"][m]
    t = r.truth.get(m)
    if t is None:
      exp[m] = ("never ran", "")
    elif t[0] == "spawn":
      exp[m] = ("FAIL (Export)" if t[1] == "export" else "FAIL (heir-opt)", "tokspawn" + m)
    elif t[0] == "export":
      bad = t[1] not in ("ok", "oknoise", "okbytes", "nomlir")
      tok = "tokexp%d%s" % (n, m)
      if bad:
        exp[m] = ("FAIL (Export)", "" if t[1] == "enospc" else tok)
      elif t[1] == "nomlir":
        exp[m] = ("FAIL (No MLIR)", "")
      elif not o["heir_opt"]:
        exp[m] = ("FAIL (heir-opt)", "not found")
      else:
        exp[m] = ("never compiled", "")
    else:
      ok = t[1] in ("ok", "warn", "okbytes")
      exp[m] = ("PASS", "") if ok else ("FAIL (heir-opt)", "" if t[1] == "silent" else "(stack trace)" if t[1] == "trace" else "tokopt%d%s" % (n, m))
  c.state(p.status, tuple(sorted((m, e[0]) for m, e in exp.items())), bool(r.hits))
  for m, (st, tok) in exp.items():
    if m not in stats:
      c.add("C10", "not-reported", "row", "run %d exits 0 and does not report %s" % (n, m))
      continue
    got, det = stats[m][0]
    if got == "PASS" and m not in r.accepted:
      c.add("C10", "false-pass", "PASS", "run %d reports %s as PASS; what happened: %s, heir-opt accepted in this run: %s" % (n, m, r.truth.get(m), sorted(r.accepted)))
    elif got != st:
      c.add("C10", "wrong-outcome", "%s for %s" % (got, st), "run %d reports %s as %r, what happened: %s" % (n, m, got, r.truth.get(m)))
    elif tok and tok not in det:
      c.add("C10", "wrong-details", "details", "run %d: the row of %s (%s) does not show that stage's error %r: %r" % (n, m, st, tok, det[:120]))
    elif not tok and st == "PASS" and re.search(r"tok(exp|opt)", det):
      c.add("C10", "wrong-details", "pass-details", "run %d: the row of %s is PASS with details %r" % (n, m, det[:120]))
    if st.startswith("FAIL"):
      stage = "export" if "Export" in st else "heir-opt"
      lp = "%s/scripts/torch_ci/failure_logs/%s_%s.log" % (r.root, m, stage)
      with world.quietly():
        text = None
        if os.path.exists(lp):
          with open(lp, errors="replace") as f:
            text = f.read()
      want = tok if tok != "(stack trace)" else "tokopt%d%s" % (n, m)
      if text is None:
        c.add("C10", "no-log", stage, "run %d: no log of the failure of %s (%s)" % (n, m, st))
      elif want and want not in text:
        c.add("C10", "wrong-log", stage, "run %d: the log of %s (%s) lacks the error %r: %r" % (n, m, st, want, text[:120]))
  if o["summary"] != "unset":
    tail = summary[len(prior):]
    rows = [l for l in p.out.split("\n") if l.startswith("| ")]
    if [l for l in tail.split("\n") if l.startswith("| ")] != rows:
      c.add("C10", "summary-differs", "summary", "run %d: the step summary does not hold the printed table" % n)
