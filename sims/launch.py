"""Simulation of the installed launchers and of missing extras (C08): exec and
module lookup are simulated; each run is a fresh interpreter state."""
import errno
import importlib
import importlib.machinery as im
import io
import os
import random
import sys

from dst import simple, world
from dst.world import h64

BLOCK = set()
PROV = {"python": ("numba", "numpy", "colorama", "llvmlite"), "openfhe": ("pybind11", "colorama")}


def prepare(scratch):
  world.install()
  import re, json, pathlib, importlib.resources, sysconfig, typing, dataclasses, platform, traceback, shutil, tempfile  # noqa
  real = im.PathFinder.find_spec.__func__

  def find_spec(cls, fullname, path=None, target=None):
    if fullname.split(".")[0] in BLOCK:
      return None
    return real(cls, fullname, path, target)
  im.PathFinder.find_spec = classmethod(find_spec)
  if any(m == "heir" or m == "numba" for m in sys.modules):
    raise RuntimeError("heir or numba is loaded before the run")


class Exec(BaseException):
  """The process image was replaced."""


class LRun(world.Run):

  def redirect(self, p):
    if p.startswith("/repo/frontend/") and os.path.basename(p) in ("heir-opt", "heir-translate"):
      return self.scratch + "/root" + p
    return p

  def os_execv(self, path, argv):
    return self.os_execve(path, argv, dict(os.environ))

  def os_execve(self, path, argv, env):
    path = os.fspath(path)
    self.attempts.append([path, list(argv), dict(env)])
    if self.exec_fault:
      e = getattr(errno, self.exec_fault)
      self.fire("exec_" + self.exec_fault.lower())
      raise OSError(e, os.strerror(e), path)
    q = self.redirect(world._abspath_at(path))
    if not os.path.exists(q):
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    if os.path.isdir(q) or not os.access(q, os.X_OK):
      raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)
    raise Exec()

  def os_execvp(self, path, argv):
    return self.os_execve(path, argv, dict(os.environ))

  def os_execvpe(self, path, argv, env):
    return self.os_execve(path, argv, env)

  def spawn_begin(self, p):
    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), str(p._argv[0]))


ARGS = ["", "--help", "-o", "out.mlir", "a b", "--pass-pipeline=builtin.module(func.func(cse))", "'", '"', "\\", "$HOME", "*", "é", "日本",
        "-", "--", "\n", "x=1 y=2", "\udc80bad", "--mlir-to-bgv=a=1 b={2}", "%s", "{}"]


def generate(seed):
  rng = random.Random(h64("launch", seed))
  ops = []
  if rng.random() < 0.6:
    for _ in range(rng.randint(1, 6)):
      ops.append({"op": "run", "tool": rng.choice(["heir-opt", "heir-translate"]),
                  "pkg": rng.choice([None, "x", "x", "x", "f", "d", "dangling", "link"]),
                  "parent": rng.choice([None, None, "x", "f"]),
                  "other": rng.choice([None, "x"]),
                  "args": [rng.choice(ARGS) for _ in range(rng.choice([0, 1, 2, 3, 7]))],
                  "argv0": rng.choice(["heir-opt", "/usr/bin/heir-translate", "x y"]),
                  "fault": rng.choice([None] * 5 + ["EACCES", "ENOEXEC", "ENOENT", "E2BIG", "ENOMEM", "ETXTBSY"])})
    return {"mode": "launch", "ops": ops, "simple": {}}
  st = {"python": rng.random() < 0.4, "openfhe": rng.random() < 0.5}
  ops.append({"op": "extras", **st})
  ops.append({"op": "import"})
  for _ in range(rng.randint(2, 7)):
    r = rng.random()
    if r < 0.35:
      k = rng.choice(["python", "openfhe"])
      st[k] = True
      ops.append({"op": "extras", **st})
    else:
      ops.append({"op": "use", "how": rng.choice(["decorator", "decorator", "mlir", "backend", "options"])})
  return {"mode": "extras", "ops": ops, "simple": {}}


def place(r, p, kind):
  q = r.redirect(p)
  if os.path.lexists(q):
    if os.path.isdir(q) and not os.path.islink(q):
      os.rmdir(q)
    else:
      os.unlink(q)
  if kind is None:
    return
  os.makedirs(os.path.dirname(q), exist_ok=True)
  if kind == "d":
    os.mkdir(q)
  elif kind == "dangling":
    os.symlink(q + ".gone", q)
  elif kind == "link":
    with open(q + ".real", "w") as f:
      f.write("x")
    os.chmod(q + ".real", 0o755)
    os.symlink(os.path.basename(q) + ".real", q)
  else:
    with open(q, "w") as f:
      f.write("x")
    os.chmod(q, 0o755 if kind == "x" else 0o644)


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = LRun(box)
  r.attempts, r.exec_fault = [], None
  os.mkdir(box + "/work")
  os.chdir(box + "/work")
  os.environ.clear()
  os.environ.update({"HOME": box, "PATH": "", "HEIR_OPT_PATH": box + "/t/heir-opt", "HEIR_TRANSLATE_PATH": box + "/t/heir-translate",
                     "OPENFHE_INCLUDE_DIR": box + "/o/include", "OPENFHE_LIB_DIR": box + "/o/lib", "NUMBA_DISABLE_CUDA": "1"})
  so, se, sa = sys.stdout, sys.stderr, sys.argv
  world.begin(r, h64(req["seed"]))
  try:
    (launch if plan["mode"] == "launch" else extras)(c, r, plan)
  finally:
    world.end()
    BLOCK.clear()
    sys.stdout, sys.stderr, sys.argv = so, se, sa
  return c.result(len(plan["ops"]) > 1)


def launch(c, r, plan):
  BLOCK.update(("numba", "numpy", "colorama", "pybind11"))  # the launchers need none of them
  import heir.entrypoints as ep
  for i, o in enumerate(plan["ops"]):
    c.ops += 1
    t = o["tool"]
    other = "heir-translate" if t == "heir-opt" else "heir-opt"
    with world.quietly():
      place(r, "/repo/frontend/heir/" + t, o["pkg"])
      place(r, "/repo/frontend/" + t, o["parent"])
      place(r, "/repo/frontend/heir/" + other, o["other"])
    r.attempts, r.exec_fault = [], o["fault"]
    sys.argv = [o["argv0"]] + list(o["args"])
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    env = dict(os.environ)
    try:
      (ep.run_heir_opt if t == "heir-opt" else ep.run_heir_translate)()
      end = "returned"
    except Exec:
      end = "exec"
    except SystemExit as e:
      code = e.code
      if isinstance(code, str):
        sys.stderr.write(code)
        code = 1
      end = "exit 0" if code in (None, 0) else "exit"
    except Exception as e:
      sys.stderr.write(str(e))
      end = "raise"
    err = sys.stderr.getvalue()
    c.note(i, t, o["pkg"], o["parent"], o["fault"], end, r.attempts)
    c.state(t, o["pkg"], o["parent"], o["fault"], end, len(o["args"]))
    here = o["pkg"] in ("x", "f", "d", "link")
    up = o["parent"] in ("x", "f")
    usable = "/repo/frontend/heir/" + t if o["pkg"] in ("x", "link") else ("/repo/frontend/" + t if not here and o["parent"] == "x" else None)
    if end in ("returned", "exit 0"):
      c.add("C08", "false-success", "success:" + end, "%s ended with success although no binary ran (package: %s, parent: %s, fault: %s)" % (
          t, o["pkg"], o["parent"], o["fault"]))
      continue
    if end == "exec":
      path, argv, en = r.attempts[-1]
      if argv[1:] != o["args"]:
        c.add("C08", "arguments-changed", "args", "%s was given %r, the binary gets %r" % (t, o["args"], argv[1:]))
      if os.path.basename(path) != t or (usable and path != usable):
        c.add("C08", "wrong-binary", "binary", "%s runs %s" % (t, path))
      if en != env:
        c.add("C08", "environment-changed", "env", "the environment of the binary differs from the caller's")
    elif usable and not o["fault"]:
      c.add("C08", "not-launched", "not-launched", "%s has a binary at %s but ends with %s: %s" % (t, usable, end, err[-200:]))
    if not here and not up:
      r.probe("binary_missing")
      if end == "exec":
        c.add("C08", "wrong-binary", "missing", "no binary, yet something ran: %s" % r.attempts)
      elif end == "raise" or t not in err:
        c.add("C08", "no-message", "no-message", "%s is missing: ended with %s, stderr %r" % (t, end, err[-200:]))


def extras(c, r, plan):
  heir = None
  missing = set()
  sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
  for i, o in enumerate(plan["ops"]):
    c.ops += 1
    if o["op"] == "extras":
      have = set()
      for k in PROV:
        if o[k]:
          have.update(PROV[k])
      missing = {m for v in PROV.values() for m in v} - have
      if not missing >= BLOCK:
        r.probe("dependency_appeared")
      BLOCK.clear()
      BLOCK.update(missing)
      importlib.invalidate_caches()
      continue
    if o["op"] == "import":
      try:
        import heir
      except Exception as e:
        c.add("C08", "import-fails", "import:" + type(e).__name__, "import heir fails without %s: %r" % (sorted(missing), e))
        return
      loaded = [m for m in ("numba", "numpy", "pybind11", "colorama") if m in sys.modules]
      if loaded:
        c.add("C08", "import-loads-optional", "loads:" + loaded[0], "import heir loads %s" % loaded)
      continue
    if heir is None:
      continue
    how = o["how"]
    want = None
    if "numba" in missing:
      want = ("numba", "python")
    elif "pybind11" in missing and how != "backend":
      want = ("pybind11", "openfhe")
    try:
      if how == "decorator":
        v = heir.compile()
      elif how == "options":
        v = heir.compile(scheme="ckks", heir_opt_options=["--x"])
      elif how == "mlir":
        v = heir.compile("func.func @f() { return }")
      else:
        v = heir.compile(backend=object())
      res = ("ok", callable(v))
    except ImportError as e:
      res = ("import", str(e))
    except BaseException as e:
      res = (type(e).__name__, str(e))
    c.note(i, how, sorted(missing), res[0], str(res[1])[:100])
    c.state(how, sorted(missing), res[0])
    if want:
      r.probe("extra_missing")
      if res[0] != "import":
        c.add("C08", "missing-extra-not-reported", "extra:%s:%s" % (want[0], res[0]), "without %s, compile (%s) gives %s instead of an ImportError" % (
            want[0], how, res))
      elif want[0] not in res[1] or want[1] not in res[1]:
        c.add("C08", "missing-extra-not-reported", "extra-text:" + want[0], "the ImportError names neither or only one of %s: %s" % (want, res[1]))
    elif res[0] == "import" or (how != "mlir" and res != ("ok", True)):
      c.add("C08", "feature-unavailable", "unavailable:%s" % how, "every dependency is there, yet compile (%s) gives %s" % (how, res))
