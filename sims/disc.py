"""Simulation of toolchain discovery (C07): environments, file trees, directory
orders and histories of resolutions, against a reference of the documented order."""
import copy
import errno
import io
import os
import random
import re
import sys
import sysconfig

from dst import simple, world
from dst.world import h64

M = {}
_PIP = [None, None]


def prepare(scratch):
  world.install()
  import heir  # noqa
  if not heir.__file__.startswith("/repo/"):
    raise RuntimeError("heir is not imported from /repo: " + heir.__file__)
  import heir.backends.openfhe.config as oc
  import heir.backends.util.common as cm
  import heir.backends.util.cpp_compiler as cc
  import heir.heir_cli.heir_cli_config as hc
  M.update(oc=oc, cm=cm, cc=cc, hc=hc, heir=heir)
  rp, rpp = sysconfig.get_path, sysconfig.get_paths

  def get_paths(*a, **k):
    d = dict(rpp(*a, **k))
    if _PIP[0]:
      d["purelib"] = _PIP[0]
    if _PIP[1]:
      d["platlib"] = _PIP[1]
    return d

  def get_path(name, *a, **k):
    return get_paths(*a, **k)[name]
  sysconfig.get_paths = get_paths
  sysconfig.get_path = get_path


REDIR = re.compile(r"^/(usr/(local|include|lib64|lib(?!/python))|repo(/.*)?/bazel-|bazel-)")


class DRun(world.Run):
  nread = 0
  fault = None
  salt = 0

  def redirect(self, p):
    if REDIR.match(p):
      return self.scratch + "/root" + p
    return p

  def order(self, names, path):
    return sorted(names, key=lambda n: h64("o", self.seed, self.salt, path, n))

  def read_fault(self, op, p):
    if p.startswith(sys.prefix):
      return
    self.nread += 1
    f = self.fault
    if f and self.nread == f["n"] + 1:
      self.fault = None
      self.fire("read_" + f["kind"])
      e = getattr(errno, f["kind"].upper())
      raise OSError(e, os.strerror(e), p)


# ---------------------------------------------------------------- plans
ENVK = {
    "HEIR_OPT_PATH": ["BOX/e/heir-opt", "BOX/e2/heir-opt", "", "rel/heir-opt"],
    "HEIR_TRANSLATE_PATH": ["BOX/e/heir-translate", ""],
    "HEIR_ABC_BINARY": ["BOX/e/abc", ""],
    "HEIR_YOSYS_SCRIPTS_DIR": ["BOX/e/techmaps", ""],
    "HEIR_REPO_ROOT_MARKER": ["BOX/marker", "BOX/marker2", ""],
    "CXX": ["BOX/e/mycxx", "ccache g++"],
    "CC": ["BOX/e/mycc"],
    "PATH": ["BOX/p1:BOX/p2", "BOX/p2:BOX/p1", "BOX/p1", "BOX/none:BOX/p2", ""],
    "OPENFHE_INCLUDE_DIR": ["BOX/of/include/openfhe", "BOX/of/include/openfhe:BOX/of/include", "BOX/of/include:", "BOX/of/gone", "",
                            "BOX/of2/include/openfhe:BOX/of/x"],
    "OPENFHE_LIB_DIR": ["BOX/of/lib", "BOX/of2/lib", "BOX/of/gone", "", "of/lib"],
    "OPENFHE_LINK_LIBS": ["a:b", "openfhe", "", "a::b", ":"],
    "OPENFHE_INCLUDE_TYPE": ["source-relative", "install-relative"],
    "OPENFHE_DEBUG": ["1", "0"],
    "RUNFILES_DIR": ["BOX/rf", ""],
    "TEST_SRCDIR": ["BOX/rf2"],
}
ROOTS = ["/repo", "BOX/marker", "BOX/marker2", "/repo/frontend", ""]
DEVT = ["bazel-bin/tools/heir-opt", "bazel-bin/tools/heir-translate",
        "bazel-bin/tools/heir-opt.runfiles/_main/lib/Transforms/YosysOptimizer/yosys",
        "bazel-bin/tools/heir-opt.runfiles/abc/abc_bin", "bazel-bin/tools/heir-opt.runfiles/abc+/abc_bin"]
LIBN = ["libOPENFHEcore.so", "libOPENFHEpke.so", "libOPENFHEbinfhe.so", "libOPENFHEcore.so.1", "libOPENFHEcore.so.1.2.3",
        "libOPENFHEpke.so.1.2.3", "libOPENFHEbinfhe.so.1.2.3", "libOPENFHEpke.so.1.1.0", "libopenfhe.so", "libopenfhe.so.1",
        "libopenfhe.dylib", "libOPENFHEcore_static.a", "libm.so", "libopenfhe_extra.so", "libOPENFHEcore.dylib"]
PBIN = ["heir-opt", "heir-translate", "abc", "clang++", "clang", "g++", "gcc"]


def gen_path(rng):
  r = rng.random()
  if r < 0.3:
    return [rng.choice(ROOTS) + "/" + rng.choice(DEVT), rng.choice(["x", "x", "f", "d"])]
  if r < 0.55:
    return [rng.choice(["BOX/p1/", "BOX/p2/"]) + rng.choice(PBIN), rng.choice(["x", "x", "x", "f", "d"])]
  if r < 0.65:
    return [rng.choice(["/usr/local", "/usr"]) + "/include/openfhe" + rng.choice(["", "", "/core", "/pke", "/binfhe"]),
            rng.choice(["d", "d", "d", "f"])]
  if r < 0.72:
    return [rng.choice(["BOX/of/include/openfhe", "BOX/of/include", "BOX/of/x", "BOX/rf/of/lib", "/usr/local/lib",
                        "/usr/lib", "/usr/local/lib64", "/usr/lib64", "BOX/of2/include/openfhe"]), "d"]
  d = rng.choice(["/usr/local/lib/", "/usr/lib/", "/usr/local/lib64/", "/usr/lib64/", "BOX/of/lib/", "BOX/of2/lib/", "BOX/rf/of/lib/"])
  n = rng.choice(LIBN)
  kind = "f"
  if rng.random() < 0.3 and n.endswith(".so"):
    kind = "l:" + rng.choice([n + ".1.2.3", n + ".1", "gone"])
  elif rng.random() < 0.05:
    kind = "d"
  return [d + n, kind]


def generate(seed):
  rng = random.Random(h64("disc", seed))
  ops = []
  for k in ENVK:
    if rng.random() < (0.25 if k != "PATH" else 0.9):
      ops.append({"op": "env", "k": k, "v": rng.choice(ENVK[k])})
  full = rng.random()
  for _ in range(int(full * 28)):
    p, k = gen_path(rng)
    ops.append({"op": "fs", "p": p, "k": k})
  if rng.random() < 0.5:
    d = rng.choice(["/usr/local", "/usr", "BOX/of"])
    ops.append({"op": "fs", "p": d + "/include/openfhe", "k": "d"})
    for kind in ("core", "pke", "binfhe"):
      for suf in rng.sample(["", ".1", ".1.2.3", ".1.1.0"], rng.randint(1, 3)):
        ops.append({"op": "fs", "p": d + "/" + rng.choice(["lib", "lib", "lib64"]) + "/libOPENFHE" + kind + ".so" + suf, "k": "f"})
  for _ in range(rng.randint(4, 14)):
    r = rng.random()
    if r < 0.25:
      k = rng.choice(sorted(ENVK))
      ops.append({"op": "env", "k": k, "v": rng.choice(ENVK[k] + [None] * (k != "PATH"))})
    elif r < 0.45:
      p, k = gen_path(rng)
      prev = [o["p"] for o in ops if o["op"] == "fs"]
      if prev and rng.random() < 0.5:
        ops.append({"op": "fs", "p": rng.choice(prev), "k": None})
      else:
        ops.append({"op": "fs", "p": p, "k": k})
    elif r < 0.5:
      ops.append({"op": "pip", "v": rng.choice([None, "pure", "plat", "other"])})
    else:
      o = {"op": "res", "w": rng.choice(["heir", "heir", "heir", "openfhe", "openfhe", "openfhe", "openfhe_debug", "cxx", "cxx",
                                        "pip", "frompip", "installed", "ofenv", "root"])}
      if rng.random() < 0.15:
        o["fault"] = {"n": rng.randrange(14), "kind": rng.choice(["eacces", "eio", "enoent", "eloop", "estale"])}
      ops.append(o)
  return {"ops": ops, "simple": {}}


# ---------------------------------------------------------------- the reference
class Ref:

  def __init__(self, run, env):
    self.run, self.env = run, env

  def rp(self, p):
    return self.run.redirect(os.path.normpath(os.path.join(os.getcwd(), p)))

  def exists(self, p):
    return bool(p) and os.path.exists(self.rp(p))

  def isdir(self, p):
    return os.path.isdir(self.rp(p))

  def isfile(self, p):
    return os.path.isfile(self.rp(p))

  def which(self, n):
    for d in self.env.get("PATH", "").split(":"):
      if not d:
        continue
      p = d + "/" + n
      if self.isfile(p) and os.access(self.rp(p), os.X_OK):
        return p
    return None

  def root(self):
    m = self.env.get("HEIR_REPO_ROOT_MARKER")
    if m:
      return m
    p = "/repo/frontend/heir/backends/util"
    best = None
    while True:
      if self.exists((p if p != "/" else "") + "/bazel-bin"):
        best = p
      if p == "/":
        return best
      p = os.path.dirname(p)

  def tool(self, var, dev, name):
    if self.env.get(var):
      return self.env[var]
    if dev and self.exists(dev):
      return dev
    return self.which(name)

  def heir(self):
    r = self.root()
    j = lambda q: os.path.join(r, q) if r else ""
    out = []
    for var, q, n in (("HEIR_OPT_PATH", DEVT[0], "heir-opt"), ("HEIR_TRANSLATE_PATH", DEVT[1], "heir-translate")):
      t = self.tool(var, j(q), n)
      if t is None:
        return ("error", n)
      out.append(t)
    tm = self.env.get("HEIR_YOSYS_SCRIPTS_DIR") or (j(DEVT[2]) if r and self.exists(j(DEVT[2])) else "")
    abc = ""
    for q in (DEVT[3], DEVT[4]):
      if not abc and r and self.exists(j(q)):
        abc = j(q)
    t = self.tool("HEIR_ABC_BINARY", abc, "abc")
    return ("ok", [out[0], out[1], tm, t or ""])

  def libs(self, d):
    """-> list of acceptable values per position, or None for a set of other libraries"""
    if not self.isdir(d):
      return [["openfhe"]]
    kinds = {"core": [], "pke": [], "binfhe": [], "": []}
    for n in sorted(os.listdir(self.rp(d))):
      l = n.lower()
      if not self.isfile(d + "/" + n) or not (".so" in l or ".dylib" in l) or "openfhe" not in l:
        continue
      k = next((k for k in ("core", "pke", "binfhe") if k in l), "")
      q = d + "/" + n
      while os.path.islink(self.rp(q)):
        t = os.readlink(self.rp(q))
        q = t if t.startswith("/") else os.path.dirname(q) + "/" + t
      if not q.startswith("/"):
        q = os.path.join(os.getcwd(), q)
      kinds[k].append(q)
    if kinds["core"] and kinds["pke"] and kinds["binfhe"]:
      return [sorted(set(kinds[k])) for k in ("core", "pke", "binfhe")]
    if kinds[""]:
      return ("set", sorted(set(kinds[""])))
    return [["openfhe"]]

  def ofenv(self):
    e = self.env
    if not any(e.get(k) for k in ("OPENFHE_INCLUDE_DIR", "OPENFHE_LIB_DIR", "OPENFHE_LINK_LIBS")):
      return ("none", None)
    inc, lib = e.get("OPENFHE_INCLUDE_DIR", ""), e.get("OPENFHE_LIB_DIR", "")
    if not inc or not lib:
      return ("error", "OPENFHE_INCLUDE_DIR")
    incs = inc.split(":")
    if "RUNFILES_DIR" in e or "TEST_SRCDIR" in e:
      b = e["RUNFILES_DIR"] if "RUNFILES_DIR" in e else e["TEST_SRCDIR"]
      lib = os.path.join(b, lib)
      incs = [os.path.join(b, i) for i in incs]
    ll = e.get("OPENFHE_LINK_LIBS", "")
    libs = [[x] for x in ll.split(":") if x] if ll else self.libs(lib)
    extra = []
    for i in incs:
      # the parent of a directory called openfhe is searched as well
      if os.path.basename(i.rstrip("/")) == "openfhe":
        q = os.path.dirname(i.rstrip("/"))
        if q not in incs and q not in extra:
          extra.append(q)
    incs = [i for i in incs + extra if i]
    if not incs or not libs:
      return ("error", "OPENFHE")
    return ("ok", (incs, e.get("OPENFHE_INCLUDE_TYPE", "install-relative"), lib, libs))

  def installed(self):
    for pre in ("/usr/local", "/usr"):
      b = pre + "/include/openfhe"
      if not self.isdir(b):
        continue
      lib = None
      for l in ("lib", "lib64"):
        if self.isdir(pre + "/" + l) and self.libs(pre + "/" + l) != [["openfhe"]]:
          lib = pre + "/" + l
          break
      lib = lib or pre + "/lib"
      incs = [d for d in (b, b + "/binfhe", b + "/core", b + "/pke", pre + "/include") if self.exists(d)]
      return ("ok", (incs, "install-relative", lib, self.libs(lib)))
    return ("none", None)

  def openfhe(self):
    for f in (self.ofenv, self.installed):
      r = f()
      if r[0] != "none":
        return r
    r = self.root()
    if not r:
      return ("error", "")
    j = lambda *q: os.path.join(r, *q)
    x = "bazel-heir/external/openfhe+"
    return ("ok", ([j(x), j(x, "src/binfhe/include"), j(x, "src/core/include"), j(x, "src/pke/include"),
                    j("bazel-heir/external/cereal+/include")], "source-relative", j("bazel-bin/external/openfhe+"), [["openfhe"]]))

  def cxx(self):
    c = self.env.get("CXX") or self.env.get("CC")
    if c:
      return ("ok", c)
    for n in ("clang++", "clang", "g++", "gcc"):
      w = self.which(n)
      if w:
        return ("ok", w)
    return ("error", "C++ compiler")


def same(ref, got):
  """Is a returned OpenFHE configuration what the reference says?"""
  incs, typ, lib, libs = ref
  gi, gt, gl, gls = got
  if gi != incs or gt != typ or gl != lib:
    return False
  if isinstance(libs, tuple):
    return sorted(set(gls)) == libs[1]
  return len(gls) == len(libs) and all(g in w for g, w in zip(gls, libs))


# ---------------------------------------------------------------- execution
def do(c, run, w):
  oc, hc = M["oc"], M["hc"]
  conv = lambda x: None if x is None else [[str(i) for i in x.include_dirs], str(x.include_type), str(x.lib_dir), [str(i) for i in x.link_libs]]
  hv = lambda x: [str(x.heir_opt_path), str(x.heir_translate_path), str(x.techmap_dir_path), str(x.abc_path)]
  if w == "heir":
    return hv(hc.from_os_env())
  if w == "frompip":
    return hv(hc.from_pip_installation())
  if w == "openfhe":
    return conv(oc.resolve_config())
  if w == "openfhe_debug":
    return conv(oc.resolve_config(debug=True))
  if w == "installed":
    return conv(oc.get_default_installed_config())
  if w == "ofenv":
    return conv(oc.from_os_env())
  if w == "cxx":
    return str(M["cc"].CppCompilerBackend().compiler_binary_path)
  if w == "pip":
    return M["cm"].is_pip_installed()
  if w == "root":
    r = M["cm"].get_repo_root()
    return None if r is None else str(r)


def run(req, box):
  seed = req["seed"]
  plan = req.get("plan") or generate(seed)
  c = simple.Ctx(req, box, plan)
  r = c.run = DRun(box)
  B = lambda p: None if p is None else p.replace("BOX", box)
  for d in ("work", "root", "e", "p1", "p2"):
    os.mkdir(box + "/" + d)
  os.chdir(box + "/work")
  os.environ.clear()
  os.environ.update({"HOME": box, "USER_KEEP": "1", "PATH": ""})
  so, se = sys.stdout, sys.stderr
  sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
  pip = None
  world.begin(r, h64(seed))
  try:
    for i, o in enumerate(plan["ops"]):
      if o["op"] == "env":
        if o["v"] is None:
          os.environ.pop(o["k"], None)
        else:
          os.environ[o["k"]] = B(o["v"])
      elif o["op"] == "fs":
        with world.quietly():
          set_fs(r, B(o["p"]), o["k"])
      elif o["op"] == "pip":
        pip = o["v"]
        _PIP[0] = {"pure": "/repo/frontend", "other": "/somewhere/purelib"}.get(pip)
        _PIP[1] = {"plat": "/repo/frontend", "other": "/somewhere/platlib"}.get(pip)
      else:
        resolve(c, r, o, i, pip, box)
  finally:
    world.end()
    _PIP[:] = [None, None]
    sys.stdout, sys.stderr = so, se
  for e in r.escapes:
    c.add("C07", "resolving-changes", "write:%s" % e[0], "resolving wrote to the file system: %s" % e)
  return c.result(nontrivial=any(o["op"] == "res" for o in plan["ops"]))


def set_fs(r, p, k):
  q = r.redirect(os.path.normpath(p))
  if os.path.islink(q) or os.path.isfile(q):
    os.unlink(q)
  elif os.path.isdir(q):
    if k == "d":
      return
    import shutil
    shutil.rmtree(q)
  if k is None:
    return
  try:
    os.makedirs(os.path.dirname(q), exist_ok=True)
    if k == "d":
      os.mkdir(q)
    elif k.startswith("l:"):
      os.symlink(k[2:], q)
    else:
      with open(q, "w") as f:
        f.write("x")
      os.chmod(q, 0o755 if k == "x" else 0o644)
  except OSError:
    pass  # a parent is a file in this tree


def resolve(c, r, o, i, pip, box):
  w = o["w"]
  c.ops += 1
  env0, cwd0, path0 = dict(os.environ), os.getcwd(), list(sys.path)
  with world.quietly():
    tree0 = simple.tree(box)
    ref = Ref(r, env0)
    if w == "heir":
      want = ref.heir()
    elif w in ("openfhe", "openfhe_debug"):
      want = ref.openfhe()
    elif w == "installed":
      want = ref.installed()
    elif w == "ofenv":
      want = ref.ofenv()
    elif w == "cxx":
      want = ref.cxx()
    elif w == "pip":
      want = ("ok", pip in ("pure", "plat"))
    elif w == "root":
      rt = ref.root()
      want = ("ok", rt) if rt else ("none", None)
    elif w == "frompip":
      want = ("ok", ["/repo/frontend/heir/" + x for x in ("heir-opt", "heir-translate", "techmaps", "abc")]) if pip in (
          "pure", "plat") else ("error", "")
  outs = []
  fault = o.get("fault")
  for salt in ((1,) if fault else (1, 2)):
    r.salt, r.nread, r.fault = salt, 0, fault
    try:
      v = do(c, r, w)
      outs.append(("none", None) if v is None else ("ok", v))
    except Exception as e:
      outs.append(("error", "%s: %s" % (type(e).__name__, e)))
    fired = fault is not None and r.fault is None
    r.fault = None
  got = outs[0]
  c.note(i, w, got, "fault" if fired else "")
  c.state(w, want[0], got[0], str(want[1])[:60])
  if want[0] == "error":
    r.probe("required_tool_missing")
  with world.quietly():
    tree1 = simple.tree(box)
  if dict(os.environ) != env0 or os.getcwd() != cwd0 or list(sys.path) != path0 or tree1 != tree0:
    c.add("C07", "resolving-changes", "changed:" + w, "resolving %s changed the environment, the working directory, the module "
          "path or the file system" % w)
  if len(outs) > 1 and outs[0] != outs[1]:
    c.add("C07", "enumeration-order", "order:" + w.split("_")[0], "%s gives %s with one directory order and %s with another" % (w, outs[0], outs[1]))
  if fired:
    return
  if want[0] == "error":
    if got[0] != "error":
      c.add("C07", "missing-tool-not-reported", "missing:" + w.split("_")[0], "%s gives %s although nothing is there" % (w, got))
    elif want[1] and want[1] not in got[1]:
      c.add("C07", "missing-tool-not-reported", "missing-text:" + w, "the error for %s does not name %s: %s" % (w, want[1], got[1]))
    return
  ok = got[0] == want[0]
  if ok and want[0] == "ok":
    if w in ("openfhe", "openfhe_debug", "installed", "ofenv"):
      ok = same(want[1], got[1])
    else:
      ok = got[1] == want[1]
  if not ok:
    c.add("C07", "wrong-resolution", "wrong:" + w.split("_")[0], "%s gives %s, the documented order gives %s" % (w, got, want))
