"""The simulated toolchain around the Python frontend.

Real code: everything under /repo/frontend/heir, numba's front half, importlib.
Stand-ins: heir-opt, heir-translate and the C++ compiler (they parse, check and
carry the program through), the dynamic loader, the OpenFHE runtime.
"""
import errno
import json
import os
import re
import signal
import types

from dst import mlirlite, sched, world
from dst.world import h64

MAGIC = b"SIMSO1\n"


class OpCtx:
  """What one compile (or other) operation did, as seen from the seams."""

  def __init__(self, op, task):
    self.op = op
    self.task = task
    self.tools = []        # dicts: tool, argv, env, stdin, rc, out, err
    self.nfs = 0
    self.fs = []
    self.dirs = []         # directories made by mkdtemp-like calls
    self.must_fail = []    # [(why, token or None)]
    self.cleanup_fault = False
    self.fs_fault = False
    self.interrupted = False
    self.nimport = 0
    self.debug_files = []


# ---------------------------------------------------------------- crypto runtime
class SimCryptoError(RuntimeError):
  pass


class Key:

  def __init__(self, id, kind, pair):
    self.id, self.kind, self.pair = id, kind, pair


class KeyPair:

  def __init__(self, id):
    self.publicKey = Key(id, "pk", self)
    self.secretKey = Key(id, "sk", self)
    self.id = id


class CryptoContext:

  def __init__(self, rt, id, prog):
    self.rt, self.id, self.prog = rt, id, prog
    self.configured = set()
    self.keys = set()

  def KeyGen(self):
    sched.point("io")
    k = KeyPair(self.rt.next_id("key"))
    self.keys.add(k.id)
    return k


class Ciphertext:

  def __init__(self, ctx, key, value):
    self.ctx, self.key, self._v = ctx, key, value


class Runtime:

  def __init__(self):
    self.n = {}
    self.decs = 0

  def next_id(self, k):
    self.n[k] = self.n.get(k, 0) + 1
    return self.n[k]

  def bind(self, mod, f):
    name = f.name

    def gen():
      sched.point("io")
      return CryptoContext(self, self.next_id("ctx"), name)

    def conf(ctx, sk):
      sched.point("io")
      if not isinstance(ctx, CryptoContext) or not isinstance(sk, Key) or sk.kind != "sk":
        raise TypeError("incompatible function arguments")
      ctx.configured.add(sk.id)
      return ctx

    def mkenc(i):
      def enc(ctx, val, pk):
        sched.point("io")
        if not isinstance(ctx, CryptoContext) or not isinstance(pk, Key) or pk.kind != "pk":
          raise TypeError("incompatible function arguments")
        if isinstance(val, Ciphertext):
          raise TypeError("incompatible function arguments")
        if pk.id not in ctx.keys:
          raise SimCryptoError("public key does not belong to this context")
        ty = f.args[i][1]
        v = [int(x) for x in val] if ty.startswith("tensor") else (float(val) if ty.startswith("f") else int(val))
        return Ciphertext(ctx, pk.id, v)
      return enc

    def dec(ctx, ct, sk):
      sched.point("io")
      if not isinstance(ctx, CryptoContext) or not isinstance(ct, Ciphertext) or not isinstance(sk, Key) or sk.kind != "sk":
        raise TypeError("incompatible function arguments")
      if ct.ctx is not ctx:
        raise SimCryptoError("ciphertext was not created under this context")
      self.decs += 1
      if ct.key is not None and sk.id != ct.key:
        v = h64("garbage", sk.id, ct.key) & 0x7FFF
        return [v] * len(ct._v) if isinstance(ct._v, list) else v
      return ct._v

    def main(ctx, *args):
      sched.point("io")
      if not isinstance(ctx, CryptoContext) or len(args) != len(f.args):
        raise TypeError(f"{name}(): incompatible function arguments")
      vals, key = [], None
      for i, a in enumerate(args):
        if i in f.secret:
          if not isinstance(a, Ciphertext):
            raise TypeError(f"{name}(): incompatible function arguments")
          if a.ctx is not ctx:
            raise SimCryptoError("ciphertext was not created under this context")
          if a.key not in ctx.configured:
            raise SimCryptoError("no evaluation key for this key in the context")
          key = a.key
          vals.append(a._v)
        else:
          if isinstance(a, Ciphertext) or type(a).__name__ == "EncValue":
            raise TypeError(f"{name}(): incompatible function arguments")
          vals.append(a)
      return Ciphertext(ctx, key, mlirlite.run(f, vals))

    setattr(mod, name, main)
    setattr(mod, f"{name}__generate_crypto_context", gen)
    setattr(mod, f"{name}__configure_crypto_context", conf)
    setattr(mod, f"{name}__decrypt__result0", dec)
    for i in range(len(f.args)):
      if i in f.secret:
        setattr(mod, f"{name}__encrypt__arg{i}", mkenc(i))


# ---------------------------------------------------------------- the run
class FeRun(world.Run):

  def __init__(self, scratch):
    super().__init__(scratch)
    self.ctx = {}          # task idx -> OpCtx
    self.rt = Runtime()
    self.tool_runs = 0
    self.log = []
    self.allowed = []      # directories writable besides workspaces

  def cur_task(self):
    s = sched.ACTIVE
    t = s.current() if s is not None else None
    return t

  def cur(self):
    t = self.cur_task()
    while t is not None:
      c = self.ctx.get(t.idx)
      if c is not None:
        return c
      t = t.parent
    return self.ctx.get(None)

  def fault(self, c, pt, n):
    if c is None:
      return None
    for f in c.op.get("faults", ()):
      if f["pt"] == pt and f.get("n", 0) == n:
        return f
    return None

  # -- subprocess
  def spawn_begin(self, p):
    c = self.cur()
    if c is None:
      raise FileNotFoundError(errno.ENOENT, "no tool outside an operation", str(p.args))
    n = len(c.tools)
    if p._shell:
      import shlex
      argv = shlex.split(p._argv if isinstance(p._argv, str) else p._argv[0])
    else:
      argv = p._argv
    rec = {"n": n, "argv": list(argv), "env": p._env, "cwd": p._cwd, "rc": None}
    c.tools.append(rec)
    self.tool_runs += 1
    path = argv[0]
    with world.quietly():
      if "/" not in path:
        import shutil
        path = shutil.which(path, path=p._env.get("PATH", "")) or path
      path = os.path.join(p._cwd, path)
      ok = os.path.isfile(path)
      ex = ok and os.access(path, os.X_OK)
      real = os.path.realpath(path)
    rec["path"] = path
    rec["tool"] = os.path.basename(path)
    sched.point("io")
    f = self.fault(c, "tool", n)
    rec["fault"] = f["kind"] if f else None
    if f and f["kind"].startswith("spawn_"):
      e = {"spawn_enoent": errno.ENOENT, "spawn_eacces": errno.EACCES, "spawn_enomem": errno.ENOMEM,
           "spawn_eagain": errno.EAGAIN}[f["kind"]]
      self.fire(f["kind"])
      c.must_fail.append((f["kind"] + ":" + rec["tool"], None))
      rec["rc"] = "spawn"
      raise OSError(e, os.strerror(e), argv[0])
    if not ok or not real.startswith(self.scratch):
      c.must_fail.append(("missing:" + argv[0], None))
      rec["rc"] = "spawn"
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), argv[0])
    if not ex:
      c.must_fail.append(("not executable:" + argv[0], None))
      rec["rc"] = "spawn"
      raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), argv[0])
    p._rec, p._c = rec, c
    return rec

  def spawn_run(self, p, data):
    rec, c = p._rec, p._c
    rec["stdin"] = data.decode("utf-8", "replace")
    f = self.fault(c, "tool", rec["n"])
    kind = f["kind"] if f else None
    dur = 1000 + h64("dur", self.seed, c.op.get("id"), rec["n"]) % 400000
    if kind == "slow":
      self.fire("slow")
      dur *= 50
    sched.sleep(dur)
    if kind == "interrupt":
      self.fire(kind)
      c.interrupted = True
      c.must_fail.append(("interrupt", None))
      rec["rc"] = "interrupt"
      raise KeyboardInterrupt()
    token = "simdiag-%d-%d-%s" % (c.op.get("id", -1), rec["n"], rec["tool"])
    writes = kind not in ("exit", "sig", "noout")
    rc, out, err = self.tool(rec, c, data.decode("utf-8", "replace"), writes)
    if rc != 0:
      err += "\n" + token + "\n"
      c.must_fail.append(("rejected:" + rec["tool"], token))
      self.probe("tool_rejected_input")
    elif kind in ("exit", "exit_out"):
      self.fire(kind)
      rc = f.get("rc", 1)
      out = out if kind == "exit_out" else out[:len(out) // 2] if f.get("half") else ""
      err = "input.mlir:1:1: error: " + token + "\n"
      c.must_fail.append((kind + ":" + rec["tool"], token))
    elif kind in ("sig", "sig_out"):
      self.fire(kind)
      rc = -f.get("sig", signal.SIGSEGV)
      out = out if kind == "sig_out" else out[:len(out) // 3]
      err = "PLEASE submit a bug report to https://example.invalid\n" + token + "\n"
      c.must_fail.append((kind + ":" + rec["tool"], token))
    elif kind == "noout":
      self.fire(kind)
      out = ""
    elif kind == "badutf8":
      self.fire(kind)
      c.must_fail.append(("badutf8", None))
      return self._done(rec, 0, b"\xff\xfe" + out.encode(), err.encode())
    elif kind == "noise":
      self.fire(kind)
      err = err + "warning: harmless " + token + "\n"
    return self._done(rec, rc, out.encode(), err.encode())

  def _done(self, rec, rc, out, err):
    rec["rc"], rec["out"] = rc, out.decode("utf-8", "replace")
    sched.point("io")
    return rc, out, err

  def tool(self, rec, c, text, writes):
    name = rec["tool"]
    with world.quietly():
      try:
        if name.startswith("heir-opt"):
          return self.heir_opt(rec, text)
        if name.startswith("heir-translate"):
          return self.heir_translate(rec, text, writes)
        return self.cxx(rec, writes)
      except mlirlite.MlirError as e:
        return 1, "", "<stdin>:1:1: error: " + str(e)

  def heir_opt(self, rec, text):
    opts = rec["argv"][1:]
    for i, o in enumerate(opts):
      if not o.startswith("-"):
        return 1, "", "heir-opt: Too many positional arguments specified: " + o
    fs = mlirlite.parse(text)
    err = ""
    for o in opts:
      if o.startswith("--scheme-to-openfhe=entry-function="):
        want = o.split("=")[-1]
        if want not in [f.name for f in fs]:
          return 1, "", "error: entry function %s not found" % want
    if "--view-op-graph" in opts:
      err = "digraph G { /* %08x */ }" % (h64("g", text) & 0xFFFFFFFF)
    out = "// sim-stage %s\n" % " ".join(opts) + text
    return 0, out, err

  def heir_translate(self, rec, text, writes):
    opts = rec["argv"][1:]
    outp, flags, vals, i = None, [], {}, 0
    while i < len(opts):
      o = opts[i]
      if o == "-o":
        i += 1
        outp = opts[i]
      elif o.startswith("-o="):
        outp = o[3:]
      elif "=" in o:
        vals[o.split("=", 1)[0]] = o.split("=", 1)[1]
      else:
        flags.append(o)
      i += 1
    fs = mlirlite.parse(text)
    f = fs[0]
    if "--emit-function-info" in flags:
      out = f.name + "\n" + ", ".join(f.arg_names) + "\n" + ", ".join(map(str, f.secret)) + "\n"
    elif "--emit-openfhe-pke-header" in flags:
      out = "// SIMHDR " + json.dumps({"funcs": [x.name for x in fs]}) + "\n"
    elif "--emit-openfhe-pke-pybind" in flags:
      out = "// SIMPYB " + json.dumps({
          "module": vals.get("--pybind-module-name"), "include": vals.get("--pybind-header-include"),
          "funcs": [x.name for x in fs]}) + "\n"
    elif "--emit-openfhe-pke" in flags:
      out = "// SIMCPP " + json.dumps({"text": text}) + "\n"
    else:
      return 1, "", "heir-translate: no translation requested"
    if outp is None:
      return 0, out, ""
    if writes:
      p = os.path.join(rec["cwd"], outp)
      if not os.path.isdir(os.path.dirname(p)):
        return 1, "", "cannot open output file " + outp
      with world._R["open"](p, "w") as fh:
        fh.write(out)
    return 0, "", ""

  def cxx(self, rec, writes):
    a = rec["argv"][1:]
    src, out, incs, libs, i = [], None, [], [], 0
    while i < len(a):
      o = a[i]
      if o == "-o":
        i += 1
        out = a[i]
      elif o.startswith("-I"):
        incs.append(o[2:])
      elif o.endswith((".cpp", ".cc")):
        src.append(o)
      elif ".so" in os.path.basename(o) and not o.startswith("-"):
        libs.append(o)
      i += 1
    if len(src) != 1 or not out:
      return 1, "", "clang: error: no input files"
    ab = lambda p: os.path.join(rec["cwd"], p)
    if not os.path.isfile(ab(src[0])):
      return 1, "", "clang: error: no such file or directory: '%s'" % src[0]
    if "-shared" not in a or "-fPIC" not in a:
      return 1, "", "ld: error: undefined symbol: main"
    with world._R["open"](ab(src[0])) as fh:
      text = fh.read()
    if text.startswith("// SIMCPP "):
      obj = {"kind": "lib", "text": json.loads(text[10:])["text"]}
    elif text.startswith("// SIMPYB "):
      d = json.loads(text[10:])
      dirs = [os.path.dirname(ab(src[0]))] + [ab(x) for x in incs]
      hit = [x for x in dirs if os.path.isfile(os.path.join(x, d["include"]))]
      if not hit:
        return 1, "", "fatal error: '%s' file not found" % d["include"]
      with world._R["open"](os.path.join(hit[0], d["include"])) as fh:
        h = fh.read()
      decl = json.loads(h[len("// SIMHDR "):])["funcs"] if h.startswith("// SIMHDR ") else []
      for fn in d["funcs"]:
        if fn not in decl:
          return 1, "", "error: use of undeclared identifier '%s'" % fn
      if not re.fullmatch(r"[A-Za-z_]\w*", str(d["module"])):
        return 1, "", "error: expected ')' in PYBIND11_MODULE(%s, m)" % d["module"]
      obj = {"kind": "pybind", "module": d["module"], "funcs": d["funcs"], "needed": []}
      for l in libs:
        if not os.path.isfile(ab(l)):
          if os.path.basename(l).startswith("libOPENFHE"):
            continue
          return 1, "", "clang: error: no such file or directory: '%s'" % l
        with world._R["open"](ab(l), "rb") as fh:
          b = fh.read()
        if b.startswith(MAGIC):
          obj["needed"].append(ab(l))
    else:
      return 1, "", "error: expected unqualified-id"
    if writes:
      if not os.path.isdir(os.path.dirname(ab(out))):
        return 1, "", "ld: cannot open output file " + out
      with world._R["open"](ab(out), "wb") as fh:
        fh.write(MAGIC + json.dumps(obj).encode())
    return 0, "", ""

  # -- loader
  def load_so(self, name, path):
    c = self.cur()
    n = 0
    if c is not None:
      n = c.nimport
      c.nimport += 1
    f = self.fault(c, "import", n)
    if f:
      self.fire("dlopen")
      token = "simdiag-dlopen-%d" % c.op.get("id", -1)
      c.must_fail.append(("dlopen", token))
      raise ImportError(token + ": undefined symbol", name=name, path=path)
    with world.quietly():
      try:
        with world._R["open"](path, "rb") as fh:
          b = fh.read()
        if not b.startswith(MAGIC):
          raise ImportError(path + ": invalid ELF header", name=name, path=path)
        obj = json.loads(b[len(MAGIC):])
        short = name.rsplit(".", 1)[-1]
        if obj.get("kind") != "pybind" or obj["module"] != short:
          raise ImportError("dynamic module does not define module export function (PyInit_%s)" % short,
                            name=name, path=path)
        funcs = {}
        for so in obj["needed"]:
          with world._R["open"](so, "rb") as fh:
            lib = json.loads(fh.read()[len(MAGIC):])
          for fn in mlirlite.parse(lib["text"]):
            funcs.setdefault(fn.name, fn)
      except (OSError, mlirlite.MlirError) as e:
        raise ImportError("%s: cannot open shared object file: %s" % (path, e), name=name, path=path)
    m = types.ModuleType(name)
    m.__sim_so__ = True
    for fn in obj["funcs"]:
      if fn not in funcs:
        raise ImportError("%s: undefined symbol: %s" % (path, fn), name=name, path=path)
      self.rt.bind(m, funcs[fn])
    return m

  # -- files
  def fs_fault(self, opname, path):
    c = self.cur()
    if c is None:
      return None
    n = c.nfs
    c.nfs += 1
    c.fs.append((opname, path))
    f = self.fault(c, "fs", n)
    if not f:
      return None
    k = f["kind"]
    e = {"enospc": errno.ENOSPC, "emfile": errno.EMFILE, "eacces": errno.EACCES, "eio": errno.EIO,
         "edquot": errno.EDQUOT}.get(k.split("_")[0], errno.EIO)
    if opname in ("unlink", "rmdir", "remove"):
      c.cleanup_fault = True
    c.fs_fault = True
    if opname.startswith("open:"):
      if k.endswith("_write"):
        return ("write", e, f.get("frac", 0.5), "fs_" + k)
      if k.endswith("_close"):
        return ("close", e, 0, "fs_" + k)
    self.fire("fs_" + k.split("_")[0] + "@" + opname.split(":")[0])
    raise OSError(e, os.strerror(e), path)

  def fs_event(self, opname, path):
    c = self.cur()
    if c is None:
      return
    if opname == "mkdir":
      c.dirs.append(path)
    if opname in ("unlink", "rmdir", "remove", "rename", "replace") or opname.startswith("open:"):
      if not any(path == d or path.startswith(d + "/") for d in c.dirs):
        self.escapes.append(["outside-workspace:" + opname, path])
