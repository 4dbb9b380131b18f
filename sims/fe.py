"""Simulation of the Python frontend: compiles and clients in one process."""
import builtins
import copy
import hashlib
import io
import json
import os
import random
import re
import sys
import sysconfig

from dst import fe_world, mlirlite, sched, world
from dst.world import h64
from sims import feprog

heir = None
H = {}
_SALT = [0, 0]


def prepare(scratch):
  global heir
  world.install()
  import numba
  import numba.core.compiler as nc
  from numba.core import ir
  sys.path[:] = [p for p in sys.path if p]
  import heir as hm
  heir = hm
  import heir.pipeline as pl
  import heir.backends.openfhe as ofhe
  import heir.backends.cleartext as clear
  import heir.heir_cli.heir_cli_config as hc
  import heir.interfaces as itf
  import heir.mlir.types as mt
  import pybind11.commands
  import shlex, linecache, importlib.resources, inspect, textwrap  # noqa
  H.update(pl=pl, ofhe=ofhe, clear=clear, hc=hc, itf=itf, mt=mt)
  if not hm.__file__.startswith("/repo/"):
    raise RuntimeError("heir is not imported from /repo: " + hm.__file__)
  # warm numba's typing context (not heir)
  from numba.core.registry import cpu_target
  from numba.core.typed_passes import type_inference_stage
  from numba.core.types import int64

  def w(a, b):
    s = a
    for i in range(3):
      s = s + b * i
    return s - a
  tir = nc.run_frontend(w)
  cpu_target.typing_context.refresh()
  cpu_target.target_context.refresh()
  type_inference_stage(cpu_target.typing_context, cpu_target.target_context, tir, [int64, int64], None)

  # address seam: identity hashes of IR objects come from the run's seed
  side = {}

  def vhash(self):
    k = id(self)
    v = side.get(k)
    if v is None:
      _SALT[1] += 1
      v = side[k] = (self, h64("addr", _SALT[0], _SALT[1]) >> 4)
    return v[1]
  base = ir.EqualityCheckMixin
  for c in [base] + list(ir.__dict__.values()):
    if isinstance(c, type) and issubclass(c, base) and c.__hash__ is base.__hash__ and c is not base:
      c.__hash__ = vhash
  base.__hash__ = vhash
  sys.setswitchinterval(1000)
  sched.instrument("/repo/frontend/heir/")
  H["ninstr"] = 1


# ---------------------------------------------------------------- plan generation
PROFILES = {
    # weights: tasks, faults probability per compile, debug probability, ...
    "C01": dict(tasks=(1, 4), comp=(2, 5), pf=0.12, debug=0.1, mlir=0.3, call=0.4, collide=0.6),
    "C02": dict(tasks=(1, 3), comp=(1, 4), pf=0.6, debug=0.3, mlir=0.3, call=0.2, collide=0.2, badcfg=0.15),
    "C03": dict(tasks=(1, 3), comp=(1, 4), pf=0.5, debug=0.4, mlir=0.25, call=0.1, collide=0.2, fs=True, badcfg=0.1),
    "C04": dict(tasks=(1, 4), comp=(2, 5), pf=0.2, debug=0.3, mlir=0.25, call=0.2, collide=0.2, shared=0.7),
    "C05": dict(tasks=(1, 1), comp=(3, 6), pf=0.1, debug=0.15, mlir=0.1, call=0.0, collide=0.3, dup=0.5),
    "C06": dict(tasks=(1, 3), comp=(1, 2), pf=0.05, debug=0.05, mlir=0.2, call=0.0, collide=0.2, hist=True),
}

TOOL_FAULTS = ["exit", "exit_out", "sig", "sig_out", "spawn_enoent", "spawn_eacces", "spawn_enomem", "spawn_eagain",
               "noout", "interrupt", "badutf8", "noise", "slow"]
FS_FAULTS = ["enospc", "emfile", "eacces", "eio", "edquot", "enospc_write", "eio_write", "enospc_close", "eio_close"]


def gen_fault(rng, pr, op):
  r = rng.random()
  n_tools = 9 if op["be"] != "clear" else 5
  if r < 0.75:
    k = rng.choice(TOOL_FAULTS)
    f = {"pt": "tool", "n": rng.randrange(n_tools), "kind": k}
    if k.startswith("exit"):
      f["rc"] = rng.choice([1, 2, 127, 139])
      f["half"] = rng.random() < 0.5
    if k.startswith("sig"):
      f["sig"] = rng.choice([6, 9, 11, 15])
    return f
  if r < 0.9:
    return {"pt": "fs", "n": rng.randrange(6 if not op["debug"] else 12), "kind": rng.choice(FS_FAULTS),
            "frac": rng.choice([0, 0.5, 1])}
  return {"pt": "import", "n": 0, "kind": "dlopen"}


def generate(seed, profile):
  rng = random.Random(h64("plan", seed, profile))
  pr = PROFILES[profile]
  nt = rng.randint(*pr["tasks"])
  pool = []
  uid = rng.randrange(1000)

  def new_src():
    nonlocal uid
    uid += 1
    if rng.random() < pr["mlir"]:
      s = feprog.gen_mlir(rng, uid)
    else:
      kinds = None
      if profile == "C05":
        kinds = ["loop2", "loop2", "if", "if", "arith", "tensor", "tensor2", "cast", "loop"]
      s = feprog.gen_py(rng, uid, kinds)
      if pool and rng.random() < pr["collide"]:
        o = rng.choice(pool)
        if o["kind"] == "py":
          s["mod"], s["path"], s["nest"] = o["mod"], list(o["path"]), o["nest"]
        else:
          # a Python function whose unique name can meet the MLIR function's name
          s["mod"], s["path"] = "a", ["b_c"]
    pool.append(s)
    return s

  opts = [["--canonicalize", "--mlir-to-bgv"], ["--mlir-to-ckks"], ["--canonicalize", "--cse", "--mlir-to-bgv=a=1 b=2"],
          ["--secretize", "--mlir-to-cggi"]]
  nlists = rng.randint(1, 3)
  lists = [list(rng.choice(opts[:3])) for _ in range(nlists)]
  ops = []
  nid = 0
  for t in range(nt):
    ncomp = rng.randint(*pr["comp"])
    mine = []
    for _ in range(ncomp):
      if pool and rng.random() < pr.get("dup", 0.2):
        src = copy.deepcopy(rng.choice(pool))
      else:
        src = new_src()
      be = rng.choice(["ofhe0", "ofhe0", "ofhe1", "fresh", "clear", "none"])
      if profile == "C06":
        be = rng.choice(["ofhe0", "fresh", "ofhe1", "clear"])
      op = {"id": nid, "task": t, "kind": "compile", "src": src, "be": be,
            "cfg": rng.choice([0, 0, 1, 2, None]), "opts": None, "scheme": rng.choice(["bgv", "ckks"]),
            "debug": rng.random() < pr["debug"], "deco": None, "faults": []}
      if rng.random() < 0.3:
        op["opts"] = list(rng.choice(opts[:3]))
      elif rng.random() < pr.get("shared", 0.2):
        op["opts"] = rng.randrange(nlists)
      if src["kind"] == "py" and rng.random() < pr.get("shared", 0.25):
        op["deco"] = rng.randrange(3)
      if profile in ("C02", "C03") and rng.random() < 0.08:
        op["opts"] = list(opts[3])
        op["deco"] = None
      if rng.random() < pr.get("badcfg", 0):
        op["cfg"] = rng.choice([3, 4])
      if rng.random() < pr["pf"]:
        for _ in range(rng.choice([1, 1, 1, 2])):
          op["faults"].append(gen_fault(rng, pr, op))
      ops.append(op)
      mine.append(nid)
      nid += 1
      if op["faults"] and rng.random() < 0.6:
        ops.append(dict(copy.deepcopy(op), id=nid, faults=[], retry_of=op["id"]))
        mine.append(nid)
        nid += 1
      while rng.random() < pr["call"]:
        ops.append({"id": nid, "task": t, "kind": "call", "slot": rng.choice(mine), "inp": rng.randrange(2),
                    "mode": rng.choice(["call", "staged", "staged"])})
        nid += 1
    if pr.get("hist"):
      for _ in range(rng.randint(6, 24)):
        ops.append(gen_hist(rng, nid, t, mine))
        nid += 1
  # a deco is shared by ops with the same arguments: the first op's arguments win
  seen = {}
  for o in ops:
    if o["kind"] == "compile" and o["deco"] is not None:
      f = seen.setdefault(o["deco"], o)
      for k in ("be", "cfg", "opts", "scheme", "debug"):
        o[k] = copy.deepcopy(f[k])
  plan = {"ops": ops, "lists": lists, "p_line": rng.choice([0.0, 0.01, 0.03, 0.1]), "p_io": rng.choice([0.1, 0.5, 0.9]),
          "simple": {}}
  return plan


def gen_hist(rng, nid, t, mine):
  k = rng.choices(["setup", "enc", "eval", "dec", "orig", "call", "badcall", "keys"],
                  [3, 6, 7, 4, 1, 2, 1, 1])[0]
  return {"id": nid, "task": t, "kind": "hist", "h": k, "slot": rng.choice(mine), "inp": rng.randrange(2),
          "arg": rng.randrange(3), "mut": rng.choice([None, None, None, "swap", "plain", "encpub", "alien", "short"]),
          "r": rng.randrange(1 << 30), "key": rng.choice([None, None, None, "own2", "other"])}


# ---------------------------------------------------------------- execution
class Router(io.TextIOBase):

  def __init__(self, st):
    self.st = st
    self.rest = []

  def write(self, s):
    c = self.st.run.cur()
    (c.out if c is not None else self.rest).append(s)
    return len(s)

  def flush(self):
    pass

  def isatty(self):
    return False


class St:
  pass


def setup_box(box, rng):
  """Scratch world of a run: two toolchains, an OpenFHE installation, a compiler."""
  mk = lambda *p: os.makedirs(os.path.join(box, *p), exist_ok=True)

  def exe(*p):
    q = os.path.join(box, *p)
    with open(q, "w") as f:
      f.write("#!sim\n")
    os.chmod(q, 0o755)
  for c in ("A", "B"):
    mk("tools", c, "techmaps")
    for n in ("heir-opt", "heir-translate", "abc"):
      exe("tools", c, n)
  mk("tools", "bin")
  exe("tools", "bin", "clang++")
  mk("tmp")
  mk("work")
  mk("ofhe", "include", "openfhe", "core")
  mk("ofhe", "include1")
  mk("ofhe", "lib")
  for n in ("core", "pke", "binfhe"):
    with open(os.path.join(box, "ofhe", "lib", "libOPENFHE%s.so" % n), "w") as f:
      f.write("x")


def configs(box):
  C = H["hc"].HEIRConfig
  t = os.path.join(box, "tools")
  return [
      C(f"{t}/A/heir-opt", f"{t}/A/heir-translate", f"{t}/A/techmaps", f"{t}/A/abc"),
      C(f"{t}/B/heir-opt", f"{t}/B/heir-translate", f"{t}/B/techmaps", f"{t}/B/abc"),
      C(f"{t}/A/heir-opt", f"{t}/B/heir-translate", "", ""),
      C(f"{t}/gone/heir-opt", f"{t}/B/heir-translate", f"{t}/B/techmaps", f"{t}/B/abc"),
      C(f"{t}/A/heir-opt", f"{t}/A/techmaps/none", f"{t}/A/techmaps", f"{t}/A/abc"),
  ]


CFG_NAME = {0: "A", 1: "B", 2: "", 3: "B", 4: "A"}


def tree(box, skip=()):
  out = {}
  for r, ds, fs in os.walk(box):
    ds.sort()
    rel = os.path.relpath(r, box)
    if rel.split("/")[0] in skip:
      ds[:] = []
      continue
    out[rel] = "d"
    for f in fs:
      with open(os.path.join(r, f), "rb") as fh:
        out[os.path.join(rel, f)] = hashlib.sha1(fh.read()).hexdigest()
  return out


def mk_ofhe(box, n=0):
  return H["ofhe"].OpenFHEConfig(
      include_dirs=[f"{box}/ofhe/include/openfhe", f"{box}/ofhe/include"] + [f"{box}/ofhe/include{n}"] * (n > 0), include_type="install-relative",
      lib_dir=f"{box}/ofhe/lib", link_libs=["OPENFHEcore", "OPENFHEpke", "OPENFHEbinfhe"])


def run(req, box):
  seed = req["seed"]
  profile = req["profile"]
  plan = req.get("plan") or generate(seed, profile)
  salt = req.get("salt", 0)
  if salt and profile == "C05":
    # the twin of a run compiles the same things in another order
    plan = dict(plan, ops=list(plan["ops"]))
    random.Random(h64("order", seed, salt)).shuffle(plan["ops"])
  rng = random.Random(h64("exec", seed))
  st = St()
  st.plan, st.box, st.seed, st.profile = plan, box, seed, profile
  st.viol, st.log = [], []
  setup_box(box, rng)
  os.chdir(box + "/work")
  os.environ.clear()
  os.environ.update({
      "PATH": f"{box}/tools/bin", "HOME": box, "LANG": "C.UTF-8", "USER_KEEP": "1", "TMPDIR": box + "/tmp",
      "HEIR_OPT_PATH": f"{box}/tools/B/heir-opt", "HEIR_TRANSLATE_PATH": f"{box}/tools/B/heir-translate",
      "OPENFHE_INCLUDE_DIR": f"{box}/ofhe/include/openfhe", "OPENFHE_LIB_DIR": f"{box}/ofhe/lib",
  })
  if rng.random() < 0.5:
    os.environ["HEIR_ABC_BINARY"] = f"{box}/tools/B/abc"
    os.environ["HEIR_YOSYS_SCRIPTS_DIR"] = f"{box}/tools/B/techmaps"
  import tempfile
  tempfile.tempdir = box + "/tmp"
  st.cfgs = configs(box)
  st.bes = {"ofhe0": H["ofhe"].OpenFHEBackend(mk_ofhe(box)), "ofhe1": H["ofhe"].OpenFHEBackend(mk_ofhe(box, 1)),
            "clear": H["clear"].CleartextBackend()}
  st.lists = [list(l) for l in plan["lists"]]
  st.decos = {}
  st.out = {}       # op id -> outcome dict
  st.client = {}    # op id -> client
  st.fns = {}
  st.ctxs = {}
  st.hist = {}
  _SALT[0], _SALT[1] = h64("salt", seed, salt), 0
  r = fe_world.FeRun(box)
  r.epoch_us = 1_700_000_000_000_000 + (salt * 86400_000_000 * 37)
  st.run = r
  sys.stdout_saved = sys.stdout
  router = Router(st)
  so, se = sys.stdout, sys.stderr
  sys.stdout = sys.stderr = router
  pristine = {
      "env": dict(os.environ), "cwd": os.getcwd(), "path": list(sys.path), "tree": tree(box, ("tmp",)),
      "lists": copy.deepcopy(st.lists), "be": repr([st.bes["ofhe0"].openfhe_config, st.bes["ofhe1"].openfhe_config]),
      "cfg": repr(st.cfgs),
  }
  st.pristine = pristine
  for o in plan["ops"]:
    if o["kind"] == "compile" and o["src"]["kind"] == "py":
      st.fns[o["id"]] = feprog.build(o["src"], H["mt"])
  s = sched.Sched(h64("sched", seed), plan.get("p_line", 0.02), plan.get("p_io", 0.5), explicit=req.get("sched"))
  st.sched = s
  world.begin(r, h64(seed, salt))
  try:
    tids = sorted({o["task"] for o in plan["ops"]})
    for t in tids:
      mine = [o for o in plan["ops"] if o["task"] == t]
      s.spawn(lambda mine=mine: [run_op(st, o) for o in mine], "t%d" % t)
    s.run()
    main_phase(st)
  finally:
    world.end()
    sys.stdout, sys.stderr = so, se
  for t in s.tasks:
    if t.exc is not None:
      raise t.exc
  check_end(st)
  return result(st, s, r)


def add(st, prop, cls, sig, msg):
  st.viol.append({"prop": prop, "cls": cls, "sig": sig, "msg": canon(st, msg)[:600]})


def canon(st, text):
  text = text.replace(st.box, "BOX")
  return re.sub(r"BOX/tmp/[\w.]+", "WS", text)


def run_op(st, o):
  if st.sched.deadlocked:
    return
  s = st.sched
  t = s.current()
  c = fe_world.OpCtx(o, t)
  c.out = []
  st.ctxs[o["id"]] = c
  st.run.ctx[t.idx if t is not None else None] = c
  try:
    if o["kind"] == "compile":
      op_compile(st, o, c)
    elif o["kind"] == "call":
      op_call(st, o, c)
    elif o["kind"] == "hist":

      fehist.op(st, o, c)
  finally:
    st.run.ctx.pop(t.idx if t is not None else None, None)


def op_compile(st, o, c):
  src = o["src"]
  opts = o["opts"]
  if isinstance(opts, int):
    opts = st.lists[opts] if opts < len(st.lists) else None
  be = o["be"]
  backend = None if be == "none" else (H["ofhe"].OpenFHEBackend(mk_ofhe(st.box)) if be == "fresh" else st.bes[be])
  cfg = None if o["cfg"] is None else st.cfgs[o["cfg"]]
  o_opts0 = None if opts is None else list(opts)
  if isinstance(o["opts"], int) and o["opts"] < len(st.lists):
    o_opts0 = list(st.pristine["lists"][o["opts"]])
  c.requested = o_opts0
  kw = dict(scheme=o["scheme"], backend=backend, config=cfg, debug=o["debug"], heir_opt_options=opts)
  out = {"ok": False, "exc": None, "text": ""}
  single = len([t for t in st.sched.tasks if t.state != "done"]) <= 1
  if single:
    before = (dict(os.environ), os.getcwd(), list(sys.path))
  try:
    if src["kind"] == "mlir":
      cl = heir.compile(feprog.mlir_text(src), **kw)
    elif o["deco"] is not None:
      d = st.decos.get(o["deco"])
      if d is None:
        d = st.decos[o["deco"]] = (heir.compile(**kw), opts, o_opts0)
      opts, o_opts0 = d[1], d[2]
      c.requested = o_opts0
      cl = d[0](st.fns[o["id"]])
    else:
      cl = heir.compile(**kw)(st.fns[o["id"]])
    out["ok"] = True
    st.client[o["id"]] = cl
  except sched.Deadlock:
    raise
  except BaseException as e:
    out["exc"] = e
    msg, x, n = [], e, 0
    while x is not None and n < 8:
      msg.append(type(x).__name__ + ": " + str(x))
      x = x.__cause__
      n += 1
    out["text"] = "\n".join(msg)
    e.__traceback__ = None
    e.__context__ = None
  out["shown"] = "".join(c.out) + out["text"]
  st.out[o["id"]] = out
  if isinstance(out["exc"], KeyboardInterrupt):
    out["kbd"] = True
  st.log.append("%d compile %s %s" % (o["id"], "ok" if out["ok"] else canon(st, out["text"])[:200],
                                      ",".join("%s:%s" % (x.get("tool", "?"), x["rc"]) for x in c.tools)))
  check_compile(st, o, c, out)
  if opts is not None and o_opts0 is not None and list(opts) != o_opts0:
    if not isinstance(o["opts"], int) or single:
      add(st, "C04", "options-mutated", "options-mutated", "option list was %s, is now %s" % (o_opts0, list(opts)))
      opts[:] = o_opts0
  if single:
    now = (dict(os.environ), os.getcwd(), list(sys.path))
    side_effects(st, before, now)


def side_effects(st, before, now):
  if before[0] != now[0]:
    ch = sorted(k for k in set(before[0]) | set(now[0]) if before[0].get(k) != now[0].get(k))
    add(st, "C04", "environment-changed", "env:" + ",".join(ch), "compile changed environment variables %s" % ch)
    os.environ.clear()
    os.environ.update(before[0])
  if before[1] != now[1]:
    add(st, "C04", "cwd-changed", "cwd", "working directory %s -> %s" % (before[1], now[1]))
    os.chdir(before[1])
  if before[2] != now[2]:
    add(st, "C04", "sys-path-changed", "sys.path", "sys.path grew/changed: %s" % [p for p in now[2] if p not in before[2]])
    sys.path[:] = before[2]


def entry_name(o, c):
  if o["src"]["kind"] == "mlir":
    return o["src"]["name"]
  return None


def check_compile(st, o, c, out):
  src = o["src"]
  sim_ok = out["ok"]
  cg = any(x.startswith("--mlir-to-cggi") for x in (c.requested or [])) and o["be"] != "clear"
  # ---- C02
  if c.must_fail and sim_ok:
    why = c.must_fail[0][0]
    add(st, "C02", "success-despite-failure", "success:" + why.split(":")[0] + ":" + why.split(":")[-1],
        "a client was returned although: %s" % c.must_fail)
  if c.must_fail and not sim_ok:
    e = out["exc"]
    if isinstance(e, SystemExit) and e.code in (None, 0):
      add(st, "C02", "zero-exit", "zero-exit", "failed compile exits with status %r" % (e.code,))
    tok = c.must_fail[-1][1]
    if tok is not None and tok not in out["shown"] and not c.fs_fault and not c.interrupted:
      stage = "?"
      for x in c.tools:
        if x["rc"] not in (0, "spawn", "interrupt", None):
          stage = tool_stage(x)
      add(st, "C02", "diagnostic-lost", "diagnostic-lost:%s:%s" % (stage, src["kind"]),
          "%s failed but its error output %s was not shown; shown: %s" % (c.must_fail[-1][0], tok, out["shown"][-300:]))
  harmless = not c.must_fail and not c.fs_fault and not c.interrupted and not any(
      x["fault"] in ("noout", "badutf8") for x in c.tools)
  if not sim_ok and not c.fs_fault and not c.interrupted and c.must_fail and not any(x["fault"] for x in c.tools) and all(
      w.startswith("rejected:") for w, _ in c.must_fail):
    # no fault: every source here is a valid program and every tool was there, so what was rejected is the
    # compile's own doing
    add(st, "C01", "spurious-failure", "rejected:%s:%s" % (src["kind"], c.must_fail[-1][0]),
        "compile without any fault failed, a tool rejected what it was given: " + out["shown"][-400:])
  if harmless and not sim_ok:
    if cg:
      if not isinstance(out["exc"], (NotImplementedError,)):
        add(st, "C02", "wrong-error", "wrong-error:cggi", "CGGI with an encrypting backend: " + out["text"][:300])
    else:
      prop = "C02" if o.get("retry_of") is not None else "C01"
      add(st, prop, "not-usable-after" if prop == "C02" else "spurious-failure",
          "spurious:%s:%s" % (src["shape"], type(out["exc"]).__name__),
          "compile without any fault failed: " + out["shown"][-400:])
  # ---- C03
  with world.quietly():
    for d in c.dirs:
      if os.path.dirname(d) != st.box + "/tmp":
        continue
      ex = os.path.isdir(d)
      if not o["debug"] and ex and not c.cleanup_fault:
        add(st, "C03", "workspace-left", "workspace-left:%s" % ("ok" if sim_ok else "fail"),
            "workspace left behind after a compile that %s: %s" % ("succeeded" if sim_ok else "failed: " + out["text"][:150],
                                                                   sorted(os.listdir(d))[:6]))
      if o["debug"] and not ex:
        add(st, "C03", "debug-workspace-missing", "debug-ws:%s" % ("ok" if sim_ok else "fail"),
            "debugging is on but the workspace was removed")
    if o["debug"] and not c.fs_fault and not c.interrupted:
      have = []
      for d in c.dirs:
        for r, _, fs in os.walk(d):
          for f in fs:
            with open(os.path.join(r, f), errors="replace") as fh:
              have.append(fh.read())
      for x in c.tools:
        if x.get("tool") == "heir-opt" and x["rc"] == 0 and x["fault"] not in ("badutf8",):
          if "--mlir-print-op-generic" in x["argv"]:
            continue
          if x["out"] not in have:
            add(st, "C03", "debug-file-missing", "debug-file:%s" % tool_stage(x),
                "the output of a completed stage (%s) is in no kept file" % tool_stage(x))
          if tool_stage(x) == "shape" and src["kind"] == "py" and x.get("stdin") not in have:
            add(st, "C03", "debug-file-missing", "debug-file:frontend",
                "the MLIR the frontend made from the function is in no kept file")
    if o["debug"] and sim_ok and not c.dirs:
      add(st, "C03", "debug-workspace-missing", "debug-ws:none", "debugging is on but there is no workspace")
  # ---- C04: tools' options and environment
  check_tools(st, o, c, sim_ok, cg)
  # ---- C01: what was compiled
  check_programs(st, o, c)
  # ---- C05
  st.cmp = getattr(st, "cmp", {})
  if harmless or c.must_fail:
    st.cmp[o["id"]] = digest(st, o, c, out)


def tool_stage(x):
  a = x["argv"]
  if x.get("tool") == "heir-opt":
    for o, n in (("--mlir-print-op-generic", "generic"), ("--shape-inference", "shape"),
                 ("--annotate-secretness", "annotate")):
      if o in a:
        return n
    return "backend" if any(y.startswith("--scheme-to-openfhe") for y in a) else "main"
  if x.get("tool") == "heir-translate":
    for y in a:
      if y.startswith("--emit"):
        return y[2:]
    return "translate"
  return "cxx"


EXTRA = ("--mlir-print-debuginfo", "--view-op-graph")


def check_tools(st, o, c, ok, cg):
  mains = [x for x in c.tools if os.path.basename(x["argv"][0]) == "heir-opt" and tool_stage(dict(x, tool="heir-opt")) == "main"]
  want = c.requested or ["--canonicalize", "--mlir-to-" + o["scheme"]]
  if o["deco"] is not None and c.requested is None:
    pass
  if ok and len(mains) != 1:
    add(st, "C04", "tool-options", "main-runs", "heir-opt was run %d times with the requested options" % len(mains))
  for x in mains:
    a = x["argv"][1:]
    core = [y for y in a if y not in EXTRA]
    if core != [y for y in want if y not in EXTRA] or any(a.count(e) > max(1, want.count(e)) for e in EXTRA):
      add(st, "C04", "tool-options", "main-options", "requested options %s but heir-opt was given %s" % (want, a))
  if o["cfg"] is not None or True:
    ci = 1 if o["cfg"] is None else o["cfg"]
    cfg = st.cfgs[ci]
    for x in c.tools:
      b = os.path.basename(x["argv"][0])
      exp = None
      if b in ("heir-opt",):
        exp = str(cfg.heir_opt_path)
      elif b == "heir-translate":
        exp = str(cfg.heir_translate_path)
      if exp is not None and x["argv"][0] != os.path.abspath(exp):
        add(st, "C04", "tool-binary", "tool-binary", "ran %s, configuration says %s" % (x["argv"][0], exp))
      if exp is None:
        continue
      env = x["env"]
      own = CFG_NAME[ci]
      if o["cfg"] is None and "HEIR_ABC_BINARY" not in st.pristine["env"]:
        own = ""
      for var, name in (("HEIR_ABC_BINARY", "abc"), ("HEIR_YOSYS_SCRIPTS_DIR", "techmaps")):
        v = env.get(var)
        if own:
          if v != f"{st.box}/tools/{own}/{name}":
            add(st, "C04", "tool-environment", "tool-env:" + var,
                "%s is %r for a compile whose configuration says %s" % (var, v, f"{st.box}/tools/{own}/{name}"))
        else:
          bad = [f"{st.box}/tools/{q}/{name}" for q in "AB"]
          if v in bad and v != st.pristine["env"].get(var):
            add(st, "C04", "tool-environment", "tool-env-leak:" + var,
                "%s is %r, of another compile's configuration; this compile configures none" % (var, v))
          elif o["cfg"] is not None and v != st.pristine["env"].get(var):
            add(st, "C04", "tool-environment", "tool-env-made-up:" + var,
                "%s is %r; this compile configures none and the caller's is %r" % (var, v, st.pristine["env"].get(var)))
      # the rest of the environment is the caller's
      rest = {k: w for k, w in env.items() if not k.startswith("HEIR_") }
      if rest != {k: w for k, w in st.pristine["env"].items() if not k.startswith("HEIR_")}:
        add(st, "C04", "tool-environment", "tool-env-rest", "the tool's environment differs from the caller's")


  # the C++ compiler: this compile's own files and configuration, the same options every time
  own = {d for d in c.dirs}
  seen = st.__dict__.setdefault("cxx_args", {})
  k = 0
  for x in c.tools:
    if x["rc"] == "spawn" or x.get("tool") in ("heir-opt", "heir-translate") or os.path.basename(x["argv"][0]).startswith("heir-"):
      continue
    for a in x["argv"][1:]:
      m = re.search(re.escape(st.box) + r"/tmp/[^/:,]+", str(a))
      if m and m.group(0) not in own:
        add(st, "C04", "tool-options", "cxx-foreign-path", "the C++ compiler is given a path in another compile's workspace: %s" % a)
      if "/ofhe/include1" in str(a) and o["be"] != "ofhe1":
        add(st, "C04", "tool-options", "cxx-foreign-config", "the C++ compiler is given a directory of another configuration: %s" % a)
    if {q: w for q, w in x["env"].items() if not q.startswith("HEIR_")} != {
        q: w for q, w in st.pristine["env"].items() if not q.startswith("HEIR_")}:
      add(st, "C04", "tool-environment", "cxx-env", "the C++ compiler's environment differs from the caller's")
    src = os.path.basename(str(x["argv"][1])) if len(x["argv"]) > 1 else ""
    kind = "bindings" if "bindings" in src else "main"
    key = (o["be"] if o["be"] in ("ofhe1", "none") else "e", kind)
    opts = [canon(st, str(a)) for a in x["argv"][1:] if not os.path.basename(str(a)).endswith((".cpp", ".so"))]
    if key in seen and seen[key] != opts:
      add(st, "C04", "tool-options", "cxx-options", "the C++ compiler is given other options than for an earlier compile with "
          "the same configuration: %s, before %s" % (opts, seen[key]))
    seen.setdefault(key, opts)
    k += 1


def check_programs(st, o, c):
  """Every text a tool was given must be this compile's own program."""
  src = o["src"]
  fn = st.fns.get(o["id"])
  done = set()
  for x in c.tools:
    t = x.get("stdin")
    if not t or t in done:
      continue
    done.add(t)
    bad = [y for y in c.tools if y["fault"] in ("noout", "exit_out", "exit", "sig", "sig_out")]
    if bad:
      return
    try:
      fs = mlirlite.parse(t)
    except mlirlite.MlirError as e:
      add(st, "C01", "invalid-program", "invalid:%s" % src["shape"], "%s is given an invalid program: %s" % (x.get("tool"), e))
      return
    f = fs[0]
    want_sec = [i for i, a in enumerate(src["args"]) if a[2]]
    if len(f.args) != len(src["args"]) or f.secret != want_sec or f.arg_names != [a[0] for a in src["args"]]:
      add(st, "C01", "wrong-program", "signature", "compiled signature %s %s for arguments %s" % (f.arg_names, f.secret, src["args"]))
      return
    for (n, ty, _), sh in zip(src["args"], f.shapes):
      if ty.startswith("Tensor"):
        want = [int(v) for v in ty.split("[[")[1].split("]")[0].split(",")]
        if sh != want:
          add(st, "C01", "wrong-shape", "shape:%s" % src["shape"], "argument %s is %s but was compiled with shape %s" % (n, ty, sh))
          return
    for row in src["inputs"]:
      try:
        got = feprog.norm(mlirlite.run(f, [r if not isinstance(r, bool) else int(r) for r in row]))
      except Exception as e:
        add(st, "C01", "wrong-program", "run:%s" % src["shape"], "the compiled program cannot run on its inputs: %s" % e)
        return
      want = feprog.expected(src, fn, row)
      if got != want:
        add(st, "C01", "wrong-program", "value:%s" % src["shape"],
            "%s was given a program that computes %s on %s, the source computes %s" % (x.get("tool"), got, row, want))
        return


def digest(st, o, c, out):
  """What C05 compares: program text and tool invocations, up to the unique name and workspace."""
  name = None
  for x in c.tools:
    m = re.search(r"func\.func @([\w$.]+)\(", x.get("stdin") or "")
    if m:
      name = m.group(1)
      break

  def cn(t):
    t = canon(st, t)
    if name and o["src"]["kind"] == "py":
      t = re.sub(r"(?<![A-Za-z0-9])" + re.escape(name) + r"(?![A-Za-z0-9])|(?<=_heir_)" + re.escape(name), "FN", t)
      base = name.rsplit("_", 1)[0]
      t = re.sub(re.escape(base) + r"_\d+", "FN", t)
    return t
  seq = [[cn(str(a)) for a in x["argv"]] for x in c.tools]
  texts = [cn(x.get("stdin") or "") for x in c.tools]
  env = [[x["env"].get("HEIR_ABC_BINARY"), x["env"].get("HEIR_YOSYS_SCRIPTS_DIR")] for x in c.tools]
  return {"ok": out["ok"], "exc": type(out["exc"]).__name__ if out["exc"] else None, "seq": seq, "texts": texts}


def call_client(st, o, client, src, fn, row, mode):
  vals = [feprog.arg_value(t, v) if src["kind"] == "py" else v for (n, t, s), v in zip(src["args"], row)]
  if mode == "call":
    return client(*vals)
  client.setup()
  enc = []
  for (n, t, s), v in zip(src["args"], vals):
    enc.append(getattr(client, "encrypt_" + n)(v) if s else v)
  r = client.eval(*enc)
  return client.decrypt_result(r)


from sims import fehist  # noqa: E402


def op_call(st, o, c):
  cl = st.client.get(o["slot"])
  co = next((x for x in st.plan["ops"] if x["id"] == o["slot"] and x["kind"] == "compile"), None)
  if cl is None or co is None:
    st.log.append("%d call skipped" % o["id"])
    return
  verify(st, o["id"], co, cl, o["inp"], o["mode"])


def verify(st, oid, co, cl, j, mode):
  src, fn = co["src"], st.fns.get(co["id"])
  row = src["inputs"][j]
  if co["be"] == "clear" and src["kind"] == "mlir":
    return
  want = feprog.expected(src, fn, row)
  try:
    got = feprog.norm(call_client(st, co, cl, src, fn, row, mode))
  except sched.Deadlock:
    raise
  except Exception as e:
    if not getattr(st.ctxs.get(co["id"]), "must_fail", None):
      add(st, "C01", "client-broken", "client:%s:%s" % (src["shape"], type(e).__name__),
          "the client of a successful compile fails: %s: %s" % (type(e).__name__, e))
    st.log.append("%s call exc %s" % (oid, type(e).__name__))
    return
  st.log.append("%s call %s" % (oid, got))
  if got != want:
    add(st, "C01", "wrong-program", "client-value:%s" % src["shape"],
        "the client computes %s on %s, its program computes %s" % (got, row, want))


def main_phase(st):
  """After all tasks: every client still runs its own program; failed compiles work again."""
  st.run.ctx.clear()
  if st.sched.deadlocked:
    add(st, "C02", "deadlock", "deadlock", "all tasks are blocked forever")
    return
  for o in st.plan["ops"]:
    if o["kind"] != "compile":
      continue
    cl = st.client.get(o["id"])
    c = st.ctxs[o["id"]]
    if cl is not None:
      verify(st, "end%d" % o["id"], o, cl, 0, "staged")
      verify(st, "end%d" % o["id"], o, cl, 1, "call")
      original(st, o, cl)
    elif o["faults"] and o.get("retry_of") is None and st.profile in ("C02", "C03"):
      r = dict(copy.deepcopy(o), id=1000 + o["id"], faults=[], retry_of=o["id"])
      if o["cfg"] in (3, 4) and o["deco"] is None:
        r["cfg"] = 0
      st.fns[r["id"]] = st.fns.get(o["id"])
      bad = [k for k, v in enumerate(st.decos)]
      if o["cfg"] not in (3, 4) or o["deco"] is None:
        run_op(st, r)
      st.run.probe("retried_after_fault")


def original(st, o, cl):
  src, fn = o["src"], st.fns.get(o["id"])
  if src["kind"] == "py":
    row = [feprog.arg_value(t, v) for (n, t, s), v in zip(src["args"], src["inputs"][0])]
    try:
      got = feprog.norm(cl.original(*row))
    except Exception as e:
      got = repr(e)
    if got != feprog.expected(src, fn, src["inputs"][0]):
      add(st, "C06", "wrong-original", "original", "original() gives %s" % (got,))
      if got != feprog.expected(src, fn, src["inputs"][0]):
        add(st, "C01", "wrong-original", "original", "original() gives %s" % (got,))
  else:
    try:
      cl.original(1, 2)
      add(st, "C06", "wrong-original", "original-mlir", "original() of an MLIR string returned a value")
    except NotImplementedError:
      pass
    except Exception as e:
      add(st, "C06", "wrong-original", "original-mlir", "original() of an MLIR string raises %r" % e)


def check_end(st):
  box, r, p = st.box, st.run, st.pristine
  for e in r.escapes:
    add(st, "C03", "outside-write", "outside:%s" % e[0], "wrote or deleted outside its workspace: %s" % e)
  now = tree(box, ("tmp",))
  if now != p["tree"]:
    diff = sorted(k for k in set(now) | set(p["tree"]) if now.get(k) != p["tree"].get(k))
    add(st, "C03", "outside-write", "outside-tree:" + ",".join(os.path.dirname(d) for d in diff[:3]),
        "files outside the workspace changed: %s" % diff[:5])
  owned = set()
  for c in st.ctxs.values():
    if c.op["kind"] == "compile" and (c.op["debug"] or c.cleanup_fault):
      owned.update(c.dirs)
    elif c.op["kind"] == "compile" and st.sched.deadlocked:
      owned.update(c.dirs)
  left = [n for n in sorted(os.listdir(box + "/tmp")) if f"{box}/tmp/{n}" not in owned]
  if left:
    add(st, "C03", "temporary-left", "temporary-left", "%d temporary files or directories are left" % len(left))
  side_effects(st, (p["env"], p["cwd"], p["path"]), (dict(os.environ), os.getcwd(), list(sys.path)))
  if st.lists != p["lists"]:
    add(st, "C04", "options-mutated", "options-mutated", "shared option lists were %s, are now %s" % (p["lists"], st.lists))
  if repr([st.bes["ofhe0"].openfhe_config, st.bes["ofhe1"].openfhe_config]) != p["be"]:
    add(st, "C04", "backend-mutated", "backend-mutated", "a shared backend object or its configuration changed")
  if repr(st.cfgs) != p["cfg"]:
    add(st, "C04", "config-mutated", "config-mutated", "a shared configuration object changed")
  # C05 inside one run: the same source and settings give the same text
  seen = {}
  for o in st.plan["ops"]:
    if o["kind"] != "compile" or o["faults"] or o["id"] not in getattr(st, "cmp", {}):
      continue
    key = json.dumps([o["src"], o["be"] if o["be"] in ("clear", "none", "ofhe1") else "e", o["cfg"], o["opts"], o["scheme"], o["debug"]])
    d = st.cmp[o["id"]]
    if key in seen and seen[key] != d:
      a = seen[key]
      what = "texts" if a["texts"] != d["texts"] else "seq" if a["seq"] != d["seq"] else "outcome"
      add(st, "C05", "differs-in-process", "differs:%s:%s" % (what, o["src"]["shape"]),
          "two compiles of the same source in one process differ in %s: %s" % (what, first_diff(a, d)))
    seen.setdefault(key, d)


def first_diff(a, b):
  for k in ("texts", "seq"):
    for x, y in zip(a[k], b[k]):
      if x != y:
        if k == "texts":
          for l, m in zip(x.split("\n"), y.split("\n")):
            if l != m:
              return "%r vs %r" % (mlirlite.strip_locs(l)[:150], mlirlite.strip_locs(m)[:150])
        return "%s vs %s" % (str(x)[:150], str(y)[:150])
  return "%s vs %s" % ((a["ok"], a["exc"]), (b["ok"], b["exc"]))


def result(st, s, r):
  hasher = hashlib.sha1()
  for l in st.log:
    hasher.update(l.encode())
  for k in sorted(st.ctxs):
    for x in st.ctxs[k].tools:
      hasher.update(canon(st, json.dumps([x["n"], x["argv"], x["rc"], x.get("stdin", "")], default=str)).encode())
  hasher.update(json.dumps([[v["cls"], v["sig"]] for v in st.viol]).encode())
  hasher.update(json.dumps(s.order).encode())
  nf = sum(r.fired.values())
  cmpd = None
  if st.profile == "C05":
    cmpd = {str(k): v for k, v in st.cmp.items()}
  shapes = []
  for o in st.plan["ops"]:
    x = st.out.get(o["id"])
    if x is not None:
      shapes.append((o["src"]["shape"], o["be"], o["debug"], x["ok"], tuple(t["fault"] for t in st.ctxs[o["id"]].tools)))
  for c in st.ctxs.values():
    if len(s.tasks) > 1 and c.op["kind"] == "compile":
      pass
  return {
      "plan": st.plan, "sched": s.taken, "hash": hasher.hexdigest()[:16], "viol": st.viol, "fired": r.fired,
      "probes": r.probes, "sim_us": s.now, "switches": s.switches, "order": "%x" % h64(*s.order) if s.switches else "",
      "ops": len(st.ctxs), "tools": r.tool_runs, "nontrivial": bool(nf or s.switches > 2 or len(st.plan["ops"]) > 2),
      "states": ["%x" % h64(*map(str, sh)) for sh in shapes], "log": st.log, "cmp": cmpd,
      "summary": [l[:160] for l in st.log[:8]],
  }
