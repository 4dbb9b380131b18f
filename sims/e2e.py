"""Simulation of scripts/e2e_to_bazel and lit_to_bazel (C14): a simulated bazel over
a workspace model, failing, truncated or partial queries, changing directories."""
import os
import random
import re
import shlex
from xml.sax.saxutils import quoteattr

from dst import script, simple, world
from dst.script import h64

E2E = "/repo/scripts/e2e_to_bazel.py"
LIT = "/repo/scripts/lit_to_bazel.py"


def prepare(scratch):
  world.install()
  import runpy, pathlib, shutil, fire, fire.core, collections, shlex, xml.etree.ElementTree, inspect  # noqa
  world.install_clock()


class BRun(script.SRun):

  def __init__(self, scratch):
    super().__init__(scratch)
    self.ws = scratch + "/ws"
    self.rules = {}     # label -> {"kind", "deps", "src", "flags"}
    self.answers = {}   # call number -> fault
    self.calls = []
    self.bad = []
    self.ran = []
    self.perm = 0
    self.bwd = False

  def readable(self, path):
    return path.endswith((".mlir", "/BUILD"))

  def check_prog(self, name, env, cwd):
    n = len(self.calls)
    if name == "bazel" and self.answers.get(str(n), {}).get("kind") == "missing":
      self.calls.append("missing")
      self.bad.append(n)
      self.fire("bazel_missing")
      raise FileNotFoundError(2, "No such file or directory", name)
    if not os.path.isdir(cwd):
      raise FileNotFoundError(2, "No such file or directory", cwd)

  def prog(self, argv, env, cwd, data):
    if argv[0] != "bazel" or argv[1:2] == ["run"]:
      self.ran.append(argv)
      return self.run_rc, b"", b"error: x\n" if self.run_rc else b""
    n = len(self.calls)
    self.calls.append(argv)
    a = self.answers.get(str(n), {})
    real = os.path.realpath(cwd)
    if not (real == self.ws or real.startswith(self.ws + "/")):
      if not self.bwd:
        self.bad.append(n)
      return 2, b"", b"ERROR: The 'query' command is only supported from within a workspace\n"
    if argv[1:3] == ["info", "workspace"]:
      rc, out, err = 0, (self.ws + "\n").encode(), b""
      self.info.append(n)
    elif argv[1:2] == ["query"]:
      rc, out, err = self.query(argv[2:], os.path.relpath(real, self.ws))
    else:
      rc, out, err = 2, b"", b"Unknown command\n"
    k = a.get("kind")
    if not k or (k == "rc3" and argv[1:2] != ["query"]):
      return rc, out, err
    lines = out.split(b"\n")
    frac = a.get("frac", 0.5)
    self.fire("bazel_" + k)
    if k == "fail":
      self.bad.append(n)
      return a.get("rc", 1), b"", b"ERROR: build failed\n"
    if k == "fail_partial":
      self.bad.append(n)
      return a.get("rc", 7), b"\n".join(lines[int(len(lines) * frac):]), b"ERROR: Evaluation of query failed\n"
    if k == "fail_full":
      self.bad.append(n)
      return a.get("rc", 1), out, b"Server terminated abruptly\n"
    if k == "signal":
      self.bad.append(n)
      return -9, out[:int(len(out) * frac)], b""
    if k == "cut":
      self.bad.append(n)
      self.cut.append(n)
      return -9 if a.get("rc", 0) > 1 else 37, out[:int(len(out) * frac)], b"cut\n"
    if k == "rc3":
      return 3, out, b"WARNING: --keep_going specified, ignoring errors. Results may be inaccurate\n"
    if k == "noise":
      return rc, b"Loading: 0 packages loaded\nINFO: x\n" + out if b"//" in out and b"<?xml" not in out else out, err
    if k == "bytes":
      self.bad.append(n)
      return 1, b"\xff\xfe" + out, b"\x80"
    raise AssertionError(k)

  # --- a small bazel query
  def query(self, args, here):
    xml = any(x in ("--output=xml",) for x in args) or ("--output" in args and args[args.index("--output") + 1] == "xml")
    exprs = [x for x in args if not x.startswith("--") and x != "xml"]
    try:
      res = self.eval(exprs[0], "" if here == "." else here)
    except (KeyError, ValueError, IndexError) as e:
      return 7, b"", b"ERROR: no such target: %s\n" % str(e).encode()
    res = sorted(res)
    if self.perm:
      res.sort(key=lambda x: h64("perm", self.perm, x))
    if xml:
      out = '<?xml version="1.1" encoding="UTF-8" standalone="no"?>\n<query version="2">\n'
      for l in res:
        ru = self.rules[l]
        if ru["kind"] == "file":
          out += '<source-file name=%s/>\n' % quoteattr(l)
          continue
        out += '  <rule class=%s location="/x/BUILD:3:1" name=%s>\n    <string name="name" value="n"/>\n' % (quoteattr(ru["kind"]), quoteattr(l))
        if ru.get("flags") is not None:
          out += '    <list name="tags"><string value="manual"/></list>\n    <list name="pass_flags">\n' + "".join(
              "      <string value=%s/>\n" % quoteattr(f) for f in ru["flags"]) + "    </list>\n"
        if ru.get("src"):
          out += '    <label name="_opt" value="//tools:heir-opt"/>\n    <label name="src" value=%s/>\n    <rule-input name=%s/>\n' % (quoteattr(ru["src"]), quoteattr(ru["src"]))
        out += "  </rule>\n"
      return 0, (out + "</query>\n").encode(), b""
    return 0, ("".join(l + "\n" for l in res)).encode(), b""

  def eval(self, e, here):
    toks = re.findall(r"[(),]|\"[^\"]*\"|'[^']*'|[^\s(),]+", e)
    pos = [0]

    def peek():
      return toks[pos[0]] if pos[0] < len(toks) else None

    def take():
      pos[0] += 1
      return toks[pos[0] - 1]

    def expr():
      v = term()
      while peek() in ("+", "union", "^", "intersect", "-", "except"):
        o, w = take(), term()
        v = v | w if o in ("+", "union") else v & w if o in ("^", "intersect") else v - w
      return v

    def term():
      t = take()
      if t == "(":
        v = expr()
        take()
        return v
      if peek() == "(" and t in ("kind", "deps", "rdeps", "attr", "allpaths", "filter"):
        take()
        if t == "kind":
          pat = take().strip("'\"")
          take()
          v = expr()
          take()
          return {l for l in v if re.search(pat, self.rules[l]["kind"] + " rule" if self.rules[l]["kind"] != "file" else "source file")}
        if t == "deps":
          v = expr()
          while peek() == ",":
            take(), take()
          take()
          return self.closure(v)
        if t == "rdeps":
          u = expr()
          take()
          v = expr()
          depth = None
          if peek() == ",":
            take()
            depth = int(take())
          take()
          u = self.closure(u)
          return {l for l in u if self.closure({l}, depth) & v}
        raise ValueError(t)
      return self.pattern(t.strip("'\""), here)
    v = expr()
    if pos[0] != len(toks):
      raise ValueError(e)
    return v

  def closure(self, v, depth=None):
    out, todo, d = set(v), set(v), 0
    while todo and (depth is None or d < depth):
      todo = {x for l in todo for x in self.rules[l].get("deps", ())} - out
      out |= todo
      d += 1
    return out

  def pattern(self, p, here):
    if not p.startswith("//"):
      if ":" in p:
        pk, nm = p.split(":", 1)
        p = "//%s:%s" % ("/".join(x for x in (here, pk) if x), nm)
      elif "//" + (here + "/" if here else "") + p + ":*" and self.pkg("/".join(x for x in (here, p) if x)):
        p = "//" + "/".join(x for x in (here, p) if x)
      else:  # a file path inside a package
        full = "/".join(x for x in (here, p) if x)
        parts = full.split("/")
        for i in range(len(parts) - 1, -1, -1):
          if self.pkg("/".join(parts[:i])):
            p = "//%s:%s" % ("/".join(parts[:i]), "/".join(parts[i:]))
            break
    if p.endswith("/..."):
      pre = p[:-4]
      return {l for l in self.rules if (l.startswith(pre + "/") or l.startswith(pre + ":")) and self.rules[l]["kind"] != "file"}
    if ":" not in p:
      p = p + ":" + p.rsplit("/", 1)[-1]
    pk, nm = p.split(":", 1)
    if nm in ("*", "all-targets", "all"):
      v = {l for l in self.rules if l.startswith(pk + ":") and (nm != "all" or self.rules[l]["kind"] != "file")}
      if not v:
        raise KeyError(p)
      return v
    if p not in self.rules:
      raise KeyError(p)
    return {p}

  def pkg(self, d):
    return any(l.startswith("//%s:" % d) for l in self.rules)


FLAGS = ["--mlir-to-ckks=min-slot-count=1024", "--annotate-module=backend=openfhe scheme=ckks", "--scheme-to-openfhe", "--x=$HOME", "--q='a'", '--d="b c"', "--semi=a;b",
         "--amp=a&b", "--lt=<3>", "--uni=é", "--star=*", "--pipe=a|b", "", "--a=b,c{d=1}", "--back=\\n", "-v", "--paren=f(x)", "--mlir-to-bgv=ciphertext-degree=8"]


def generate(seed):
  rng = random.Random(h64("e2e", seed))
  rules, files = {}, []
  pkgs = rng.sample(["tests/Examples/openfhe/ckks/dot", "tests/Examples/openfhe/bgv/add", "tests/Examples/lattigo/x", "tests/Examples/common", "tests/Examples/jaxite"], rng.randint(2, 4))
  for p in pkgs:
    for i in range(rng.choice([1, 1, 2, 3])):
      f = "%s%d.mlir" % (rng.choice(["a", "dot_product", "z"]), i)
      rules["//%s:%s" % (p, f)] = {"kind": "file"}
      files.append("//%s:%s" % (p, f))
  for p in pkgs:
    for i in range(rng.choice([0, 1, 1, 2, 3])):
      n = rng.choice(["dot", "b", "q"]) + str(i) + "_test"
      src = rng.choice(files)
      ho = "//%s:%s_heir_opt" % (p, n)
      rules[ho] = {"kind": "heir_opt", "src": src, "deps": [src], "flags": rng.sample(FLAGS, rng.randint(0, 5))}
      if rng.random() < 0.4 and rules[ho]["flags"]:  # a pass may run several times
        rules[ho]["flags"].insert(rng.randrange(len(rules[ho]["flags"]) + 1), rng.choice(rules[ho]["flags"]))
      rules["//%s:%s_translate" % (p, n)] = {"kind": "heir_translate", "deps": [ho], "src": ho}
      rules["//%s:%s" % (p, n)] = {"kind": "cc_test", "deps": ["//%s:%s_translate" % (p, n)] if rng.random() < 0.9 else []}
  ops = []
  labels = sorted(rules)
  for _ in range(rng.randint(1, 6)):
    if rng.random() < 0.3:
      ops.append(lit_op(rng, files))
      continue
    r = rng.random()
    tests = [l for l in labels if rules[l]["kind"] == "cc_test"]
    if r < 0.45 and tests:
      arg = rng.choice(tests)
    elif r < 0.6 and tests:
      arg = rng.choice([l for l in labels if rules[l]["kind"] == "heir_opt"])
    elif r < 0.7:
      arg = rng.choice(files)
    elif r < 0.85:
      arg = rng.choice(files)[2:].replace(":", "/")
    elif r < 0.95:
      arg = rng.choice(pkgs)
    else:
      arg = rng.choice(["//tests/Examples/nope:x", "nope.mlir", "nothing", "//tests/Examples/common:nope.mlir"])
    o = {"op": "e2e", "arg": arg, "cwd": rng.choice(["", "", "", "tests", rng.choice(pkgs), "/out"]), "bwd": rng.choice([None, None, "ws"]), "perm": rng.randrange(1 << 16), "answers": {}}
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
      o["answers"][str(rng.randrange(4))] = {"kind": rng.choice(["fail", "fail_partial", "fail_full", "signal", "cut", "rc3", "noise", "bytes", "missing"]),
                                             "rc": rng.choice([1, 2, 7, 36, 37]), "frac": rng.choice([0, 0.3, 0.5, 0.9])}
    o["fault"] = script.rand_fault(rng, {"spawn": (["EAGAIN", "ENOMEM"], 3)}, 0.1)
    ops.append(o)
  return {"rules": rules, "ops": ops, "wsname": rng.choice(["ws", "ws", "my ws", "w$s"]), "simple": {"wsname": "ws"}}


def lit_op(rng, files):
  runs = []
  for _ in range(rng.choice([1, 1, 1, 2, 3])):
    runs.append(lit_run(rng))
  text = "".join("// RUN: %s\n" % l for _, _, ls in runs for l in ls)
  if rng.random() < 0.5:
    text = "// a comment\n" + text
  text += "\nfunc.func @f() {\n  // CHECK: return\n  return\n}\n"
  f = rng.choice(files)
  return {"op": "lit", "file": f, "text": text, "runs": [[s, rd] for s, rd, _ in runs], "form": rng.choice(["path", "abs", "label", "label.test", "dots.test"]),
          "cwd": rng.choice(["", "", "tests", "/out"]), "bwd": rng.choice([None, "ws"]), "run": rng.random() < 0.3, "run_rc": rng.choice([0, 0, 1]), "debug": rng.random() < 0.5,
          "fault": script.rand_fault(rng, {"read": (["EIO", "EACCES"], 1), "mut": (["EACCES"], 3), "spawn": (["EAGAIN"], 1)}, 0.1)}


def lit_run(rng):
  """-> stages, redirect or None, RUN lines"""
  stages = []
  for i in range(rng.choice([1, 1, 2, 3])):
    stages.append([rng.choice(["heir-opt", "heir-opt", "heir-translate"])] + rng.sample(["--a=1", "--mlir-to-ckks", "'--x=y z'", "--emit-openfhe", '"--q=r s"', "-split-input-file", "--b=c,d", '--e=\\"f\\"', "'--lt=<3>'"], rng.randint(0, 3)))
  stages[0].insert(rng.choice([1, len(stages[0])]), "%s")
  if rng.random() < 0.1:
    stages[0].insert(0, "not")
  redirect = rng.choice(["> %t", "2>&1 > %t"]) if rng.random() < 0.25 else None
  if redirect is None and rng.random() < 0.8:
    if rng.random() < 0.15:
      stages[-1].append("2>&1")
    stages.append(["FileCheck", "%s"] + rng.choice([[], ["--check-prefix=B"]]))
  words = []
  for i, s in enumerate(stages):
    if i:
      words.append("|")
    words += s
  lines, cur = [], []
  for w in words:
    if cur and rng.random() < 0.2:
      lines.append(" ".join(cur) + " \\")
      cur = []
    cur.append(w)
  lines.append(" ".join(cur))
  if redirect:
    lines[-1] += " " + redirect
    if rng.random() < 0.7:
      lines.append("FileCheck %s < %t")
  return stages, redirect, lines


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = BRun(box)
  r.ws = box + "/" + plan["wsname"]
  r.rules = plan["rules"]
  os.makedirs(box + "/out")
  os.makedirs(r.ws + "/tests")
  for l, ru in r.rules.items():
    pk, nm = l[2:].split(":")
    os.makedirs(r.ws + "/" + pk, exist_ok=True)
    open(r.ws + "/" + pk + "/BUILD", "a").close()
    if ru["kind"] == "file":
      with open(r.ws + "/" + pk + "/" + nm, "w") as f:
        f.write("// RUN: heir-opt %s | FileCheck %s\nmodule {}\n")
  world.begin(r, req["seed"])
  try:
    for n, o in enumerate(plan["ops"]):
      c.ops += 1
      (e2e if o["op"] == "e2e" else lit)(c, r, n, o)
  finally:
    world.end()
  return c.result()


def where(c, r, o):
  return c.box + "/out" if o["cwd"] == "/out" else os.path.join(r.ws, o["cwd"])


def e2e(c, r, n, o):
  env = {"PATH": "/usr/bin", "HOME": c.box}
  if o["bwd"]:
    env["BUILD_WORKSPACE_DIRECTORY"] = r.ws
  r.begin_proc(o["fault"])
  r.bwd = bool(o["bwd"])
  r.answers, r.calls, r.bad, r.info, r.cut, r.perm = o["answers"], [], [], [], [], o["perm"]
  with world.quietly():
    before = simple.tree(c.box)
  cwd = where(c, r, o)
  if not os.path.isdir(cwd):
    cwd = r.ws
  p = script.execute(c, E2E, [o["arg"]], cwd, env, pypath=["/repo"])
  c.tools += len(r.calls)
  c.note(n, o["arg"], o["cwd"], p.status, p.out, p.err.strip().split("\n")[-1][-200:])
  c.state(p.status, len(r.calls), tuple(r.bad), o["cwd"], bool(o["bwd"]), "bazel run" in p.out, tuple(sorted(x["kind"] for x in o["answers"].values())))
  with world.quietly():
    if simple.tree(c.box) != before:
      c.add("C14", "changes-files", "e2e", "e2e_to_bazel changed files")
  cmds = [l for l in p.out.split("\n") if l.startswith("bazel run")]
  what = "e2e_to_bazel %s (in %s, queries %d, failed %s)" % (o["arg"], o["cwd"] or ".", len(r.calls), ["%s:%s" % (i, o["answers"].get(str(i), {}).get("kind", "directory")) for i in r.bad])
  if p.status < 0:
    return
  if not cmds:
    if not (p.out + p.err).strip():
      c.add("C14", "silent", "e2e", "%s printed nothing at all" % what)
    good = candidates(r, o["arg"])
    in_ws = o["cwd"] != "/out" or o["bwd"]
    at_root = o["cwd"] == "" or o["bwd"] or o["arg"].startswith("//")
    if good and not r.bad and not r.hits and in_ws and at_root:
      c.add("C14", "no-command", "e2e", "%s printed no command: %s" % (what, (p.out + p.err)[-300:]))
    return
  if len(cmds) > 1:
    c.add("C14", "many-commands", "e2e", "%s printed %d commands" % (what, len(cmds)))
  good = candidates(r, o["arg"])
  try:
    words = shlex.split(cmds[0])
  except ValueError as e:
    c.add("C14", "not-shell-safe", "e2e", "%s printed %r: %s" % (what, cmds[0], e))
    return
  # what a shell would hand to bazel
  lex = shlex.shlex(cmds[0], posix=True, punctuation_chars="();<>|&`$*?")
  lex.whitespace_split = True
  # unquoted special characters show up as extra tokens
  if unquoted_special(cmds[0]):
    c.add("C14", "not-shell-safe", "e2e", "%s printed shell-active characters: %r" % (what, cmds[0]))
    return
  head = ["bazel", "run", "--noallow_analysis_cache_discard", "//tools:heir-opt", "--"]
  if words[:5] != head:
    c.add("C14", "wrong-command", "head", "%s printed %r" % (what, cmds[0]))
    return
  ok = False
  for t in good:
    ru = r.rules[t]
    rel = ru["src"][2:].replace(":", "/")
    srcs = [r.ws + "/" + rel] + ([rel] if any(i in r.bad for i in range(len(r.calls)) if r.calls[i] == "missing" or i in r.info) or r.hits else [])
    if words[5:-1] == ru["flags"] and words[-1] in srcs:
      ok = True
  if not ok:
    c.add("C14", "wrong-command", "target", "%s printed %r; the heir_opt of that target is %s" % (what, cmds[0], {t: (r.rules[t]["flags"], r.rules[t]["src"]) for t in good}))


def unquoted_special(s):
  q, i = None, 0
  while i < len(s):
    ch = s[i]
    if q == "'":
      if ch == "'":
        q = None
    elif q == '"':
      if ch == "\\":
        i += 1
      elif ch == '"':
        q = None
      elif ch in "$`":
        return True
    elif ch in "'\"":
      q = ch
    elif ch == "\\":
      i += 1
    elif ch in "$`;&|<>()*?[]{}!#~" and not (ch in "{}" and False):
      return True
    i += 1
  return False


def candidates(r, arg):
  """heir_opt rules the argument asks for."""
  ru = r.rules
  is_ho = lambda l: ru[l]["kind"] == "heir_opt"
  if arg in ru and arg.startswith("//") and not arg.endswith(".mlir"):
    d = [l for l in r.closure({arg}) if is_ho(l)]
    return d or [l for l in ru if is_ho(l) and l.startswith(arg.split(":")[0] + ":")]
  lab = arg
  if arg.endswith(".mlir") and not arg.startswith("//"):
    lab = "//%s:%s" % tuple(arg.rsplit("/", 1)) if "/" in arg else arg
  if lab.endswith(".mlir"):
    return [l for l in ru if is_ho(l) and lab in r.closure({l})] if lab in ru else []
  if os.path.isdir(r.ws + "/" + arg):
    return [l for l in ru if is_ho(l) and l.startswith("//" + arg + ":")]
  return []


def lit(c, r, n, o):
  pk, nm = o["file"][2:].split(":")
  path = r.ws + "/" + pk + "/" + nm
  debug = c.box + "/dbg"
  with world.quietly():
    with open(path, "w") as f:
      f.write(o["text"])
    if o["debug"]:
      os.makedirs(debug + "/old", exist_ok=True)
      with open(debug + "/old/x", "w") as f:
        f.write("old dump\n")
    before = simple.tree(c.box)
  form = {"path": pk + "/" + nm, "abs": path, "label": o["file"], "label.test": o["file"] + ".test", "dots.test": o["file"][2:] + ".test"}[o["form"]]
  env = {"PATH": "/usr/bin", "HOME": c.box}
  if o["bwd"]:
    env["BUILD_WORKSPACE_DIRECTORY"] = r.ws
  r.begin_proc(o["fault"])
  r.calls, r.answers, r.ran, r.run_rc, r.bad, r.info, r.cut = [], {}, [], o["run_rc"], [], [], []
  p = script.execute(c, LIT, [form, "--git_root=/g", "--debug_dir=" + debug] + (["--run"] if o["run"] else []), where(c, r, o), env, pypath=["/repo"])
  with world.quietly():
    after = simple.tree(c.box)
  c.note(n, "lit", form, o["cwd"], p.status, p.out, p.err.strip().split("\n")[-1][-200:], r.ran)
  c.state("lit", p.status, o["form"], o["cwd"], bool(o["bwd"]), o["run"], [len(x) for x, _ in o["runs"]], [bool(x) for _, x in o["runs"]])
  what = "lit_to_bazel %s (in %s, RUN lines %r)" % (form, o["cwd"] or ".", [l for l in o["text"].split("\n") if "RUN" in l])
  gone = {f for f in before if f not in after and not f.startswith("dbg")}
  chg = {f for f in before if f in after and after[f] != before[f]}
  if gone or chg or (not o["run"] and before != after):
    c.add("C14", "changes-files", "lit", "%s changed %s" % (what, sorted(gone | chg)[:3] or "the debug directory"))
  found = o["cwd"] == "" or o["bwd"] or o["form"] == "abs"
  src = path
  tool = {"heir-opt": ["bazel", "run", "--noallow_analysis_cache_discard", "//tools:heir-opt", "--"], "heir-translate": ["/g/bazel-bin/tools/heir-translate"]}
  chain = []
  for stages, redirect in o["runs"]:
    pipe = [" ".join(y for x in s for y in tool.get(x, [x])) for s in stages if s[0] != "FileCheck"]
    chain.append(" | ".join(pipe) + (" " + redirect if redirect else ""))
  want = " && ".join(chain).replace("%s", src)
  if o["run"]:
    want += " --mlir-print-ir-after-all --mlir-print-ir-tree-dir=" + debug
  cmds = [l for l in p.out.split("\n") if "heir-opt" in l or "heir-translate" in l]
  cmds = [l for l in cmds if not l.startswith("Converting bazel test target")]
  if p.status == 0:
    if not cmds:
      c.add("C14", "silent", "lit", "%s exits 0 and prints no command: %r" % (what, p.out[-200:]))
    elif " ".join(cmds[0].split()) != " ".join(want.split()):
      c.add("C14", "wrong-command", "lit", "%s printed %r, expected %r" % (what, cmds[0], want))
    if o["run"] and not r.ran:
      c.add("C14", "not-run", "lit", "%s --run exits 0 and ran nothing" % what)
    if o["run"] and o["run_rc"] and r.ran:
      c.add("C14", "failure-hidden", "lit", "%s --run exits 0 although the command failed" % what)
  elif found and not r.hits and not (o["run"] and o["run_rc"]):
    c.add("C14", "fails-without-fault", "lit", "%s: %s" % (what, p.err[-250:]))
