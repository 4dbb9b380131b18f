"""Simulation of scripts/disable_mdformat.py (C11): repeated runs with file and
git faults and kills over a changing working tree."""
import os
import random

from dst import script, simple, world
from dst.script import h64

LINE = "<!-- mdformat global-off -->"
BL = LINE.encode()
SCRIPT = "/repo/scripts/disable_mdformat.py"


def prepare(scratch):
  world.install()
  import pathlib, runpy, shutil, re, glob, argparse  # noqa
  world.install_clock()


class MRun(script.SRun):

  def __init__(self, scratch):
    super().__init__(scratch)
    self.root = scratch + "/work/my repo"
    self.git = {}
    self.tracked, self.ignored = set(), set()

  def readable(self, path):
    return path.startswith(self.root)

  def check_prog(self, name, env, cwd):
    if name != "git" or self.git.get("kind") == "missing":
      self.fire("git_missing")
      raise FileNotFoundError(2, "No such file or directory", name)
    if not os.path.isdir(cwd):
      raise FileNotFoundError(2, "No such file or directory", cwd)

  def prog(self, argv, env, cwd, data):
    a = argv[1:]
    cwd0 = os.path.realpath(cwd)
    quote_path = True
    while a[:1] in (["-C"], ["-c"]):
      if a[0] == "-C":
        cwd0 = os.path.realpath(os.path.join(cwd0, a[1]))
      elif a[1].lower() in ("core.quotepath=off", "core.quotepath=false"):
        quote_path = False
      a = a[2:]
    inside = cwd0 == self.root or cwd0.startswith(self.root + "/")
    if not inside:
      return 128, b"", b"fatal: not a git repository (or any of the parent directories): .git\n"
    self.git_calls += 1
    g = self.git if self.git.get("at", 0) == self.git_calls - 1 else {}
    if g.get("kind") == "fail":
      self.fire("git_failure")
      return 128, b"", b"fatal: index file corrupt\n"
    if a[:1] == ["rev-parse"] and "--show-toplevel" in a:
      if g.get("kind") == "signal":
        self.fire("git_signal")
        return -9, b"", b""
      return 0, (self.root + "\n").encode(), b""
    if a[:1] != ["ls-files"]:
      return 129, b"", b"git: unknown command\n"
    pats, opts = [], a[1:]
    if "--" in opts:
      i = opts.index("--")
      opts, pats = opts[:i], opts[i + 1:]
    else:
      pats = [x for x in opts if not x.startswith("-")]
      opts = [x for x in opts if x.startswith("-")]
    z = "-z" in opts
    cached = "--cached" in opts or "-c" in opts or not ({"--others", "-o", "--deleted", "--modified", "-m", "-d"} & set(opts))
    names = set(self.tracked) if cached else set()
    if "--others" in opts or "-o" in opts:
      for r, ds, fs in os.walk(self.root):
        ds.sort()
        if ".git" in ds:
          ds.remove(".git")
        for f in fs:
          rel = os.path.relpath(os.path.join(r, f), self.root)
          if rel not in self.tracked and ("--exclude-standard" not in opts or rel not in self.ignored):
            names.add(rel)
    import fnmatch
    pre = "" if cwd0 == self.root else os.path.relpath(cwd0, self.root) + "/"
    out = b""
    for n in sorted(names):
      if not n.startswith(pre):
        continue
      m = n[len(pre):]
      if pats and not any(self.match(n, m, p) for p in pats):
        continue
      out += m.encode() + b"\0" if z else self.cquote(m, quote_path) + b"\n"
    if g.get("kind") == "signal":
      self.fire("git_signal")
      return -9, out[:len(out) // 2], b""
    return 0, out, b""

  @staticmethod
  def match(full, rel, p):
    import fnmatch
    if p.startswith(":(top)") or p.startswith(":/"):
      return fnmatch.fnmatchcase(full, p.split(")")[-1].lstrip(":/"))
    if p.startswith(":(glob)"):
      p = p[7:]
      return fnmatch.fnmatchcase(rel, p[3:]) if p.startswith("**/") else "/" not in rel and fnmatch.fnmatchcase(rel, p)
    return fnmatch.fnmatchcase(rel, p)

  @staticmethod
  def cquote(n, qp):
    b = n.encode()
    esc, need = b"", False
    for ch in b:
      if ch in b'"\\\t\n' or ch < 32:
        esc += {34: b'\\"', 92: b"\\\\", 9: b"\\t", 10: b"\\n"}.get(ch, b"\\%03o" % ch)
        need = True
      elif ch >= 128 and qp:
        esc += b"\\%03o" % ch
        need = True
      else:
        esc += bytes([ch])
    return b'"' + esc + b'"' if need else b


NAMES = ["README.md", "docs/a.md", "docs/b c.md", "docs/é.md", "docs/sub/日本.md", "docs/-x.md", "a/b/c/d.md", "docs/q\"uote.md", ".github/t.md", "docs/back\\s.md",
         "docs/node_modules/z.md"]
OTHER = ["docs/a.txt", "docs/a.md.bak", "docs/x.MD", "docs/y.mdx", "README", "lib/f.cpp"]
BODY = [b"", b"# Title\n\ntext\n", b"no newline", b"crlf\r\nline\r\n", b"crlf no end\r\nx", b"\xef\xbb\xbfbom\n", b"\xff\xfe not utf8\n", b"old mac\rx\r",
        b"has " + BL + b" inside\nmore\n", BL + b"\n", BL, b"twice\n" + BL + b"\n" + BL + b"\n", b"\n\n\n", b"---\ntitle: x\n---\n\nbody\n", b"x" * 9000 + b"\n",
        b"<!-- mdformat off -->\n", b"<!-- mdformat global-of", b"nul\x00byte\n", "é".encode() * 3000, b"<!--mdformat global-off-->\n", b"ends with space "]


def generate(seed):
  rng = random.Random(h64("mdfoot", seed))
  ops = []
  for n in rng.sample(NAMES, rng.randint(1, 7)) + rng.sample(OTHER, rng.randint(0, 3)):
    ops.append({"op": "put", "f": n, "b": rng.randrange(len(BODY)), "how": rng.choice(["tracked", "tracked", "tracked", "new", "ignored"])})
  for _ in range(rng.randint(1, 6)):
    r = rng.random()
    if r < 0.62:
      o = {"op": "run", "cwd": rng.choice(["", "", "docs", "a/b", "/out"]) if rng.random() < 0.4 else "", "salt": rng.randrange(1 << 20),
           "git": {"kind": rng.choice(["missing", "fail", "signal"]), "at": rng.choice([0, 1])} if rng.random() < 0.12 else {}}
      o["fault"] = script.rand_fault(rng, {"write": (["ENOSPC", "EIO", "short", "kill", "int"], 6), "mut": (["EACCES", "EROFS", "EMFILE", "kill", "int"], 6),
                                           "read": (["EIO", "EMFILE", "EACCES", "kill"], 6), "close": (["EIO", "kill"], 4)}, 0.45)
      ops.append(o)
    elif r < 0.85:
      ops.append({"op": "put", "f": rng.choice(NAMES + OTHER), "b": rng.randrange(len(BODY)), "how": rng.choice(["tracked", "new", "keep"])})
    elif r < 0.92:
      ops.append({"op": "rm", "f": rng.choice(NAMES)})
    else:
      ops.append({"op": "mode", "f": rng.choice(NAMES), "m": rng.choice([0, 0o444, 0o644])})
  return {"ops": ops, "simple": {}}


def files(root):
  out = {}
  for r, ds, fs in os.walk(root):
    ds.sort()
    for f in sorted(fs):
      p = os.path.join(r, f)
      m = os.stat(p).st_mode
      os.chmod(p, 0o644)
      with open(p, "rb") as fh:
        out[os.path.relpath(p, root)] = fh.read()
      os.chmod(p, m & 0o777)
  return out


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = MRun(box)
  os.makedirs(r.root + "/.git")
  for d in ("docs", "a/b", "lib"):
    os.makedirs(r.root + "/" + d)
  os.makedirs(box + "/work/out")
  with open(box + "/work/out/outside.md", "w") as f:
    f.write("outside\n")
  world.begin(r, req["seed"])
  try:
    for n, o in enumerate(plan["ops"]):
      c.ops += 1
      if o["op"] == "run":
        one(c, r, n, o)
        continue
      with world.quietly():
        p = os.path.join(r.root, o["f"])
        if o["op"] == "put":
          os.makedirs(os.path.dirname(p), exist_ok=True)
          if os.path.exists(p):
            os.chmod(p, 0o644)
          with open(p, "wb") as f:
            f.write(BODY[o["b"]])
          if o["how"] == "tracked":
            r.tracked.add(o["f"])
          elif o["how"] == "ignored" and o["f"] not in r.tracked:
            r.ignored.add(o["f"])
        elif o["op"] == "rm":
          if os.path.exists(p):
            os.unlink(p)
        elif os.path.exists(p):
          os.chmod(p, o["m"])
    with world.quietly():
      for f in files(r.root):
        os.chmod(os.path.join(r.root, f), 0o644)
    calm = {"cwd": "", "salt": 3, "git": {}, "fault": None}
    one(c, r, "calm1", calm)
    one(c, r, "calm2", calm, settled=True)
  finally:
    world.end()
  return c.result(nontrivial=sum(o["op"] == "run" for o in plan["ops"]) > 0)


def utf8(b):
  try:
    b.decode("utf-8")
    return True
  except UnicodeDecodeError:
    return False


def one(c, r, n, o, settled=False):
  work = c.box + "/work"
  pre = os.path.relpath(r.root, work) + "/"
  with world.quietly():
    before = files(work)
    modes = {f: os.stat(os.path.join(r.root, f)).st_mode & 0o777 for f in (x[len(pre):] for x in before if x.startswith(pre))}
  given = {x[len(pre):] for x in before if x.startswith(pre) and x.endswith(".md") and x[len(pre):] not in r.ignored - r.tracked}
  r.begin_proc(o["fault"])
  r.git, r.git_calls, r.scan_salt = o["git"], 0, o["salt"]
  cwd = c.box + "/work/out" if o["cwd"] == "/out" else os.path.join(r.root, o["cwd"])
  p = script.execute(c, SCRIPT, [], cwd, {"PATH": "/usr/bin", "HOME": c.box, "LANG": "C.UTF-8"})
  c.tools += r.git_calls
  with world.quietly():
    after = files(work)
  hits = r.hits
  c.note(n, p.status, p.out, p.err.strip().split("\n")[-1][-200:], sorted(after.items()))
  if r.escapes:
    c.add("C11", "writes-elsewhere", "escape", "tried to write %s" % r.escapes[:2])
  for x in before:
    if x not in after:
      c.add("C11", "file-removed", "removed", "run %s removed %s" % (n, x))
  for x in after:
    if x not in before:
      c.add("C11", "file-created", "created", "run %s left a new file %s (status %s)" % (n, x, p.status))
  changed, missing = [], []
  for x, b in sorted(before.items()):
    a = after.get(x, b)
    f = x[len(pre):] if x.startswith(pre) else None
    if a != b:
      changed.append(x)
      want = (b"\n" if b and not b.endswith(b"\n") else b"") + BL + b"\n"
      if f not in given:
        c.add("C11", "touched-other", "other", "run %s changed %s, which is not a markdown file of the repository" % (n, x))
      elif not a.startswith(b):
        c.add("C11", "bytes-changed", "altered", "run %s (status %s, fault %s) altered existing bytes of %s: %r -> %r" % (n, p.status, o["fault"], x, b[-60:], a[-60:]))
      elif BL in b:
        c.add("C11", "footer-twice", "twice", "run %s appended to %s, which already had the footer" % (n, x))
      elif not utf8(b):
        c.add("C11", "touched-binary", "binary", "run %s appended to %s, which is not UTF-8" % (n, x))
      else:
        s = a[len(b):]
        full = s.strip(b"\r\n") == BL and s.endswith(b"\n")
        if b and not b.endswith((b"\n", b"\r")) and not s.startswith((b"\n", b"\r\n")):
          full = False
        if not full and not (hits and (want.startswith(s) or b.endswith(b"\r") and (BL + b"\n").startswith(s))):
          c.add("C11", "bad-footer", "text", "run %s appended %r to %s" % (n, s[:80], x))
    if f in given and utf8(b) and not BL in a:
      missing.append((f, modes[f]))
  done = p.status not in (-9, -2)
  gitbad = o["cwd"] == "/out" or o["git"].get("kind") == "missing" or (o["git"] and r.git_calls > o["git"].get("at", 0)) or (o["git"] and r.git_calls == 0)
  c.state(p.status, len(changed), len(missing), bool(hits), bool(gitbad), o["fault"]["on"] if o["fault"] else "", len(given))
  if not done:
    return
  readable = [f for f, m in missing if m & 0o600 == 0o600]
  if readable and not hits and not gitbad and p.status == 0:
    c.add("C11", "footer-missing", "missing", "run %s exits %s without a fault, but %s has no footer" % (n, p.status, readable[:3]))
  elif readable and not hits and not gitbad:
    c.add("C11", "footer-missing", "missing-nonzero", "run %s finished without a fault, but %s has no footer: %s" % (n, readable[:3], p.err[-150:]))
  if p.status == 0:
    if changed:
      c.add("C11", "status-hides-change", "changed", "run %s changed %s and exits 0" % (n, changed[:3]))
    elif missing:
      c.add("C11", "status-hides-failure", "failed", "run %s could not add the footer to %s and exits 0: %s" % (n, [f for f, _ in missing][:3], p.err[-150:]))
    elif gitbad:
      c.add("C11", "status-hides-failure", "git", "run %s exits 0 although git failed (%s)" % (n, o["git"] or o["cwd"]))
  elif not changed and not missing and not hits and not gitbad and all(m & 0o400 for m in modes.values()):
    c.add("C11", "status-cries-wolf", "nothing", "run %s exits %s with nothing changed and nothing failed: %s" % (n, p.status, p.err[-200:]))
  if settled and (changed or p.status != 0):
    c.add("C11", "not-idempotent", "second", "a second run right after the first changed %s, status %s" % (changed[:3], p.status))
