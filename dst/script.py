"""Running /repo's scripts as simulated processes: faults on each file operation,
raw write, read, HTTP exchange or subprocess; kills that lose buffered data."""
import errno
import io
import os
import random
import re
import runpy
import shlex
import sys
import time
import traceback

from dst import world
from dst.world import h64

ERRS = ("ENOSPC", "EIO", "EACCES", "EMFILE", "EROFS", "ENOMEM", "EINTR")


class Kill(BaseException):
  """The process dies here; nothing it does afterwards reaches the world."""


class SRun(world.Run):
  raw_files = True
  fault = None
  dead = False
  intruder = None   # called once, when mutating operation number intrude_at begins
  intrude_at = None

  def __init__(self, scratch):
    super().__init__(scratch)
    self.count = {}
    self.sticky = {}
    self.hits = 0
    self.scan_salt = 0

  def begin_proc(self, fault=None):
    self.fault, self.dead, self.count, self.hits = fault, False, {}, 0
    self.sticky = {}
    self.intruder = self.intrude_at = None

  def readable(self, path):
    return False

  def hit(self, on):
    n = self.count.get(on, 0)
    self.count[on] = n + 1
    f = self.fault
    if f and f["on"] == on and f["n"] == n:
      self.hits += 1
      self.fire("%s_%s" % (on, f["kind"].lower()))
      return f["kind"]
    return None

  def strike(self, kind, path):
    """Raises what the fault kind says."""
    if kind == "kill":
      self.dead = True
      raise Kill()
    if kind == "int":
      raise KeyboardInterrupt()
    raise OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)), path)

  def fs_fault(self, opname, path):
    if self.dead:
      raise Kill()
    if self.intruder is not None and self.count.get("mut", 0) == self.intrude_at:
      i, self.intruder = self.intruder, None
      self.fire("intruder")
      with world.quietly():
        i()
    k = self.hit("mut")
    if k:
      self.strike(k, path)

  def read_fault(self, opname, path):
    if self.dead:
      raise Kill()
    if opname in ("open", "listdir", "scandir") and self.readable(path):
      k = self.hit("read")
      if k:
        self.strike(k, path)

  def raw_write(self, path, data):
    if self.dead:
      return None
    if path in self.sticky:
      self.strike(self.sticky[path], path)
    k = self.hit("write")
    if not k:
      return len(data), None
    cut = int(len(data) * self.fault.get("frac", 0.5))
    if k == "short":
      return max(1, cut), None
    if k == "kill":
      self.dead = True
      return cut, Kill()
    if k == "int":
      return 0, KeyboardInterrupt()
    self.sticky[path] = k  # a full or failing disk stays so for this file
    if cut:
      return cut, None
    return 0, OSError(getattr(errno, k), os.strerror(getattr(errno, k)), path)

  def raw_close(self, path):
    if self.dead:
      return
    k = self.hit("close")
    if k and k not in ("short",):
      self.strike(k, path)

  def order(self, names, path):
    names = sorted(names)
    if self.scan_salt:
      names.sort(key=lambda n: h64("scan", self.scan_salt, path.replace(self.scratch, ""), n))
    return names

  # subprocesses: sims implement prog(argv, env, cwd, stdin) -> (rc, out, err)
  def spawn_begin(self, p):
    if self.dead:
      raise Kill()
    k = self.hit("spawn")
    if k:
      self.strike(k, "fork")
    if not p._shell:
      self.check_prog(p._argv[0], p._env, p._cwd)
    return True

  def check_prog(self, name, env, cwd):
    pass

  def spawn_run(self, p, data):
    if self.dead:
      raise Kill()
    world.RUN.quiet += 1
    try:
      if p._shell:
        cmd = p._argv if isinstance(p._argv, str) else p._argv[0]
        return self.shell(cmd, p._env, p._cwd, data)
      return self.run_argv(p._argv, p._env, p._cwd, data)
    finally:
      world.RUN.quiet -= 1

  def run_argv(self, argv, env, cwd, data):
    b = os.path.basename(argv[0])
    if b in ("sh", "bash", "dash") and argv[1:]:
      pipefail = False
      a = argv[1:]
      i = 0
      while i < len(a):
        if a[i] == "-o":
          pipefail = pipefail or a[i + 1] == "pipefail"
          i += 2
          continue
        if a[i].startswith("-") and "c" in a[i]:
          if "o" in a[i]:
            pipefail = pipefail or a[i + 1] == "pipefail"
            i += 1
          return self.shell(a[i + 1], env, cwd, data, pipefail)
        i += 1
    return self.prog(argv, env, cwd, data)

  def prog(self, argv, env, cwd, data):
    return 127, b"", ("%s: not found\n" % argv[0]).encode()

  def shell(self, cmd, env, cwd, data, pipefail=False):
    """A small sh: sequences, &&, ||, pipelines, assignments, cd, redirections to files."""
    lex = shlex.shlex(cmd, posix=True, punctuation_chars=";|&<>\n")
    lex.whitespace = " \t\r"
    lex.whitespace_split = True
    try:
      toks = list(lex)
    except ValueError as e:
      return 2, b"", ("sh: syntax error: %s\n" % e).encode()
    out, err, rc = b"", b"", 0
    env = dict(env)
    pipe, cur, skip = [], [], False
    for t in toks + [";"]:
      if t in (";", "&&", "||", "\n", ";;", "&"):
        if cur or pipe:
          pipe.append(cur)
          if not skip:
            if pipe == [["set", "-o", "pipefail"]] or pipe == [["set", "-eo", "pipefail"]] or pipe == [["set", "-euo", "pipefail"]]:
              pipefail, rc = True, 0
            elif len(pipe) == 1 and pipe[0][0] == "cd":
              cwd, rc = os.path.join(cwd, pipe[0][1]), 0
            else:
              inp, rcs = data, []
              for p in pipe:
                e2 = dict(env)
                while p and re.match(r"^[A-Za-z_]\w*=", p[0]):
                  k, v = p[0].split("=", 1)
                  e2[k] = v
                  p = p[1:]
                if p[:1] in (["export"], ["env"]):
                  p = p[1:]
                red, q, i = {}, [], 0
                while i < len(p):
                  if p[i] in (">", ">>", "<") and i + 1 < len(p):
                    red[p[i]] = os.path.join(cwd, p[i + 1])
                    i += 2
                    continue
                  q.append(p[i])
                  i += 1
                if not q:
                  env.update(e2)
                  rcs.append(0)
                  continue
                if "<" in red:
                  with open(red["<"], "rb") as f:
                    inp = f.read()
                c, o, e = self.prog(q, e2, cwd, inp)
                err += e
                if ">" in red or ">>" in red:
                  with open(red.get(">") or red.get(">>"), "wb" if ">" in red else "ab") as f:
                    f.write(o)
                  o = b""
                rcs.append(128 - c if c < 0 else c)
                inp = o
              out += inp
              rc = next((x for x in reversed(rcs) if x), 0) if pipefail else rcs[-1]
        pipe, cur = [], []
        skip = (t == "&&" and rc != 0) or (t == "||" and rc == 0)
      elif t == "|":
        pipe.append(cur)
        cur = []
      else:
        cur.append(t)
    return rc, out, err

  def http(self, adapter, request, timeout):
    raise NotImplementedError


class Proc:
  """Outcome of one simulated process."""

  def __init__(self, status, out, err, exc):
    self.status, self.out, self.err, self.exc = status, out, err, exc

  @property
  def ok(self):
    return self.status == 0


def install_http():
  import requests
  import requests.adapters
  real = requests.adapters.HTTPAdapter.send

  def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    if world.RUN is None:
      return real(self, request, stream, timeout, verify, cert, proxies)
    return world.RUN.http(self, request, timeout)
  requests.adapters.HTTPAdapter.send = send


def respond(adapter, request, status, headers, body, cut=None):
  """A requests.Response built by the real adapter from simulated bytes."""
  import urllib3
  h = dict(headers)
  sent = body if cut is None else body[:cut]
  r = urllib3.HTTPResponse(body=io.BytesIO(sent), headers=h, status=status, reason={200: "OK"}.get(status, "x"),
                           preload_content=False, enforce_content_length="Content-Length" in h, request_url=request.url)
  return adapter.build_response(request, r)


def purge(root):
  for n, m in list(sys.modules.items()):
    f = getattr(m, "__file__", None) or ""
    if n != "__main__" and (n.split(".")[0] == "scripts" or f.startswith(root)):
      del sys.modules[n]


def execute(c, path, argv, cwd, env, *, call=None, pypath=(), nested=False):
  """Runs one script to its end as a simulated process."""
  save = sys.argv, sys.path[:], sys.stdout, sys.stderr, dict(os.environ), os.getcwd()
  out, err = io.StringIO(), io.StringIO()
  status, exc = 0, None
  purge(c.box)
  purge("/repo/scripts")
  try:
    os.environ.clear()
    os.environ.update(env)
    time.tzset()
    os.chdir(cwd)
    sys.argv = [path] + list(argv)
    sys.path = [os.path.dirname(path)] + list(pypath) + save[1]
    sys.stdout, sys.stderr = out, err
    importlib_invalidate()
    if call is not None:
      call()
    else:
      runpy.run_path(path, run_name="__main__")
  except SystemExit as e:
    if e.code is None:
      status = 0
    elif isinstance(e.code, int):
      status = e.code & 255
    else:
      err.write("%s\n" % (e.code,))
      status = 1
  except Kill:
    status, exc = -9, "Kill"
  except KeyboardInterrupt as e:
    status, exc = -2, e
    err.write("KeyboardInterrupt\n")
  except BaseException as e:
    status, exc = 1, e
    with world.quietly():
      tb = traceback.format_exc()
    err.write(tb)
  finally:
    if c.run.dead and status != -9 and not nested:
      status, exc = -9, "Kill"
    sys.argv, sys.path[:], sys.stdout, sys.stderr = save[0], save[1], save[2], save[3]
    os.environ.clear()
    os.environ.update(save[4])
    os.chdir(save[5])
    time.tzset()
  import gc
  if nested:
    return Proc(status, out.getvalue(), err.getvalue(), exc)
  if c.run.dead:
    gc.collect()  # buffered data of open files is lost with the process
    c.run.dead = False
  c.run.fault = c.run.intruder = None
  return Proc(status, out.getvalue(), err.getvalue(), exc)


def importlib_invalidate():
  import importlib
  importlib.invalidate_caches()


def rand_fault(rng, spec, p=0.4):
  """spec: {on: (kinds, max n)} -> a fault or None."""
  if rng.random() > p:
    return None
  on = rng.choice(sorted(spec))
  kinds, mx = spec[on]
  f = {"on": on, "n": min(mx, int(rng.expovariate(3.0 / mx))) if mx else 0, "kind": rng.choice(kinds)}
  if on == "write":
    f["frac"] = rng.choice([0, 0.1, 0.5, 0.9, 1.0])
  return f
