"""Process-level seams: subprocesses, files, randomness, clocks, dynamic loading.

install() patches this process (a zygote) once; begin(run) arms a run in a forked
child.  With no run armed, everything behaves normally.
"""
import builtins
import errno
import importlib.machinery as im
import io
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import types

from dst import sched

RUN = None  # the armed run


def h64(*parts):
  """Small deterministic hash of a tuple of ints and strings (FNV-1a)."""
  x = 0xCBF29CE484222325
  for p in parts:
    for b in str(p).encode() + b"\x1f":
      x ^= b
      x = (x * 0x100000001B3) & 0xFFFFFFFFFFFFFFFF
  x ^= x >> 29
  x = (x * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
  return x ^ (x >> 32)


class Run:
  """State of one simulated run; sims subclass it and override the handlers."""

  def __init__(self, scratch):
    self.scratch = os.path.realpath(scratch)
    self.fired = {}      # fault kind -> times it actually fired
    self.probes = {}     # rare condition -> times reached
    self.escapes = []    # attempted writes outside the scratch directory
    self.quiet = 0       # >0: the simulator itself is using the file system

  def fire(self, kind):
    self.fired[kind] = self.fired.get(kind, 0) + 1

  def probe(self, name):
    self.probes[name] = self.probes.get(name, 0) + 1

  # handlers
  def spawn(self, argv, env, cwd, stdin):
    """-> (returncode, stdout bytes, stderr bytes) or raises OSError."""
    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), str(argv[0]))

  def fs_fault(self, opname, path):
    """Called before each mutating file operation inside scratch; may raise."""

  def fs_event(self, opname, path):
    """Called after each mutating file operation inside scratch."""

  def redirect(self, path):
    return path

  def order(self, names, path):
    return sorted(names)

  def load_so(self, name, path):
    raise ImportError("no simulated loader")

  def read_fault(self, opname, path):
    pass

  def raw_write(self, path, data):
    """-> (bytes that reach the file, error or None), or None when the process is dead."""
    return len(data), None

  def raw_close(self, path):
    pass


def active():
  return RUN is not None and RUN.quiet == 0


# ------------------------------------------------------------- subprocess
class SimPopen:
  """Stands in for subprocess.Popen; runs the tool inside the simulator."""

  def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
               stderr=None, preexec_fn=None, close_fds=True, shell=False,
               cwd=None, env=None, universal_newlines=None, startupinfo=None,
               creationflags=0, restore_signals=True, start_new_session=False,
               pass_fds=(), *, user=None, group=None, extra_groups=None,
               encoding=None, errors=None, text=None, umask=-1, pipesize=-1,
               process_group=None):
    self.args = args
    self.pid = 4242
    self.returncode = None
    self._text = bool(text or encoding or errors or universal_newlines)
    self._enc = encoding or "utf-8"
    self._errors = errors or "strict"
    if isinstance(args, (str, bytes, os.PathLike)):
      argv = args if shell else [args]
    else:
      argv = list(args)
    if shell:
      self._argv = argv
    else:
      self._argv = [os.fsdecode(a) for a in argv]
    self._shell = shell
    self._env = dict(os.environ) if env is None else {os.fsdecode(k): os.fsdecode(v) for k, v in env.items()}
    self._cwd = os.fspath(cwd) if cwd is not None else os.getcwd()
    self._out_kind, self._err_kind = stdout, stderr
    self._result = None
    self.stdin = None
    self.stdout = None
    self.stderr = None
    if executable is not None and not shell:
      self._argv[0] = os.fsdecode(executable)
    run = RUN
    self._proc = run.spawn_begin(self)
    if stdin == subprocess.PIPE:
      self.stdin = io.StringIO() if self._text else io.BytesIO()
      self.stdin_close = self.stdin.close
      self.stdin.close = lambda: None
      self._stdin_data = None
    elif stdin is None or stdin == subprocess.DEVNULL:
      self._stdin_data = b""
    else:
      try:
        self._stdin_data = stdin.read()
      except Exception:
        self._stdin_data = b""

  def _finish(self, data):
    if self._result is not None:
      return
    if data is None:
      data = b""
    if isinstance(data, str):
      data = data.encode("utf-8")
    rc, out, err = RUN.spawn_run(self, data)
    self.returncode = rc
    if self._err_kind == subprocess.STDOUT:
      out, err = out + err, b""
    self._result = (out, err)
    for kind, val in ((self._out_kind, out), (self._err_kind, err)):
      if kind not in (None, subprocess.PIPE, subprocess.DEVNULL, subprocess.STDOUT):
        if isinstance(kind, int):
          RUN.quiet += 1
          os.write(kind, val)
          RUN.quiet -= 1
        else:
          try:
            kind.write(val if "b" in getattr(kind, "mode", "") else val.decode("utf-8", "replace"))
          except TypeError:
            kind.write(val.decode("utf-8", "replace"))
          kind.flush()

  def _conv(self, b):
    if self._text:
      return b.decode(self._enc, self._errors).replace("\r\n", "\n")
    return b

  def communicate(self, input=None, timeout=None):
    if input is None and self.stdin is not None:
      input = self.stdin.getvalue()
    self._finish(input)
    out, err = self._result
    o = self._conv(out) if self._out_kind == subprocess.PIPE else None
    e = self._conv(err) if self._err_kind == subprocess.PIPE else None
    return o, e

  def wait(self, timeout=None):
    self._finish(self.stdin.getvalue() if self.stdin is not None else b"")
    out, err = self._result
    if self._out_kind == subprocess.PIPE and self.stdout is None:
      self.stdout = io.StringIO(self._conv(out)) if self._text else io.BytesIO(out)
    if self._err_kind == subprocess.PIPE and self.stderr is None:
      self.stderr = io.StringIO(self._conv(err)) if self._text else io.BytesIO(err)
    return self.returncode

  def poll(self):
    return self.wait()

  def kill(self):
    if self.returncode is None:
      self.returncode = -9
      self._result = (b"", b"")

  terminate = kill

  def send_signal(self, s):
    self.kill()

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def __class_getitem__(cls, k):
    return cls


_REAL_POPEN = subprocess.Popen
_R = {}


def _abspath_at(path, dir_fd=None):
  p = os.fsdecode(path)
  if dir_fd is not None and not p.startswith("/"):
    p = os.path.join(_R["readlink"]("/proc/self/fd/%d" % dir_fd), p)
  return _R["normpath"](_R["join"](_R["getcwd"](), p))


def _inside(p):
  s = RUN.scratch
  return p == s or p.startswith(s + "/")


def _mutating(name, two=False):
  real = getattr(os, name)
  _R[name] = real

  def f(*a, **k):
    if not active():
      return real(*a, **k)
    RUN_ = RUN
    p = _abspath_at(a[0], k.get("dir_fd") if not two else k.get("src_dir_fd"))
    paths = [p]
    if two:
      paths.append(_abspath_at(a[1], k.get("dst_dir_fd")))
    r = [RUN_.redirect(x) for x in paths]
    for q in r:
      if not _inside(q):
        RUN_.escapes.append([name, q])
        raise PermissionError(errno.EPERM, "blocked by the simulator", q)
    sched.point("io")
    RUN_.fs_fault(name, p)
    if r != paths:
      a = tuple(r) + tuple(a[len(r):])
      k = {x: y for x, y in k.items() if not x.endswith("dir_fd")}
    res = real(*a, **k)
    RUN_.fs_event(name, p)
    return res

  f.__name__ = name
  return f


class FaultyFile:
  """A file opened for writing, whose write/flush/close can fail as planned."""

  def __init__(self, f, path, plan):
    self.__dict__["_f"] = f
    self.__dict__["_p"] = path
    self.__dict__["_plan"] = plan  # ("write"|"close", errno, fraction kept, kind)

  def write(self, data):
    kind, eno, frac, name = self._plan
    if kind == "write":
      n = int(len(data) * frac)
      if n:
        self._f.write(data[:n])
      self._f.flush()
      RUN.fire(name)
      raise OSError(eno, os.strerror(eno), self._p)
    return self._f.write(data)

  def writelines(self, lines):
    for l in lines:
      self.write(l)

  def close(self):
    kind, eno, frac, name = self._plan
    if kind == "close" and not self._f.closed:
      self._f.close()
      RUN.fire(name)
      raise OSError(eno, os.strerror(eno), self._p)
    self._f.close()

  def __getattr__(self, k):
    return getattr(self._f, k)

  def __iter__(self):
    return iter(self._f)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()
    return False


class SimRaw(io.RawIOBase):
  """The raw file under Python's own buffering: each write is one simulated system call."""

  def __init__(self, q, p, mode):
    flags = {"w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
             "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL, "r": os.O_RDONLY}[[c for c in mode if c in "waxr"][0]]
    if "+" in mode:
      flags = flags & ~(os.O_WRONLY | os.O_RDONLY) | os.O_RDWR
    self._run, self._p, self.name, self.mode = RUN, p, p, mode
    self._rw = "+" in mode
    try:
      self._fd = _R["os.open"](q, flags | os.O_CLOEXEC, 0o666)
    except OSError as e:
      raise type(e)(e.errno, e.strerror, p) from None

  def readable(self):
    return self._rw

  def writable(self):
    return True

  def seekable(self):
    return True

  def fileno(self):
    return self._fd

  def seek(self, o, w=0):
    return os.lseek(self._fd, o, w)

  def tell(self):
    return os.lseek(self._fd, 0, 1)

  def truncate(self, n=None):
    n = self.tell() if n is None else n
    if RUN is self._run and active():
      RUN.fs_fault("ftruncate", self._p)
    os.ftruncate(self._fd, n)
    return n

  def readinto(self, b):
    d = os.read(self._fd, len(b))
    b[:len(d)] = d
    return len(d)

  def write(self, b):
    b = bytes(b)
    if RUN is not self._run:
      return len(b)
    n = RUN.raw_write(self._p, b)
    if n is None:
      return len(b)  # the process is dead: buffered data is lost
    off, err = n
    k = 0
    while k < off:
      k += os.write(self._fd, b[k:off])
    if err is not None:
      raise err
    return off

  def close(self):
    if self.closed:
      return
    super().close()
    os.close(self._fd)
    if RUN is self._run and active():
      RUN.raw_close(self._p)


def _raw_open(q, p, mode, buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
  raw = SimRaw(q, p, mode)
  if buffering == 0:
    return raw
  f = (io.BufferedRandom if "+" in mode else io.BufferedWriter)(raw)
  if "b" in mode:
    return f
  return io.TextIOWrapper(f, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)


def _sim_open(file, mode="r", *a, **k):
  real = _R["open"]
  if not active() or isinstance(file, int):
    return real(file, mode, *a, **k)
  p = _abspath_at(os.fspath(file))
  q = RUN.redirect(p)
  writing = any(c in mode for c in "wax+")
  if not writing:
    if _inside(q):
      sched.point("io")
      RUN.read_fault("open", p)
    return real(q if q != p else file, mode, *a, **k)
  if q in ("/dev/null", "/dev/tty", "/dev/stdout", "/dev/stderr"):
    return real(file, mode, *a, **k)
  if not _inside(q):
    RUN.escapes.append(["open:" + mode, q])
    raise PermissionError(errno.EPERM, "blocked by the simulator", q)
  sched.point("io")
  plan = RUN.fs_fault("open:" + mode, p)
  if getattr(RUN, "raw_files", False):
    f = _raw_open(q, p, mode, *a, **k)
    RUN.fs_event("open:" + mode, p)
    return f
  f = real(q, mode, *a, **k)
  RUN.fs_event("open:" + mode, p)
  if plan:
    return FaultyFile(f, p, plan)
  return f


def _sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
  real = _R["os.open"]
  if not active():
    return real(path, flags, mode, dir_fd=dir_fd)
  p = _abspath_at(path, dir_fd)
  q = RUN.redirect(p)
  if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
    if not _inside(q) and q != "/dev/null":
      RUN.escapes.append(["os.open", q])
      raise PermissionError(errno.EPERM, "blocked by the simulator", q)
    sched.point("io")
    RUN.fs_fault("os.open", p)
    fd = real(q, flags, mode) if q != p else real(path, flags, mode, dir_fd=dir_fd)
    RUN.fs_event("os.open", p)
    return fd
  return real(q, flags, mode) if q != p else real(path, flags, mode, dir_fd=dir_fd)


def _readonly(name):
  real = getattr(os, name)
  _R[name] = real

  def f(path=".", *a, **k):
    if not active() or isinstance(path, int) or k.get("dir_fd") is not None:
      return real(path, *a, **k)
    p = _abspath_at(path)
    q = RUN.redirect(p)
    RUN.read_fault(name, p)
    if q == p:
      return real(path, *a, **k)
    try:
      return real(q, *a, **k)
    except OSError as e:
      raise type(e)(e.errno, e.strerror, os.fsdecode(path)) from None

  f.__name__ = name
  return f


class _Ent:
  """A directory entry whose path is the one the program asked for."""

  def __init__(self, e, base):
    self._e, self.name, self.path = e, e.name, _R["join"](base, e.name)
    for k in ("is_dir", "is_file", "is_symlink", "stat", "inode", "is_junction"):
      setattr(self, k, getattr(e, k))

  def __fspath__(self):
    return self.path


class _Scan:
  """os.scandir in the order the simulator decides."""

  def __init__(self, it, path, base=None):
    ents = {e.name: (e if base is None else _Ent(e, base)) for e in it}
    it.close()
    self.l = [ents[n] for n in RUN.order(list(ents), path)]
    self.i = 0

  def __iter__(self):
    return self

  def __next__(self):
    if self.i >= len(self.l):
      raise StopIteration
    self.i += 1
    return self.l[self.i - 1]

  def close(self):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    pass


def _listdir(path="."):
  real = _R["listdir"]
  if not active() or isinstance(path, int):
    return real(path)
  p = _abspath_at(path)
  RUN.read_fault("listdir", p)
  return RUN.order(real(RUN.redirect(p)), p)


def _scandir(path="."):
  real = _R["scandir"]
  if not active():
    return real(path)
  if isinstance(path, int):
    return real(path)
  p = _abspath_at(path)
  RUN.read_fault("scandir", p)
  q = RUN.redirect(p)
  if q != p:
    return _Scan(real(q), p, os.fspath(path))
  return _Scan(real(path), p)


class _Names:
  """Replaces tempfile's random names by a seeded, deterministic sequence."""

  def __init__(self):
    self.n = 0

  def __iter__(self):
    return self

  def __next__(self):
    self.n += 1
    return "s%06x" % (h64("tmp", RUN.seed if RUN else 0, self.n) & 0xFFFFFF)


# ------------------------------------------------------------- dynamic loading
_orig_create = im.ExtensionFileLoader.create_module
_orig_exec = im.ExtensionFileLoader.exec_module


def _is_sim_so(path):
  try:
    with _R["open"](path, "rb") as f:
      return f.read(7) == b"SIMSO1\n"
  except OSError:
    return False


def _create(self, spec):
  if RUN is not None and not self.path.startswith(sys.prefix):
    if not os.path.exists(self.path) or _is_sim_so(self.path) or _inside(os.path.realpath(self.path)):
      return RUN.load_so(spec.name, self.path)
  return _orig_create(self, spec)


def _exec(self, module):
  if getattr(module, "__sim_so__", False):
    return None
  return _orig_exec(self, module)


# ------------------------------------------------------------- clocks, randomness
def _t(name, fn):
  _R[name] = getattr(time, name)

  def f(*a):
    if not active():
      return _R[name](*a)
    return fn(*a)
  return f


def sim_now_us():
  base = getattr(RUN, "epoch_us", 1_700_000_000_000_000)
  s = sched.ACTIVE
  return base + (s.now if s is not None else getattr(RUN, "clock_us", 0))


def _sleep(s):
  if sched.ACTIVE is not None:
    sched.sleep(int(s * 1e6))
  else:
    RUN.clock_us = getattr(RUN, "clock_us", 0) + int(s * 1e6)


def install_clock():
  """Simulated wall clock for datetime and the argument-less time functions."""
  import datetime as dt
  rd, rdate = dt.datetime, dt.date

  class M(type(rd)):
    def __instancecheck__(cls, x):
      return isinstance(x, rd if cls is Dt else rdate) if cls in (Dt, Da) else type.__instancecheck__(cls, x)

  class Dt(rd, metaclass=M):
    @classmethod
    def now(cls, tz=None):
      if not active():
        return rd.now(tz)
      us = sim_now_us()
      return rd.fromtimestamp(us // 1000000, tz).replace(microsecond=us % 1000000)

    @classmethod
    def utcnow(cls):
      return cls.now(dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
      return cls.now()

  class Da(rdate, metaclass=M):
    @classmethod
    def today(cls):
      return Dt.now().date()
  dt.datetime, dt.date = Dt, Da
  for n in ("gmtime", "localtime"):
    def f(t=None, _r=getattr(time, n)):
      return _r(sim_now_us() // 1000000 if t is None and active() else t)
    setattr(time, n, f)
  rs, rct = time.strftime, time.ctime
  time.strftime = lambda fmt, t=None: rs(fmt, time.localtime() if t is None else t)
  time.ctime = lambda t=None: rct(sim_now_us() // 1000000 if t is None and active() else t)


def install():
  sched.install_lock_seams()
  subprocess.Popen = type("Popen", (object,), {
      "__new__": lambda cls, *a, **k: (SimPopen if RUN is not None else _REAL_POPEN)(*a, **k)})
  _R["normpath"] = os.path.normpath
  _R["join"] = os.path.join
  _R["getcwd"] = os.getcwd
  _R["readlink"] = os.readlink
  for n in ("mkdir", "rmdir", "unlink", "remove", "truncate", "chmod"):
    setattr(os, n, _mutating(n))
  for n in ("rename", "replace", "link"):
    setattr(os, n, _mutating(n, two=True))
  # symlink: only the new name is written
  real_sl = os.symlink

  def symlink(src, dst, *a, **k):
    if active():
      p = _abspath_at(dst, k.get("dir_fd"))
      if not _inside(p):
        RUN.escapes.append(["symlink", p])
        raise PermissionError(errno.EPERM, "blocked by the simulator", p)
    return real_sl(src, dst, *a, **k)
  os.symlink = symlink
  _R["open"] = builtins.open
  builtins.open = _sim_open
  io.open = _sim_open
  _R["os.open"] = os.open
  os.open = _sim_os_open
  for n in ("stat", "lstat", "access", "readlink"):
    setattr(os, n, _readonly(n))
  _R["listdir"] = os.listdir
  os.listdir = _listdir
  _R["scandir"] = os.scandir
  os.scandir = _scandir
  # shutil decided at import time whether the fd-based rmtree is usable
  shutil._use_fd_functions = False
  shutil._USE_CP_SENDFILE = False
  tempfile._get_candidate_names = _names
  im.ExtensionFileLoader.create_module = _create
  im.ExtensionFileLoader.exec_module = _exec
  real_urandom = os.urandom

  def urandom(n):
    if not active():
      return real_urandom(n)
    return RUN.rand.randbytes(n)
  os.urandom = urandom
  random._urandom = urandom
  real_getpid = os.getpid
  os.getpid = lambda: 4711 if active() else real_getpid()
  time.time = _t("time", lambda: sim_now_us() / 1e6)
  time.time_ns = _t("time_ns", lambda: sim_now_us() * 1000)
  time.monotonic = _t("monotonic", lambda: (sim_now_us() - 1_600_000_000_000_000) / 1e6)
  time.monotonic_ns = _t("monotonic_ns", lambda: (sim_now_us() - 1_600_000_000_000_000) * 1000)
  time.perf_counter = _t("perf_counter", lambda: (sim_now_us() - 1_600_000_000_000_000) / 1e6)
  time.sleep = _t("sleep", _sleep)
  real_system = os.system

  def system(cmd):
    if RUN is None:
      return real_system(cmd)
    p = SimPopen(cmd, shell=True)
    return p.wait() << 8
  os.system = system
  for n in ("kill", "killpg", "setuid", "chown", "chroot", "setsid", "fork", "execv", "execve",
            "execvp", "execvpe", "posix_spawn", "posix_spawnp", "mkfifo", "setxattr", "utime"):
    if hasattr(os, n):
      setattr(os, n, _forbid(n))
  real_chdir = os.chdir
  _R["chdir"] = real_chdir


def _forbid(n):
  real = getattr(os, n)
  _R[n] = real

  def f(*a, **k):
    if not active():
      return real(*a, **k)
    hk = getattr(RUN, "os_" + n, None)
    if hk is not None:
      return hk(*a, **k)
    if n in ("utime", "setxattr"):
      p = _abspath_at(a[0]) if not isinstance(a[0], int) else RUN.scratch
      if _inside(RUN.redirect(p)):
        return real(*a, **k)
    RUN.escapes.append([n, repr(a)[:200]])
    raise PermissionError(errno.EPERM, "blocked by the simulator: os." + n)
  return f


_NAMES = _Names()


def _names():
  return _NAMES if RUN is not None else tempfile._RandomNameSequence()


def begin(run, seed):
  global RUN, _NAMES
  run.seed = seed
  run.rand = random.Random(h64("urandom", seed))
  random.seed(h64("random", seed))
  _NAMES = _Names()
  RUN = run


def end():
  global RUN
  RUN = None


class quietly:
  """The simulator's own file accesses: no faults, no switch points."""

  def __enter__(self):
    if RUN is not None:
      RUN.quiet += 1

  def __exit__(self, *a):
    if RUN is not None:
      RUN.quiet -= 1
