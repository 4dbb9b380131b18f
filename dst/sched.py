"""Deterministic cooperative scheduler for real Python threads.

Exactly one task thread runs at any time; who runs next is decided here, from a
seeded PRNG or from an explicit list of deviations (replay).  Tasks reach the
scheduler at switch points: source lines of the code under test (sys.monitoring
LINE events), simulated tool runs, file operations and lock operations.
"""
import _thread
import random
import sys
import threading

REAL_ALLOC = _thread.allocate_lock
ACTIVE = None  # the scheduler of the current run, if tasks are running


class Deadlock(BaseException):
  pass


class Task:
  __slots__ = ("idx", "fn", "sem", "state", "wake", "cond", "exc", "ident", "name", "parent")

  def __init__(self, idx, fn, name):
    self.idx = idx
    self.fn = fn
    self.sem = REAL_ALLOC()
    self.sem.acquire()
    self.state = "ready"  # ready | sleep | blocked | done
    self.wake = 0
    self.cond = None
    self.exc = None
    self.ident = None
    self.name = name


class Sched:

  def __init__(self, seed, p_line=0.02, p_io=0.5, explicit=None, max_steps=200000):
    self.rng = random.Random(seed)
    self.p = {"line": p_line, "io": p_io, "lock": 0.3}
    self.explicit = None if explicit is None else {int(k): v for k, v in explicit}
    self.k = 0
    self.taken = []       # [decision index, task] wherever the default was not taken
    self.tasks = []
    self.by_ident = {}
    self.cur = None
    self.now = 0          # simulated microseconds
    self.main = REAL_ALLOC()
    self.main.acquire()
    self.deadlocked = False
    self.switches = 0
    self.order = []       # sequence of (task) at switches: the interleaving
    self.max_steps = max_steps
    self.line_points = 0
    self.io_points = 0

  # -- task side
  def current(self):
    return self.by_ident.get(_thread.get_ident())

  def spawn(self, fn, name="t"):
    t = Task(len(self.tasks), fn, name)
    t.parent = self.current()
    self.tasks.append(t)

    def boot():
      t.ident = _thread.get_ident()
      self.by_ident[t.ident] = t
      started.release()
      t.sem.acquire()
      try:
        if not self.deadlocked:
          fn()
      except Deadlock:
        pass
      except BaseException as e:  # recorded, the op layer normally catches
        t.exc = e
      finally:
        t.state = "done"
        self.by_ident.pop(t.ident, None)
        self._handoff(t)

    started = REAL_ALLOC()
    started.acquire()
    _thread.start_new_thread(boot, ())
    started.acquire()
    return t

  def _ready(self):
    out = []
    for t in self.tasks:
      if t.state == "ready":
        out.append(t)
      elif t.state == "blocked" and t.cond():
        out.append(t)
    return out

  def _decide(self, cands, default, kind, forced):
    """Pick the next task among cands; `default` is taken unless decided otherwise."""
    k = self.k
    self.k += 1
    if len(cands) == 1:
      return cands[0]
    if self.explicit is not None:
      want = self.explicit.get(k)
      if want is not None:
        for t in cands:
          if t.idx == want:
            if t is not default:
              self.taken.append([k, t.idx])
            return t
      return default
    if forced or self.rng.random() < self.p[kind]:
      t = self.rng.choice(cands)
      if t is not default:
        self.taken.append([k, t.idx])
      return t
    return default

  def _next(self, me, kind, forced):
    while True:
      cands = self._ready()
      if cands:
        break
      sl = [t for t in self.tasks if t.state == "sleep"]
      if not sl:
        return None
      nxt = min(sl, key=lambda t: (t.wake, t.idx))
      self.now = max(self.now, nxt.wake)
      for t in sl:
        if t.wake <= self.now:
          t.state = "ready"
    # tasks whose sleep has expired are ready too
    for t in self.tasks:
      if t.state == "sleep" and t.wake <= self.now:
        t.state = "ready"
    cands = self._ready()
    default = me if (me in cands) else cands[0]
    return self._decide(cands, default, kind, forced)

  def point(self, kind):
    me = self.current()
    if me is None or me is not self.cur:
      return
    if self.deadlocked:
      raise Deadlock()
    if kind == "line":
      self.line_points += 1
    else:
      self.io_points += 1
    if self.k > self.max_steps:
      return
    nxt = self._next(me, kind, False)
    if nxt is not me:
      self._switch(me, nxt)

  def sleep(self, us):
    me = self.current()
    if me is None:
      self.now += us
      return
    if len(self.tasks) == 1:
      self.now += us
      return
    me.state = "sleep"
    me.wake = self.now + us
    nxt = self._next(me, "io", True)
    if nxt is not me:
      self._switch(me, nxt)
    else:
      me.state = "ready"

  def block_until(self, cond):
    me = self.current()
    if cond():
      return
    me.state = "blocked"
    me.cond = cond
    nxt = self._next(me, "lock", True)
    if nxt is None:
      self._deadlock()
      raise Deadlock()
    if nxt is not me:
      self._switch(me, nxt)
    me.state = "ready"
    me.cond = None

  def _deadlock(self):
    self.deadlocked = True
    for t in self.tasks:
      if t.state != "done":
        t.state = "ready"

  def _switch(self, me, nxt):
    self.switches += 1
    self.order.append(nxt.idx)
    if nxt.state == "blocked":
      nxt.state = "ready"
      nxt.cond = None
    self.cur = nxt
    nxt.sem.release()
    me.sem.acquire()
    if self.deadlocked:
      raise Deadlock()

  def _handoff(self, me):
    live = [t for t in self.tasks if t.state != "done"]
    if not live:
      self.main.release()
      return
    nxt = self._next(me, "io", True)
    if nxt is None:
      self._deadlock()
      nxt = live[0]
    if nxt.state == "blocked":
      nxt.state = "ready"
      nxt.cond = None
    self.order.append(nxt.idx)
    self.cur = nxt
    nxt.sem.release()

  # -- main side
  def run(self):
    global ACTIVE
    if not self.tasks:
      return
    ACTIVE = self
    cands = self._ready()
    first = self._decide(cands, cands[0], "io", True)
    self.cur = first
    self.order.append(first.idx)
    first.sem.release()
    self.main.acquire()
    ACTIVE = None


def point(kind):
  s = ACTIVE
  if s is not None:
    s.point(kind)


def sleep(us):
  s = ACTIVE
  if s is not None:
    s.sleep(us)


# ---------------------------------------------------------------- locks
class SimLock:

  def __init__(self):
    self._l = REAL_ALLOC()

  def acquire(self, blocking=True, timeout=-1):
    s = ACTIVE
    me = s.current() if s is not None else None
    if me is None:
      return self._l.acquire(blocking, timeout)
    s.point("lock")
    if self._l.acquire(False):
      return True
    if not blocking:
      return False
    if timeout is not None and timeout >= 0:
      deadline = s.now + int(timeout * 1e6)
      while not self._l.acquire(False):
        if s.now >= deadline:
          return False
        s.sleep(max(1000, deadline - s.now))
      return True
    while not self._l.acquire(False):
      s.block_until(lambda: not self._l.locked())
    return True

  def release(self):
    self._l.release()
    s = ACTIVE
    if s is not None and s.current() is not None:
      s.point("lock")

  def locked(self):
    return self._l.locked()

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *a):
    self.release()

  def _at_fork_reinit(self):
    self._l = REAL_ALLOC()


class SimRLock:

  def __init__(self):
    self._b = SimLock()
    self._owner = None
    self._count = 0

  def acquire(self, blocking=True, timeout=-1):
    me = _thread.get_ident()
    if self._owner == me:
      self._count += 1
      return True
    rc = self._b.acquire(blocking, timeout)
    if rc:
      self._owner = me
      self._count = 1
    return rc

  __enter__ = acquire

  def release(self):
    if self._owner != _thread.get_ident():
      raise RuntimeError("cannot release un-acquired lock")
    self._count -= 1
    if not self._count:
      self._owner = None
      self._b.release()

  def __exit__(self, *a):
    self.release()

  def _release_save(self):
    c, o = self._count, self._owner
    self._count = 0
    self._owner = None
    self._b.release()
    return (c, o)

  def _acquire_restore(self, st):
    self._b.acquire()
    self._count, self._owner = st

  def _is_owned(self):
    return self._owner == _thread.get_ident()

  def _at_fork_reinit(self):
    self._b._at_fork_reinit()
    self._owner = None
    self._count = 0


def install_lock_seams():
  """Locks created after this call are decided by the scheduler."""
  import queue
  threading.Lock = SimLock
  threading.RLock = SimRLock
  threading._allocate_lock = SimLock
  threading._CRLock = SimRLock
  queue.SimpleQueue = queue._PySimpleQueue

  orig_start = threading.Thread.start

  def start(self):
    s = ACTIVE
    if s is None or s.current() is None:
      return orig_start(self)
    if self._started.is_set():
      raise RuntimeError("threads can only be started once")
    done = []

    def body():
      self._started.set()
      self._ident = _thread.get_ident()
      threading._active[self._ident] = self
      try:
        self.run()
      except SystemExit:
        pass
      except Deadlock:
        raise
      except BaseException:
        threading.excepthook(threading.ExceptHookArgs((*sys.exc_info(), self)))
      finally:
        threading._active.pop(self._ident, None)
        done.append(1)
        self._is_stopped = True

    self._sim_done = done
    s.spawn(body, self.name)
    s.point("io")

  orig_join = threading.Thread.join

  def join(self, timeout=None):
    d = getattr(self, "_sim_done", None)
    s = ACTIVE
    if d is None or s is None or s.current() is None:
      return orig_join(self, timeout) if d is None else None
    s.block_until(lambda: bool(d))

  orig_alive = threading.Thread.is_alive

  def is_alive(self):
    d = getattr(self, "_sim_done", None)
    return (not d) if d is not None else orig_alive(self)

  threading.Thread.start = start
  threading.Thread.join = join
  threading.Thread.is_alive = is_alive


# ---------------------------------------------------------------- line events
_TOOL = 3


def _line_cb(code, line):
  s = ACTIVE
  if s is not None and len(s.tasks) > 1:
    s.point("line")


def instrument(prefix):
  """Turn on LINE switch points for every loaded function under `prefix`."""
  mon = sys.monitoring
  if mon.get_tool(_TOOL) is None:
    mon.use_tool_id(_TOOL, "dst")
    mon.register_callback(_TOOL, mon.events.LINE, _line_cb)
  import gc
  import types
  seen = set()
  n = 0

  def visit(c):
    nonlocal n
    if c in seen:
      return
    seen.add(c)
    mon.set_local_events(_TOOL, c, mon.events.LINE)
    n += 1
    for k in c.co_consts:
      if isinstance(k, types.CodeType):
        visit(k)

  for o in gc.get_objects():
    if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(prefix):
      visit(o.__code__)
  return n
