"""A zygote for simulated runs: imports the code under test once, forks one child
per run.  Protocol: one JSON request per line on stdin, one JSON reply per line.

usage: host.py SIM SCRATCH
"""
import gc
import importlib
import json
import os
import select
import signal
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

_real = {"time": time.time, "fork": os.fork, "pipe": os.pipe, "read": os.read, "write": os.write,
         "kill": os.kill, "mkdir": os.mkdir, "setuid": os.setuid}


def drop():
  try:
    os.setgroups([])
    os.setgid(65534)
    _real["setuid"](65534)
  except OSError:
    pass


def child(sim, req, wfd, scratch):
  signal.signal(signal.SIGALRM, signal.SIG_DFL)
  signal.alarm(int(req.get("limit", 60)))
  gc.disable()
  try:
    res = sim.run(req, scratch)
  except BaseException as e:  # an error of the simulator itself
    import traceback
    res = {"error": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-3000:]}
  data = json.dumps(res).encode()
  off = 0
  while off < len(data):
    off += _real["write"](wfd, data[off:off + 65536])
  os._exit(0)


def main():
  simname, scratch = sys.argv[1:3]
  out = os.dup(1)
  dn = os.open("/dev/null", os.O_WRONLY)
  os.dup2(dn, 1)
  sim = importlib.import_module("sims." + simname)
  sim.prepare(scratch)
  drop()
  gc.collect()
  gc.freeze()
  _real["write"](out, b'{"ready":1}\n')
  buf = b""
  n = 0
  import shutil
  while True:
    while b"\n" not in buf:
      d = _real["read"](0, 1 << 16)
      if not d:
        return
      buf += d
    line, buf = buf.split(b"\n", 1)
    r, w = _real["pipe"]()
    # the run's scratch directory has the same name in every run and every host
    box = os.path.join(scratch, "box")
    if os.path.lexists(box):
      shutil.rmtree(box, ignore_errors=True)
    _real["mkdir"](box)
    pid = _real["fork"]()
    if pid == 0:
      os.close(r)
      child(sim, json.loads(line), w, box)
    os.close(w)
    chunks = []
    while True:
      d = _real["read"](r, 1 << 20)
      if not d:
        break
      chunks.append(d)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if st != 0 or not data:
      data = json.dumps({"died": st}).encode()
    _real["write"](out, data + b"\n")


if __name__ == "__main__":
  main()
