"""Talking to the MLIR simulator (dst/cxx/mlir_sim.cpp), one forked process per request."""
import json
import os
import struct
import subprocess

P = None
N = 0


def prepare(scratch, name="mlir_sim"):
  global P
  def drop():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)
  exe = os.path.join(os.path.dirname(scratch), "bin", name)
  P = subprocess.Popen(["/usr/bin/setarch", "-R", exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=drop,
                       bufsize=0, cwd="/", env={"PATH": "/usr/bin:/bin"})
  if P.stdout.readline() != b"ready\n":
    raise RuntimeError(name + " did not start")


def call(box, ops, **kw):
  """-> reply dict; {"crash": status, "err": text} if the process died."""
  global N
  N += 1
  i, o = os.path.join(box, "in%d.json" % N), os.path.join(box, "out%d.json" % N)
  rep = kw.pop("replay", None)
  with open(i, "w") as f:
    json.dump(dict(kw, ops=ops), f)
  if rep is not None:
    with open(i + ".rep", "wb") as f:
      f.write(struct.pack("<%dQ" % len(rep), *rep))
  os.chmod(box, 0o777)
  tok = "%d-%d" % (os.getpid(), N)
  os.write(P.stdin.fileno(), ("%s\t%s\t%s\n" % (i, o, tok)).encode())
  buf = b""
  while True:
    while b"\n" not in buf:
      d = os.read(P.stdout.fileno(), 4096)
      if not d:
        raise RuntimeError("mlir_sim is gone")
      buf += d
    line, buf = buf.split(b"\n", 1)
    w = line.decode().split()
    if w[0] == tok:
      break
  st = int(w[1])
  try:
    with open(o + ".err", errors="replace") as f:
      err = f.read()[-1500:]
  except OSError:
    err = ""
  if st:
    return {"crash": os.waitstatus_to_exitcode(st), "err": err}
  with open(o) as f:
    r = json.load(f)
  r["err"] = err
  for x in (i, o, o + ".err") + ((i + ".rep",) if rep is not None else ()):
    os.unlink(x)
  return r


def pairs(t):
  return [[t[i], t[i + 1]] for i in range(0, len(t), 2)]


def flat(s):
  return [x for p in s for x in p]
