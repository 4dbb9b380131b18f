"""Simulation of scripts/get_version.py (C09): a simulated package index, wall
clock and CI output file over a history of publishing runs."""
import datetime as _dt
import json
import os
import random
import re

from dst import script, simple, world
from dst.script import h64

RD = _dt.datetime  # the real class, before install_clock
DAY = 86400


def prepare(scratch):
  world.install()
  import argparse, runpy, requests, encodings.idna  # noqa
  script.install_http()
  world.install_clock()


class VRun(script.SRun):

  def __init__(self, scratch):
    super().__init__(scratch)
    self.index = {}      # package -> {version: files}
    self.http_plan = []
    self.answered = False
    self.requests = 0

  def http(self, ad, req, timeout):
    import requests
    if self.dead:
      raise script.Kill()
    self.requests += 1
    k = self.hit("spawn")
    step = self.http_plan[min(self.requests - 1, len(self.http_plan) - 1)] if self.http_plan else {}
    kind = step.get("kind", "ok") if self.requests <= len(self.http_plan) or step.get("sticky") else "ok"
    lat = step.get("lat_us", 50000)
    world.RUN.clock_us += lat
    if timeout and lat > 1e6 * (timeout if isinstance(timeout, (int, float)) else 10) or kind == "timeout":
      self.fire("http_timeout")
      world.RUN.clock_us += 10_000_000 if kind == "timeout" else 0
      raise requests.exceptions.ReadTimeout("read timed out", request=req)
    if kind == "conn":
      self.fire("http_connection_error")
      raise requests.exceptions.ConnectionError("connection refused", request=req)
    m = re.match(r"https://pypi\.org/pypi/([^/?]+)/json/?$", req.url.split("?")[0])
    if m is None:
      return script.respond(ad, req, 404, {"Content-Type": "text/html"}, b"not found")
    name = m.group(1)
    norm = re.sub(r"[-_.]+", "-", name).lower()
    if kind == "redirect" and name != norm:
      self.fire("http_redirect")
      return script.respond(ad, req, 301, {"Location": "/pypi/%s/json" % norm, "Content-Length": "0"}, b"")
    if kind in ("500", "503", "429", "403"):
      self.fire("http_" + kind)
      return script.respond(ad, req, int(kind), {"Content-Type": "text/html"}, b"<html>error</html>")
    if kind == "html":
      self.fire("http_html")
      return script.respond(ad, req, 200, {"Content-Type": "text/html"}, b"<html>maintenance</html>")
    if norm not in self.index:
      self.answered = True
      return script.respond(ad, req, 404, {"Content-Type": "application/json"}, b'{"message": "Not Found"}')
    rel = self.index[norm]
    body = json.dumps({"info": {"name": name, "version": "0.0.1"}, "releases": rel, "urls": []}).encode()
    h = {"Content-Type": "application/json"}
    if kind == "cut":
      self.fire("http_truncated")
      return script.respond(ad, req, 200, dict(h, **{"Content-Length": str(len(body))}) if step.get("cl") else h, body, len(body) // 2)
    self.answered = True
    return script.respond(ad, req, 200, dict(h, **{"Content-Length": str(len(body))}), body)


def norm_version(v):
  """PEP 440 normal form of a release or dev version, or None."""
  m = re.fullmatch(r"v?(\d+(?:\.\d+)*)(?:[._-]?dev[._-]?(\d*))?", v)
  if not m:
    return None
  rel = [int(x) for x in m.group(1).split(".")]
  return tuple(rel), (int(m.group(2) or 0) if "dev" in v else None)


def day_of(us):
  d = RD.fromtimestamp(us // 1000000, _dt.timezone.utc)
  return (d.year, d.month, d.day)


ZONES = ["UTC", "America/Los_Angeles", "Asia/Tokyo", "Pacific/Kiritimati", "Pacific/Pago_Pago", None, "EST5EDT"]
TAGS = ["v2026.04.01", "v0.1.0", "0.1.0", "v1.0.0rc1", "2026.1.2", "v2026.11.19.1", "v3", "v1.0.0-beta", "v2.0dev", "nightly-v3", "v"]


def generate(seed):
  rng = random.Random(h64("version", seed))
  y, m, d = rng.choice([(2026, 11, 19), (2026, 1, 5), (2026, 10, 31), (2026, 12, 31), (2028, 2, 28), (2026, 4, 30), (2025, 9, 9), (2026, 2, 10)])
  t0 = int(RD(y, m, d, tzinfo=_dt.timezone.utc).timestamp()) * 1000000
  t0 += rng.choice([0, 1, 3600, 43200, DAY - 2, DAY - 1, DAY - 60, rng.randrange(DAY)]) * 1000000 + rng.randrange(1000000)
  style = rng.choice(["norm", "raw", "mixed"])
  seed_rel = []
  for _ in range(rng.choice([0, 0, 1, 3, 6])):
    dd = rng.choice([(y, m, d), (y, m, d), (y, m, d), (y - 1, m, d), (y, m, d + 1), (y, m, d - 1), (y, m + 10, d), (y, m, d * 10), (10 * y + 2, m, d)])
    form = rng.choice(["%d.%d.%d.dev%d", "%d.%d.%d.dev%d", "%d.%02d.%02d.dev%d", "%d.%d.%ddev%d"][:3])
    seed_rel.append(form % (dd + (rng.choice([0, 1, 2, 9, 10, 11, 99, 100]),)))
  for _ in range(rng.choice([0, 0, 1, 3])):
    seed_rel.append(rng.choice(["%d.%d.%d" % (y, m, d), "%d.%02d.%02d" % (y, m, d), "%d.%d.%drc1" % (y, m, d), "0.1.0", "%d.%d.%d.post1" % (y, m, d),
                                "%d.%d.%d.dev5+local" % (y, m, d), "1%d.%d.%d.dev7" % (y, m, d), "0.0.0", "garbage"]))
  ops = []
  tz = rng.choice(ZONES)
  for _ in range(rng.randint(1, 9)):
    r = rng.random()
    if r < 0.2:
      ops.append({"op": "clock", "add_us": rng.choice([1, 1000000, 3600_000000, DAY * 1000000, rng.randrange(1, 2 * DAY) * 1000000])})
      continue
    if r < 0.28:
      ops.append({"op": "yank", "i": rng.randrange(50), "how": rng.choice(["yank", "delete_files"])})
      continue
    o = {"op": "run", "tz": tz, "event": "workflow_dispatch", "ref": "refs/heads/main", "tag": None, "gha": rng.random() < 0.6,
         "out": rng.choice(["file", "file", "file", "new", "unset", "empty"]), "prior": rng.choice(["", "a=b\n", "version=old\nshould_publish=x\n", "é=日本\n", "x<<EOF\n1\n2\nEOF\n"]),
         "pkg": rng.choice([None, None, None, "other-pkg", "heir_py"]), "defaults": rng.random() < 0.3, "http": []}
    r = rng.random()
    if r < 0.12:
      o["tag"] = rng.choice(TAGS)
    elif r < 0.2:
      o["event"] = "pull_request"
      o["tag"] = rng.choice([None, None, "v1.0.0"])
      o["ref"] = rng.choice(["refs/pull/1/merge", "refs/heads/main"])
    elif r < 0.32:
      o["event"] = "schedule"
      o["tag"] = rng.choice([None, None, "v2026.04.01", "1.2.3"])
    elif r < 0.37:
      o["ref"] = "refs/heads/feature"
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
      o["http"].append({"kind": rng.choice(["ok", "ok", "500", "503", "429", "403", "timeout", "conn", "cut", "html", "redirect", "redirect"]), "cl": rng.random() < 0.5,
                        "lat_us": rng.choice([1000, 1000, 2000000, 9000000, 30000000])})
    if o["http"] and rng.random() < 0.3:
      o["http"][-1]["sticky"] = 1
    o["fault"] = script.rand_fault(rng, {"write": (["ENOSPC", "EIO", "short", "kill"], 2), "mut": (["EACCES", "ENOSPC", "kill"], 1), "close": (["EIO"], 1)}, 0.2)
    ops.append(o)
  return {"t0": t0, "style": style, "rel": seed_rel, "ops": ops, "simple": {"style": "norm", "rel": []}}


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = VRun(box)
  r.epoch_us, r.clock_us = plan["t0"], 0
  rel = {v: [{"filename": "w"}] for v in plan["rel"]}
  r.index = {"heir-py": rel, "other-pkg": {"%s.dev42" % RD.fromtimestamp(plan["t0"] // 1000000, _dt.timezone.utc).strftime("%Y.%-m.%-d"): []}}
  world.begin(r, req["seed"])
  published = []
  try:
    for n, o in enumerate(plan["ops"]):
      c.ops += 1
      if o["op"] == "clock":
        r.clock_us += o["add_us"]
        c.note(n, "clock", o["add_us"])
        continue
      if o["op"] == "yank":
        ks = sorted(rel)
        if ks:
          k = ks[o["i"] % len(ks)]
          rel[k] = [{"filename": "w", "yanked": True}] if o["how"] == "yank" else []
        continue
      one(c, r, n, o, rel, published)
  finally:
    world.end()
  return c.result(nontrivial=len(plan["ops"]) > 1 or r.fired)


def one(c, r, n, o, rel, published):
  box = c.box
  env = {"PATH": "/usr/bin", "HOME": box}
  if o["tz"]:
    env["TZ"] = o["tz"]
  outp = os.path.join(box, "gh_out_%d" % n)
  prior = b""
  if o["out"] in ("file", "new"):
    env["GITHUB_OUTPUT"] = outp
    if o["out"] == "file":
      prior = o["prior"].encode()
      with world.quietly(), open(outp, "wb") as f:
        f.write(prior)
  elif o["out"] == "empty":
    env["GITHUB_OUTPUT"] = ""
  argv = []
  if not (o["defaults"] and o["event"] == "workflow_dispatch" and o["ref"] == "refs/heads/main"):
    argv += ["--event", o["event"], "--ref", o["ref"]]
  if o["tag"]:
    argv += ["--tag", o["tag"]]
  if o["pkg"]:
    argv += ["--package", o["pkg"]]
  if o["gha"]:
    argv.append("--gha")
  r.begin_proc(o.get("fault"))
  r.http_plan, r.answered, r.requests = o["http"], False, 0
  before = [norm_version(v) for v in r.index[re.sub("_", "-", o["pkg"] or "heir_py")]]
  t1 = r.epoch_us + r.clock_us
  p = script.execute(c, "/repo/scripts/get_version.py", argv, box, env)
  t2 = r.epoch_us + r.clock_us
  c.tools += r.requests
  c.note(n, o["event"], o["ref"], o["tag"], p.status, p.out, p.err.strip().split("\n")[-1][-200:], r.requests)
  c.state(o["event"], bool(o["tag"]), p.status, r.answered, o["out"], o["gha"], day_of(t1) != day_of(t2), len(before), tuple(h.get("kind") for h in o["http"]))
  if r.escapes:
    c.add("C09", "writes-elsewhere", "escape", "wrote outside: %s" % r.escapes[:2])
  kv = [l.split("=", 1) for l in p.out.split("\n") if "=" in l]
  got = dict((k, v) for k, v in kv if k in ("version", "should_publish"))
  data = b""
  if os.path.exists(outp):
    with world.quietly(), open(outp, "rb") as f:
      data = f.read()
  if not data.startswith(prior):
    c.add("C09", "output-disturbed", "GITHUB_OUTPUT", "run %d: earlier contents of the CI output file were changed: %r -> %r" % (n, prior[:60], data[:80]))
  if not p.ok:
    if not r.hits and not any(h["kind"] != "ok" or h["lat_us"] >= 9000000 for h in o["http"]):
      c.add("C09", "fails-without-fault", "status", "run %d failed without a fault: %s" % (n, p.err[-300:]))
    return
  if set(got) != {"version", "should_publish"} or len(kv) != 2:
    c.add("C09", "bad-output", "lines", "run %d printed %r" % (n, p.out[:200]))
    return
  if o["gha"] and o["out"] in ("file", "new"):
    tail = data[len(prior):].decode("utf-8", "replace")
    w = sorted(tail.split("\n"))
    if w != sorted(["version=" + got["version"], "should_publish=" + got["should_publish"], ""]):
      c.add("C09", "output-file", "values", "run %d exits 0 having printed %r but written %r for the CI job" % (n, p.out, tail[:200]))
  elif data != prior:
    c.add("C09", "output-file", "unasked", "run %d wrote the CI output file without --gha" % n)
  pub = got["should_publish"]
  v = got["version"]
  if o["event"] == "pull_request":
    if pub != "false":
      c.add("C09", "pr-published", "pull_request", "a pull request run says should_publish=%s (version %s)" % (pub, v))
    return
  if o["tag"]:
    want = o["tag"][1:] if o["tag"].startswith("v") else o["tag"]
    if v != want:
      c.add("C09", "tag-version", "tag", "tag %r gives version %r" % (o["tag"], v))
    if pub != "true":
      c.add("C09", "not-published", "tag", "a tagged release says should_publish=%s" % pub)
    return
  if o["event"] == "workflow_dispatch" and o["ref"] != "refs/heads/main":
    if pub != "false":
      c.add("C09", "branch-published", "ref", "a run on %s says should_publish=%s" % (o["ref"], pub))
    return
  nv = norm_version(v)
  days = {day_of(t1), day_of(t2)}
  if pub != "true":
    c.add("C09", "not-published", o["event"], "a %s run on main says should_publish=%s" % (o["event"], pub))
  if nv is None or tuple(nv[0]) not in days:
    c.add("C09", "wrong-day", o["event"], "version %s computed on UTC day %s (zone %s)" % (v, sorted(days), o["tz"]))
    return
  if o["event"] == "schedule":
    if nv[1] is not None:
      c.add("C09", "schedule-dev", "schedule", "the scheduled release got %s" % v)
    return
  if nv[1] is None:
    c.add("C09", "dev-not-dev", "dispatch", "a development run got the release version %s" % v)
    return
  if r.answered:
    same = [x[1] for x in before if x and x[0] == nv[0] and x[1] is not None]
    want = max(same, default=-1) + 1
    if nv[1] < want:
      c.add("C09", "collides", "dev", "version %s, but dev%d of that day is already published (index: %s)" % (v, want - 1, sorted(rel)[:8]))
    elif nv[1] > want:
      c.add("C09", "skips", "dev", "version %s, but the next free number of that day is dev%d" % (v, want))
  else:
    r.probe("index_unavailable")
  pkg = re.sub("_", "-", o["pkg"] or "heir_py")
  st = c.plan["style"]
  key = v if st == "raw" or st == "mixed" and n % 2 else ".".join(str(x) for x in nv[0]) + ".dev%d" % nv[1]
  if nv not in [norm_version(x) for x in r.index[pkg]]:
    r.index[pkg][key] = [{"filename": "w"}]
