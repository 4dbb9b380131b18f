"""Simulation of scripts/author_stats.py (C15): a simulated GitHub API with pages,
faults and commits pushed while the pages are fetched."""
import collections
import csv
import datetime as _dt
import io
import json
import os
import random
import re
import urllib.parse

from dst import script, simple, world
from dst.script import h64

RD = _dt.datetime
SCRIPT = "/repo/scripts/author_stats.py"


def prepare(scratch):
  world.install()
  import runpy, csv, requests, encodings.idna, _strptime, collections  # noqa
  script.install_http()
  world.install_clock()


class GRun(script.SRun):

  def __init__(self, scratch):
    super().__init__(scratch)
    self.commits = []     # newest first
    self.times = []       # (start, end) of each exchange
    self.steps = {}
    self.pushed = []
    self.bad = []
    self.served = []

  def http(self, ad, req, timeout):
    import requests
    if self.dead:
      raise script.Kill()
    k = self.hit("spawn")
    n = len(self.times)
    st = self.steps.get(str(n), {})
    start = self.clock_us
    self.clock_us += st.get("lat_us", 120000)
    self.times.append((start, self.clock_us))
    kind = st.get("kind", "ok")
    u = urllib.parse.urlsplit(req.url)
    q = urllib.parse.parse_qs(u.query)
    if kind in ("timeout", "conn"):
      self.fire("http_" + kind)
      self.bad.append(n)
      raise (requests.exceptions.ReadTimeout if kind == "timeout" else requests.exceptions.ConnectionError)(kind, request=req)
    if u.netloc != "api.github.com" or not re.fullmatch(r"/(repos/google/heir|repositories/1234)/commits", u.path):
      return script.respond(ad, req, 404, {}, b'{"message":"Not Found"}')
    if kind in ("403", "429", "500", "502", "404", "401"):
      self.fire("http_" + kind)
      self.bad.append(n)
      return script.respond(ad, req, int(kind), {"Content-Type": "application/json", "X-RateLimit-Remaining": "0"},
                            {"empty": b"[]", "stale": json.dumps(self.commits[:3]).encode()}.get(st.get("ebody"), b'{"message": "API rate limit exceeded"}'))
    for cm in st.get("push", ()):
      self.fire("push_during_fetch")
      self.commits.insert(0, cm)
    per = int(q.get("per_page", ["30"])[-1])
    per = min(max(per, 1), self.cap)
    page = int(q.get("page", ["1"])[-1])
    part = self.commits[(page - 1) * per:page * per]
    self.served += [x["sha"] for x in part]
    h = {"Content-Type": "application/json; charset=utf-8"}
    last = max(1, -(-len(self.commits) // per))
    links = []
    base = "https://api.github.com/repositories/1234/commits?per_page=%d&page=%d"
    if page < last:
      links = ['<%s>; rel="next"' % (base % (per, page + 1)), '<%s>; rel="last"' % (base % (per, last))]
    if page > 1:
      links.append('<%s>; rel="prev"' % (base % (per, page - 1)))
      links.append('<%s>; rel="first"' % (base % (per, 1)))
    if links:
      h["Link"] = ", ".join(links)
    body = json.dumps(part, ensure_ascii=bool(st.get("ascii"))).encode()
    if kind == "cut":
      self.fire("http_truncated")
      self.bad.append(n)
      if st.get("cl"):
        h["Content-Length"] = str(len(body))
      return script.respond(ad, req, 200, h, body, len(body) // 2)
    if kind == "html":
      self.fire("http_html")
      self.bad.append(n)
      return script.respond(ad, req, 200, {"Content-Type": "text/html"}, b"<html>unicorn</html>")
    h["Content-Length"] = str(len(body))
    return script.respond(ad, req, 200, h, body)


NAMES = ["Jeremy Kun", "A, B", 'Quote "Q" Q', "日本 太郎", "Zoë", "bot[dependabot]", "Copybara-Service", "x", "Jeremy kun", " lead", "multi\tTab"]
MAILS = ["j@example.com", "a@google.com", "49699333+dependabot[bot]@users.noreply.github.com", "no-reply@google.com", "x@y.z", "copybara@google.com", "Dependabot@x.y", "noreply@google.com"]
MSGS = ["Fix bug", "Integrate LLVM at llvm/llvm-project@abc123\n\nbody", "Add x, y and z", 'Say "hi"', "Bump a from 1 to 2\n\nSigned-off-by: dependabot[bot]", "",
        "Merge pull request #12", "multi\nline\nbody", "integrate LLVM at llvm/llvm-project", "é\r\nwindows", "Update dependabot config", ";=cmd()"]


def commit(rng, i):
  y, mo = rng.choice([2023, 2024]), rng.randint(1, 12)
  return {"sha": "%040x" % h64("sha", i, rng.random()), "node_id": "x", "author": rng.choice([None, {"login": "x"}]),
          "commit": {"author": {"name": rng.choice(NAMES), "email": rng.choice(MAILS) if rng.random() < 0.9 else rng.choice(["", None]), "date": "%04d-%02d-%02dT%02d:%02d:%02dZ" % (
              y, mo, rng.choice([1, 15, 28]), rng.choice([0, 12, 23]), rng.choice([0, 59]), rng.choice([0, 59]))},
                     "committer": {"name": "GitHub", "email": "no-reply@google.com", "date": "2020-01-01T00:00:00Z"},
                     "message": rng.choice(MSGS)}}


def generate(seed):
  rng = random.Random(h64("stats", seed))
  ops = []
  cap = rng.choice([100, 100, 100, 50, 30])  # the service may serve smaller pages than asked for
  total = rng.choice([0, 1, 5, 99, 100, 101, 150, 200, 201, 250, 305, 420])
  for _ in range(rng.randint(1, 4)):
    o = {"op": "run", "steps": {}}
    pages = max(1, -(-total // cap))
    if rng.random() < 0.45:
      o["steps"][str(rng.randrange(pages))] = {"kind": rng.choice(["403", "429", "500", "502", "404", "401", "timeout", "conn", "cut", "html"]), "cl": rng.random() < 0.5,
                                                       "ebody": rng.choice(["error", "error", "empty", "stale"])}
    for k in range(pages):
      if rng.random() < 0.2:
        o["steps"].setdefault(str(k), {})["lat_us"] = rng.choice([1, 500000, 900000, 5000000])
    if rng.random() < 0.3 and pages > 1:
      k = str(rng.randrange(1, pages))
      o["steps"].setdefault(k, {})["push_n"] = rng.choice([1, 2, 3, 100])
    o["fault"] = script.rand_fault(rng, {"write": (["ENOSPC", "EIO", "short", "kill", "int"], 12), "mut": (["EACCES", "ENOSPC", "kill"], 2), "close": (["EIO"], 2)}, 0.25)
    ops.append(o)
    if rng.random() < 0.4:
      ops.append({"op": "push", "n": rng.choice([1, 30, 100])})
  return {"total": total, "cap": cap, "cseed": rng.randrange(1 << 30), "ops": ops, "simple": {"total": 101, "cap": 100}}


def excluded(x):
  e, m = x["commit"]["author"]["email"] or "", x["commit"]["message"]
  return any(p in e for p in ("dependabot", "no-reply@google.com")) or any(p in m for p in ("Integrate LLVM at llvm/llvm-project@", "dependabot"))


def row(x):
  a = x["commit"]["author"]
  return (a["date"].replace("T", " ").replace("Z", ""), a["name"], a["email"] or "", x["commit"]["message"].split("\n")[0])


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = GRun(box)
  r.cap = plan.get("cap", 100)
  r.epoch_us, r.clock_us = 1_760_000_000_000_000, 0
  rng = random.Random(h64("commits", plan["cseed"]))
  r.commits = [commit(rng, i) for i in range(plan["total"])]
  cwd = box + "/out"
  os.mkdir(cwd)
  world.begin(r, req["seed"])
  try:
    for n, o in enumerate(plan["ops"]):
      c.ops += 1
      if o["op"] == "push":
        for i in range(o["n"]):
          r.commits.insert(0, commit(rng, (n, i)))
        continue
      one(c, r, n, o, cwd, rng)
  finally:
    world.end()
  return c.result()


def one(c, r, n, o, cwd, rng):
  r.steps = {k: dict(v, push=[commit(rng, (n, k, i)) for i in range(v.get("push_n", 0))]) for k, v in o["steps"].items()}
  r.times, r.bad, r.served = [], [], []
  at_start = list(r.commits)
  with world.quietly():
    before = simple.tree(cwd)
  r.begin_proc(o["fault"])
  start = r.clock_us
  p = script.execute(c, SCRIPT, [], cwd, {"PATH": "/usr/bin", "HOME": c.box})
  with world.quietly():
    after = simple.tree(cwd)
    data = {}
    for f in ("all_commits.csv", "monthly_author_stats.csv"):
      if os.path.exists(cwd + "/" + f):
        with open(cwd + "/" + f, newline="", encoding="utf-8") as fh:
          data[f] = fh.read()
  c.tools += len(r.times)
  c.note(n, p.status, p.err.strip().split("\n")[-1][-200:], len(r.times), r.bad, h64(*[data.get(k, "") for k in ("all_commits.csv", "monthly_author_stats.csv")]))
  c.state(p.status, len(r.times), tuple(sorted((k, v.get("kind")) for k, v in o["steps"].items())), bool(r.hits), len(at_start))
  if r.escapes:
    c.add("C15", "writes-elsewhere", "escape", "tried to write %s" % r.escapes[:2])
  prev = start
  for i, (a, b) in enumerate(r.times):
    if i and a - prev < 1_000_000:
      c.add("C15", "not-paced", "delay", "run %s sent request %d only %d ms after the one before" % (n, i, (a - prev) // 1000))
      break
    prev = b
  if p.status == -9:
    return
  if r.bad and p.status == 0:
    # a retry that succeeded is fine, as long as the result is complete (checked below)
    r.probe("recovered")
  if r.bad and p.status != 0 and before != after:
    c.add("C15", "partial-stats", "written", "run %s: request %s failed (%s), and files changed: %s" % (
        n, r.bad, o["steps"].get(str(r.bad[0])), sorted(k for k in after if after[k] != before.get(k))))
  if p.status != 0:
    if not r.bad and not r.hits:
      c.add("C15", "fails-without-fault", "status", "run %s failed without a fault: %s" % (n, p.err[-300:]))
    return
  if set(data) != {"all_commits.csv", "monthly_author_stats.csv"}:
    c.add("C15", "incomplete", "no-file", "run %s exits 0 having written only %s" % (n, sorted(data)))
    return
  sent = {x["sha"] for x in r.commits}
  must = collections.Counter(row(x) for x in at_start if not excluded(x))
  may = collections.Counter(row(x) for x in r.commits if not excluded(x))
  got = collections.Counter()
  try:
    rows = list(csv.DictReader(io.StringIO(data["all_commits.csv"], newline="")))
    for x in rows:
      got[(x["date"], x["author"], x["email"], x["message"])] += 1
    months = {x["date"]: (int(x["distinct authors"]), int(x["commits"])) for x in csv.DictReader(io.StringIO(data["monthly_author_stats.csv"], newline=""))}
  except (KeyError, ValueError, TypeError) as e:
    c.add("C15", "incomplete", "unreadable", "run %s exits 0 with an unreadable table: %s" % (n, e))
    return
  # csv strips a carriage return only inside quotes; compare what a reader sees
  lost, extra = must - got, got - may
  if lost:
    c.add("C15", "commit-lost", "lost", "run %s exits 0 but does not count %d commits, first %s (%d requests, failed %s)" % (n, sum(lost.values()), list(lost)[:1], len(r.times), r.bad))
  if extra:
    c.add("C15", "commit-twice", "extra", "run %s counts %d commits too many, first %s (pushes during the run: %s)" % (
        n, sum(extra.values()), list(extra)[:1], {k: v.get("push_n") for k, v in o["steps"].items() if v.get("push_n")}))
  want = {}
  for x in rows:
    w = want.setdefault(x["date"][:7], [set(), 0])
    w[0].add(x["author"])
    w[1] += 1
  want = {k: (len(v[0]), v[1]) for k, v in want.items()}
  if want != months:
    d = [k for k in sorted(set(want) | set(months)) if want.get(k) != months.get(k)]
    c.add("C15", "monthly-wrong", "months", "run %s: month %s has %s (authors, commits), the commits written say %s" % (n, d[0], months.get(d[0]), want.get(d[0])))
