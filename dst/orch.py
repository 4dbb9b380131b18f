"""Orchestration: many seeded runs on several hosts, gating, minimisation, replay
files, known findings, evidence."""
import hashlib
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/vp/venv/bin/python"
NHOSTS = 8
HASHSEEDS = [0, 1, 2, 3, 5, 8, 13, 21]


class HostDied(Exception):
  pass


class PyHost:
  """One zygote process of sims/<sim>.py with its own PYTHONHASHSEED."""

  def __init__(self, sim, slot, base, hashseed):
    self.hashseed = hashseed
    self.scratch = os.path.join(base, "h%d" % slot)
    os.makedirs(self.scratch, exist_ok=True)
    os.chmod(self.scratch, 0o777)
    env = {"PATH": "/usr/bin:/bin", "PYTHONHASHSEED": str(hashseed), "PYTHONPATH": "/repo/frontend:/repo",
           "HOME": self.scratch, "TMPDIR": self.scratch, "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1",
           "NUMBA_CACHE_DIR": self.scratch, "VERIF_SIM": "1"}
    argv = [PY, "-X", "utf8", os.path.join(HERE, "dst", "host.py"), sim, self.scratch]
    if shutil.which("setarch"):
      argv = ["setarch", "-R"] + argv
    self.err = open(os.path.join(base, "h%d.err" % slot), "w+")
    self.p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                              cwd=self.scratch)
    line = self.p.stdout.readline()
    if not line:
      self.p.wait()
      self.err.seek(0)
      raise HostDied("host did not start:\n" + self.err.read()[-3000:])

  def run(self, req):
    self.p.stdin.write(json.dumps(req).encode() + b"\n")
    self.p.stdin.flush()
    line = self.p.stdout.readline()
    if not line:
      raise HostDied("host died")
    res = json.loads(line)
    res["hashseed"] = self.hashseed
    return res

  def close(self):
    try:
      self.p.stdin.close()
      self.p.wait(10)
    except Exception:
      self.p.kill()
    self.err.close()


class PairHost:
  """Two processes with different hash seeds run the same plan; their outcomes must agree."""

  def __init__(self, sim, slot, base, hashseed):
    self.hashseed = hashseed
    self.a = PyHost(sim, slot, base, hashseed)
    self.b = PyHost(sim, slot + 500, base, hashseed * 7 + 101)

  def run(self, req):
    res = self.a.run(req)
    if "plan" not in res:
      return res
    r2 = self.b.run(dict(req, plan=res["plan"], salt=77))
    res["hash2"] = r2.get("hash")
    if "cmp" in r2 and r2["cmp"] is not None:
      res["hash"] = hashlib.sha1((res["hash"] + r2["hash"]).encode()).hexdigest()[:16]
      res["viol"] += [v for v in r2["viol"] if v["sig"] not in [x["sig"] for x in res["viol"]]]
      for k, x in res["cmp"].items():
        y = r2["cmp"].get(k)
        if y is not None and x != y and x["ok"] == y["ok"]:
          d = pair_diff(x, y)
          res["viol"].append({"prop": req.get("profile") or "C05", "cls": "differs-across-processes", "sig": "across:" + d[0],
                              "msg": "two processes given the same input (operation %s) differ in %s: %s" % (k, d[0], d[1])})
          break
        if y is not None and x["ok"] != y["ok"]:
          res["viol"].append({"prop": req.get("profile") or "C05", "cls": "differs-across-processes", "sig": "across:outcome",
                              "msg": "operation %s: %s in one process, %s in another" % (k, x["exc"] or "success", y["exc"] or "success")})
          break
    elif "error" in r2 or "died" in r2:
      return r2
    res.pop("cmp", None)
    return res

  def close(self):
    self.a.close()
    self.b.close()


def pair_diff(x, y):
  for k in ("texts", "seq"):
    if len(x[k]) != len(y[k]):
      return k, "%d vs %d tool runs" % (len(x[k]), len(y[k]))
    for p, q in zip(x[k], y[k]):
      if p != q:
        if k == "seq":
          return k, "%s vs %s" % (p, q)
        for l, m in zip(p.split("\n"), q.split("\n")):
          if l != m:
            return k, "%r vs %r" % (l[:160], m[:160])
        return k, "length"
  return "exception", "%s vs %s" % (x["exc"], y["exc"])


def known_findings():
  out = []
  p = os.path.join(HERE, "known-findings.txt")
  if os.path.exists(p):
    for l in open(p):
      l = l.strip()
      if l.startswith("KNOWN "):
        _, prop, sig, text = l.split(" ", 3)
        out.append((prop, sig, text))
  return out


def viol_of(res, prop):
  return [v for v in res.get("viol", ()) if v["prop"] == prop]


class Check:
  """One property check over one simulation."""

  def __init__(self, prop, sim, *, profile=None, host=PyHost, quick_s=90, thorough_s=780, components=None,
               hashseeds=None, rule="", paired=False, limit=60, nhosts=NHOSTS, builder=None):
    self.prop, self.sim, self.profile, self.host = prop, sim, profile or prop, host
    self.quick_s, self.thorough_s = quick_s, thorough_s
    self.components = components or {}
    self.hashseeds = hashseeds or HASHSEEDS
    self.rule, self.paired, self.limit, self.nhosts, self.builder = rule, paired, limit, nhosts, builder

  # ---- running
  def req(self, seed, plan=None, sched=None):
    r = {"seed": seed, "profile": self.profile, "limit": self.limit}
    if plan is not None:
      r["plan"] = plan
    if sched is not None:
      r["sched"] = sched
    return r

  def main(self, argv):
    if argv and argv[0] == "replay":
      return self.replay(argv[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed0 = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("DST_BUDGET", 0)) or (self.thorough_s if tier == "thorough" else self.quick_s)
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="dst-%s-" % self.prop, dir="/tmp")
    os.chmod(base, 0o755)
    try:
      if self.builder:
        try:
          self.builder(base)
        except Exception as e:
          print("error: %s" % e)
          return 2
      return self.explore(tier, seed0, budget + time.time() - t0, t0, base)
    finally:
      shutil.rmtree(base, ignore_errors=True)

  def replay(self, path):
    d = json.load(open(path))
    base = tempfile.mkdtemp(prefix="dst-%s-" % self.prop, dir="/tmp")
    os.chmod(base, 0o755)
    try:
      if self.builder:
        self.builder(base)
      h = self.host(self.sim, 0, base, d.get("hashseed", 0))
      res = h.run(self.req(d["seed"], d["plan"], d["sched"]))
      h.close()
    finally:
      shutil.rmtree(base, ignore_errors=True)
    vs = viol_of(res, self.prop)
    for v in vs:
      print(v["cls"], "|", v["msg"])
    same = res.get("hash") == d.get("hash")
    print("recorded history hash %s: %s" % (d.get("hash"), "same" if same else "DIFFERENT " + str(res.get("hash"))))
    if vs:
      print("VIOLATION property=%s replay=%s" % (self.prop, path))
      return 1
    if "error" in res:
      print(res["error"], res.get("tb"))
      return 2
    return 0

  def explore(self, tier, seed0, budget, t0, base):
    rng = random.Random(seed0 * 1000003 + 17)
    seeds = queue.Queue()
    lock = threading.Lock()
    S = {"runs": 0, "err": [], "died": 0, "viol": [], "fired": {}, "probes": {}, "orders": set(), "states": set(),
         "sim_us": 0, "nontriv": set(), "samples": [], "switches": 0, "ops": 0, "tools": 0, "mismatch": 0, "repeat": 0,
         "known": {}}
    known = [(s, t) for p, s, t in known_findings() if p == self.prop]
    stop = threading.Event()
    deadline = t0 + budget
    hosts = [None] * self.nhosts
    boot_err = []
    nextseed = [seed0 * 10_000_000]
    # every property's own seed space
    cross = []  # (seed, hash, viol) to be repeated on another host

    def take():
      with lock:
        s = nextseed[0]
        nextseed[0] += 1
        return s

    def absorb(res, seed):
      with lock:
        S["runs"] += 1
        if "error" in res:
          S["err"].append((seed, res["error"], res.get("tb", "")))
          return
        if "died" in res:
          S["died"] += 1
          return
        for k, v in res.get("fired", {}).items():
          S["fired"][k] = S["fired"].get(k, 0) + v
        for k, v in res.get("probes", {}).items():
          S["probes"][k] = S["probes"].get(k, 0) + v
        S["sim_us"] += res.get("sim_us", 0)
        S["switches"] += res.get("switches", 0)
        S["ops"] += res.get("ops", 0)
        S["tools"] += res.get("tools", 0)
        S["orders"].add(res.get("order", ""))
        S["states"].update(res.get("states", ()))
        if res.get("nontrivial"):
          S["nontriv"].add(res.get("hash"))
        if len(S["samples"]) < 3 and res.get("nontrivial"):
          S["samples"].append({"seed": seed, "plan": res.get("plan"), "schedule_deviations": len(res.get("sched", ())),
                               "outcome": res.get("summary")})
        for v in viol_of(res, self.prop):
          hit = [s for s, t in known if v["sig"] == s]
          if hit:
            S["known"][hit[0]] = S["known"].get(hit[0], 0) + 1
          else:
            S["viol"].append((seed, res, v))
            stop.set()

    def worker(i):
      try:
        h = self.host(self.sim, i, base, self.hashseeds[i % len(self.hashseeds)])
      except HostDied as e:
        boot_err.append(str(e))
        return
      hosts[i] = h
      n = 0
      while not stop.is_set() and time.time() < deadline:
        seed = take()
        try:
          res = h.run(self.req(seed))
        except HostDied as e:
          boot_err.append(str(e))
          return
        absorb(res, seed)
        n += 1
        if n % 20 == 0 and "hash" in res and not stop.is_set():
          # determinism self-check: the same seed again, same plan, recorded schedule
          r2 = h.run(self.req(seed, res["plan"], res["sched"]))
          with lock:
            S["repeat"] += 1
            if r2.get("hash") != res.get("hash"):
              S["mismatch"] += 1
              S.setdefault("mismatch_seed", seed)

    ts = [threading.Thread(target=worker, args=(i,)) for i in range(self.nhosts)]
    for t in ts:
      t.start()
    for t in ts:
      t.join()
    if boot_err and not any(hosts):
      print("error: " + boot_err[0])
      self.write_evidence(tier, seed0, S, t0, "the simulation host did not start")
      return 2
    rc = 0
    try:
      if S["viol"]:
        rc = self.report(S, [h for h in hosts if h], base)
    finally:
      for h in hosts:
        if h:
          h.close()
    for sig, text in known:
      print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
    self.write_evidence(tier, seed0, S, t0, None)
    if rc == 0:
      if S["err"]:
        seed, e, tb = S["err"][0]
        print("%d runs ended in a simulator error, first: seed %d: %s\n%s" % (len(S["err"]), seed, e, tb))
      if S["runs"] == 0 or len(S["err"]) + S["died"] > 0.5 * S["runs"]:
        print("error: the simulation did not run (%d runs, %d errors, %d died)" % (S["runs"], len(S["err"]), S["died"]))
        return 2
      print("property %s held on %d simulated runs (%d distinct non-trivial), %.0f s" %
            (self.prop, S["runs"], len(S["nontriv"]), time.time() - t0))
    return rc

  # ---- violations
  def report(self, S, hosts, base):
    done = set()
    rc = 0
    for seed, res, v in sorted(S["viol"], key=lambda x: len(json.dumps(x[1].get("plan")))):
      if v["sig"] in done:
        continue
      done.add(v["sig"])
      if len(done) > 3:
        break
      h = next((x for x in hosts if x.hashseed == res["hashseed"]), hosts[0])
      # gate: the same run twice on this host
      ok = True
      for _ in range(2):
        r2 = h.run(self.req(seed, res["plan"], res["sched"]))
        if r2.get("hash") != res.get("hash") or not any(x["sig"] == v["sig"] for x in viol_of(r2, self.prop)):
          ok = False
          print("note: seed %d did not repeat exactly (%s vs %s)" % (seed, r2.get("hash"), res.get("hash")))
          break
      if not ok:
        rc = rc or 2
        continue
      plan, sched, last = self.minimise(h, seed, res, v)
      # fresh process
      fresh = self.host(self.sim, 90 + len(done), base, h.hashseed)
      try:
        r3 = fresh.run(self.req(seed, plan, sched))
      finally:
        fresh.close()
      if r3.get("hash") != last.get("hash") or not any(x["cls"] == v["cls"] for x in viol_of(r3, self.prop)):
        print("note: seed %d did not repeat in a fresh process" % seed)
        rc = rc or 2
        continue
      path = os.path.join(HERE, "replays", "%s-%d-%s.json" % (self.prop, seed, v["cls"].replace("/", "_")))
      os.makedirs(os.path.dirname(path), exist_ok=True)
      vv = [x for x in viol_of(r3, self.prop) if x["cls"] == v["cls"]][0]
      json.dump({"property": self.prop, "sim": self.sim, "seed": seed, "hashseed": h.hashseed, "class": v["cls"],
                 "signature": vv["sig"], "message": vv["msg"], "plan": plan, "sched": sched, "hash": r3["hash"],
                 "log": r3.get("log", [])[-60:]}, open(path, "w"), indent=1)
      print("%s: %s" % (v["cls"], vv["msg"]))
      print("  signature %s, seed %d, %d schedule deviations" % (vv["sig"], seed, len(sched or ())))
      print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
      rc = 1
    return rc

  def minimise(self, h, seed, res, v, limit=45):
    import importlib
    sys.path.insert(0, HERE)
    try:
      cand = importlib.import_module("sims.shrink_" + self.sim).candidates
    except ImportError:
      cand = generic_candidates
    t0 = time.time()
    plan, sched, last = res["plan"], res["sched"], res

    def good(p, s):
      r = h.run(self.req(seed, p, s))
      if any(x["cls"] == v["cls"] for x in viol_of(r, self.prop)):
        return r
      return None

    progress = True
    while progress and time.time() - t0 < limit:
      progress = False
      for p in cand(plan):
        if time.time() - t0 > limit:
          break
        for s in ([sched, []] if sched else [sched]):
          r = good(p, s)
          if r:
            plan, sched, last = p, r["sched"], r
            progress = True
            break
        if progress:
          break
    # fewer schedule deviations
    n = max(1, len(sched or ()) // 2)
    while sched and n >= 1 and time.time() - t0 < limit:
      i = 0
      while i < len(sched) and time.time() - t0 < limit:
        s = sched[:i] + sched[i + n:]
        r = good(plan, s)
        if r:
          sched, last = s, r
        else:
          i += n
      n //= 2
    # settle on what the final plan and schedule give
    r = good(plan, sched)
    if r:
      last, sched2 = r, sched
    return plan, sched, last

  # ---- evidence
  def write_evidence(self, tier, seed0, S, t0, why):
    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = {
        "evaluations": S["runs"],
        "distinct_nontrivial": len(S["nontriv"]),
        "rule": self.rule,
        "samples": S["samples"],
        "seeds_per_hour": round(S["runs"] / max(wall, 1e-3) * 3600),
        "operations": S["ops"],
        "simulated_tool_runs": S["tools"],
        "simulated_time_s": round(S["sim_us"] / 1e6, 3),
        "faults_fired": dict(sorted(S["fired"].items())),
        "probes": dict(sorted(S["probes"].items())),
        "context_switches": S["switches"],
        "distinct_interleavings": len(S["orders"]),
        "distinct_states": len(S["states"]),
        "state_measure": "hash of (what each operation did, outcome class) per run; interleaving: hash of the sequence of running tasks at switches",
        "determinism_repeats": S["repeat"],
        "determinism_mismatches": S["mismatch"],
        "simulator_errors": len(S["err"]),
        "runs_cut_off": S["died"],
        "hash_seeds": self.hashseeds[:self.nhosts],
        "known_findings_hit": S["known"],
        "components": self.components,
    }
    if "mismatch_seed" in S:
      cov["first_mismatch_seed"] = S["mismatch_seed"]
    if why:
      cov["note"] = why
    json.dump({"property": self.prop, "tier": tier, "seed": seed0, "level": "exploration", "coverage": cov,
               "wall_s": round(wall, 2)}, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1)


def _text_cuts(lines):
  """A module's lines with parts left out: nested blocks, then ranges of lines."""
  open_at, blocks = [], []
  for j, l in enumerate(lines):
    d = l.count("{") - l.count("}")
    if l.strip().startswith("}") and open_at and d >= 0:  # "} else {"
      continue
    if d > 0:
      open_at.append(j)
    elif d < 0 and open_at:
      blocks.append((open_at.pop(), j))
  for a, b in sorted(blocks, key=lambda x: x[0] - x[1]):
    if b - a + 1 < len(lines):
      yield lines[:a] + lines[b + 1:]
  n = max(1, len(lines) // 4)
  while n:
    for j in range(0, len(lines), n):
      yield lines[:j] + lines[j + n:]
    n //= 2


def generic_candidates(plan):
  """Smaller plans: drop operations, faults, and optional fields."""
  ops = plan.get("ops", [])
  n = len(ops)
  step = max(1, n // 2)
  while step >= 1 and n:
    for i in range(0, n, step):
      if step < n or n > 0:
        yield dict(plan, ops=ops[:i] + ops[i + step:])
    if step == 1:
      break
    step //= 2
  for i, m in enumerate(plan.get("mods", [])):
    for cut in _text_cuts(m):
      yield dict(plan, mods=plan["mods"][:i] + [cut] + plan["mods"][i + 1:])
  for i, o in enumerate(ops):
    for k in ("faults", "mods"):
      if isinstance(o, dict) and o.get(k):
        for j in range(len(o[k])):
          yield dict(plan, ops=ops[:i] + [dict(o, **{k: o[k][:j] + o[k][j + 1:]})] + ops[i + 1:])
  for k, simple in plan.get("simple", {}).items():
    if plan.get(k) != simple:
      yield dict(plan, **{k: simple})
