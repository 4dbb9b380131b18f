"""Simulation of scripts/templates/templates.py (C13): generations with faults at
each file operation, kills, and another process creating the same directory."""
import os
import random
import shutil

from dst import script, simple, world
from dst.script import h64

SRC = "/repo/scripts/templates"
_CACHE = {}


def prepare(scratch):
  world.install()
  import runpy, pathlib, shutil, fire, fire.core, jinja2, jinja2.ext, jinja2.loaders, inspect, pydoc  # noqa
  jinja2.Environment().from_string("{% if a %}{{ a|lower }}{% endif %}{% for x in y %}{{x}}{% endfor %}").render(a=1, y=[])
  world.install_clock()


class CRun(script.SRun):

  def readable(self, path):
    return path.startswith(self.scratch + "/heir")


DIALECTS = ["LWE", "NewDialect", "bgv", "A1"]
PASSES = ["Foo", "MyPass", "foo_bar", "LWEToBgv", "x"]


def target(o):
  k = o["kind"]
  if k == "new_conversion_pass":
    name = o["args"].get("pass_name") or "%sTo%s" % (o["args"]["source_dialect_name"], o["args"]["target_dialect_name"])
    return "lib/Dialect/%s/Conversions/%s" % (o["args"]["source_dialect_name"], name), name
  if k == "new_dialect_transform":
    return "lib/Dialect/%s/Transforms" % o["args"]["dialect_name"], o["args"]["pass_name"]
  if k == "new_transform":
    return "lib/Transforms/%s" % o["args"]["pass_name"], o["args"]["pass_name"]
  return "lib/Dialect/%s/IR" % o["args"]["dialect_name"], o["args"]["dialect_name"]


def mapping(o):
  """-> (template directory, {output name: template}, template arguments), as documented."""
  a = o["args"]
  _, name = target(o)
  k = o["kind"]
  if k == "new_conversion_pass":
    v = {"pass_name": name}
    for w in ("source", "target"):
      d = a[w + "_dialect_name"]
      v[w + "_dialect_name"] = d
      v[w + "_dialect_mnemonic"] = a.get(w + "_dialect_mnemonic") or d.lower()
      v[w + "_dialect_namespace"] = a.get(w + "_dialect_namespace") or v[w + "_dialect_mnemonic"]
    return "Conversion", {name + ".h": "ConversionPass.h", name + ".td": "ConversionPass.td", "BUILD": "BUILD", name + ".cpp": "ConversionPass.cpp"}, v
  if k == "new_dialect_transform":
    d = a["dialect_name"]
    v = {"pass_name": name, "dialect_name": d, "dialect_namespace": a.get("dialect_namespace") or d.lower(),
         "pass_flag": a.get("pass_flag") or "%s-%s" % (d.lower(), name.lower())}
    return "DialectTransforms", {"BUILD": "BUILD", name + ".cpp": "Pass.cpp", name + ".h": "Pass.h", "Passes.h": "Passes.h", "Passes.td": "Passes.td"}, v
  if k == "new_transform":
    return "Transforms", {"BUILD": "BUILD", name + ".cpp": "Pass.cpp", name + ".h": "Pass.h", name + ".td": "Pass.td"}, {
        "pass_name": name, "pass_flag": a.get("pass_flag") or name.lower()}
  v = {"dialect_name": name, "dialect_namespace": a.get("dialect_namespace") or name.lower()}
  m = {"BUILD": "BUILD"}
  parts = ["Dialect"]
  for p in ("attributes", "types", "ops"):
    v["enable_" + p] = a.get("enable_" + p, True)
    if v["enable_" + p]:
      parts.append(p.capitalize())
  for p in parts:
    for e in ("cpp", "h", "td"):
      m["%s%s.%s" % (name, p, e)] = "%s.%s" % (p, e)
  return "Dialect", m, v


def expected(o):
  import jinja2
  d, m, v = mapping(o)
  out = {}
  for f, t in m.items():
    with open("%s/%s/lib/%s.jinja" % (SRC, d, t)) as fh:
      out[f] = jinja2.Environment().from_string(fh.read()).render(**v)
  return out


def generate(seed):
  rng = random.Random(h64("scaffold", seed))
  ops = []
  for _ in range(rng.randint(1, 5)):
    k = rng.choice(["new_conversion_pass", "new_dialect_transform", "new_transform", "new_dialect"])
    a = {}
    if k == "new_conversion_pass":
      a = {"source_dialect_name": rng.choice(DIALECTS), "target_dialect_name": rng.choice(DIALECTS)}
      if rng.random() < 0.4:
        a["pass_name"] = rng.choice(PASSES)
      for w in ("source_dialect_mnemonic", "target_dialect_namespace", "source_dialect_namespace", "target_dialect_mnemonic"):
        if rng.random() < 0.25:
          a[w] = rng.choice(["lwe", "tfhe_rust", "m1"])
    elif k == "new_dialect_transform":
      a = {"pass_name": rng.choice(PASSES), "dialect_name": rng.choice(DIALECTS)}
      if rng.random() < 0.3:
        a["pass_flag"] = "my-flag"
      if rng.random() < 0.3:
        a["dialect_namespace"] = "ns"
    elif k == "new_transform":
      a = {"pass_name": rng.choice(PASSES)}
      if rng.random() < 0.6:
        a["pass_flag"] = "my-flag"
    else:
      a = {"dialect_name": rng.choice(DIALECTS)}
      for w in ("enable_attributes", "enable_types", "enable_ops"):
        if rng.random() < 0.3:
          a[w] = rng.random() < 0.4
    o = {"op": "gen", "kind": k, "args": a, "force": rng.random() < 0.2, "salt": rng.randrange(1 << 20),
         "fault": script.rand_fault(rng, {"write": (["ENOSPC", "EIO", "short", "kill", "int"], 14), "mut": (["EACCES", "ENOSPC", "EROFS", "kill", "int"], 40),
                                          "read": (["EIO", "EMFILE"], 14), "close": (["EIO"], 14)}, 0.4),
         "omit": rng.choice(sorted(x for x in a if x.endswith("dialect_name") or x == "pass_name" and k != "new_conversion_pass")) if rng.random() < 0.05 else None,
         "intrude": rng.choice([None, None, None, None, 0, 0, 0, 1, 2, 3, 5]), "broken_template": rng.random() < 0.05}
    if rng.random() < 0.3:
      ops.append({"op": "exist", "path": target(o)[0], "how": rng.choice(["dir", "dir", "empty", "file", "parent", "link"])})
    ops.append(o)
  return {"ops": ops, "simple": {}}


def put(p, text):
  os.makedirs(os.path.dirname(p), exist_ok=True)
  with open(p, "w") as f:
    f.write(text)


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = CRun(box)
  root = box + "/heir"
  os.makedirs(root + "/.git")
  shutil.copytree(SRC, root + "/scripts/templates", ignore=shutil.ignore_patterns("__pycache__"))
  put(root + "/lib/Dialect/LWE/Conversions/LWEToCGGI/LWEToCGGI.cpp", "existing conversion\n")
  put(root + "/lib/Dialect/LWE/IR/LWEOps.cpp", "existing dialect\n")
  put(root + "/lib/Transforms/Secretize/Secretize.cpp", "existing transform\n")
  put(root + "/lib/Transforms/BUILD", "existing\n")
  world.begin(r, req["seed"])
  try:
    for n, o in enumerate(plan["ops"]):
      c.ops += 1
      if o["op"] == "exist":
        with world.quietly():
          t = root + "/" + o["path"]
          if os.path.lexists(t):
            continue
          os.makedirs(os.path.dirname(t), exist_ok=True)
          if o["how"] == "dir":
            put(t + "/mine.txt", "precious\n")
            put(t + "/BUILD", "my build\n")
          elif o["how"] == "empty":
            os.mkdir(t)
          elif o["how"] == "file":
            put(t, "a file\n")
          elif o["how"] == "link":
            put(root + "/elsewhere/x.txt", "precious\n")
            os.symlink(root + "/elsewhere", t)
        continue
      one(c, r, n, o, root)
  finally:
    world.end()
  return c.result()


def one(c, r, n, o, root):
  rel, _ = target(o)
  lib = root + "/" + rel
  with world.quietly():
    before = simple.tree(root, skip=(".git",))
    existed = os.path.lexists(lib)
    islink, isdir = os.path.islink(lib), os.path.isdir(lib)
    tpl = root + "/scripts/templates/%s/lib/BUILD.jinja" % mapping(o)[0]
    if o["broken_template"]:
      with open(tpl) as f:
        good = f.read()
      with open(tpl, "a") as f:
        f.write("{% if %}")
  made = []

  def intrude():
    if os.path.lexists(lib):
      return
    os.makedirs(lib)
    put(lib + "/theirs.cpp", "their work\n")
    put(lib + "/BUILD", "their build\n")
    made.append(1)
  omit = o.get("omit")
  argv = [o["kind"]] + ["--%s=%s" % kv for kv in o["args"].items() if kv[0] != omit] + (["--force"] if o["force"] else [])
  r.begin_proc(o["fault"])
  r.scan_salt = o["salt"]
  if o["intrude"] is not None:
    r.intruder, r.intrude_at = intrude, o["intrude"]
  p = script.execute(c, root + "/scripts/templates/templates.py", argv, root, {"PATH": "/usr/bin", "HOME": c.box})
  c.tools += sum(r.count.values())
  with world.quietly():
    if o["broken_template"]:
      with open(tpl, "w") as f:
        f.write(good)
    after = simple.tree(root, skip=(".git",))
    texts = {}
    if os.path.isdir(lib):
      for f in os.listdir(lib):
        if os.path.isfile(lib + "/" + f):
          with open(lib + "/" + f, errors="replace") as fh:
            texts[f] = fh.read()
  c.note(n, argv, p.status, p.err.strip().split("\n")[-1][-200:], sorted(after.items()))
  c.state(o["kind"], p.status, existed, bool(made), o["force"], o["fault"]["on"] + o["fault"]["kind"] if o["fault"] and r.hits else "", r.count.get("mut", 0))
  if r.escapes:
    c.add("C13", "writes-elsewhere", "escape", "tried to write %s" % r.escapes[:2])
  inside = lambda f: f == rel or f.startswith(rel + "/")
  what = "%s %s (status %s, fault %s%s)" % (o["kind"], rel, p.status, o["fault"] if r.hits else None, ", directory created meanwhile" if made else "")
  theirs = {rel + "/theirs.cpp", rel + "/BUILD"} if made else set()
  for f, h in before.items():
    if h == "d":
      continue
    if o["force"] and inside(f):
      continue
    if f not in after:
      c.add("C13", "deleted", "deleted", "%s deleted %s" % (what, f))
    elif after[f] != h:
      c.add("C13", "modified", "modified", "%s modified %s" % (what, f))
  if made and not o["force"]:
    if texts.get("theirs.cpp") != "their work\n" or texts.get("BUILD") != "their build\n":
      c.add("C13", "deleted" if "theirs.cpp" not in texts else "modified", "theirs", "%s destroyed what the other process had written" % what)
  new = {f for f, h in after.items() if h != "d" and f not in before and f not in theirs}
  if p.status == -9:
    return
  if p.status != 0:
    if new and not (r.hits and o["broken_template"]):
      c.add("C13", "leftovers", "leftovers", "%s failed and left %s" % (what, sorted(new)[:4]))
    blocked = existed and (not o["force"] or not isdir or islink) or made or omit
    if not r.hits and not blocked and not o["broken_template"]:
      c.add("C13", "fails-without-fault", "status", "%s: %s" % (what, p.err[-300:]))
    if r.hits and not o["broken_template"] and o["fault"]["kind"] not in ("kill", "int", "short"):
      import errno as en
      s = os.strerror(getattr(en, o["fault"]["kind"]))
      if s not in p.err and not omit:
        c.add("C13", "error-masked", "masked", "%s does not report %r: %s" % (what, s, p.err[-200:]))
    return
  if omit:
    c.add("C13", "false-success", "omitted", "%s succeeded without its %s" % (what, omit))
    return
  if (existed or made) and not o["force"]:
    c.add("C13", "not-refused", "exists", "%s succeeded although the directory existed" % what)
    return
  if o["broken_template"]:
    c.add("C13", "false-success", "template", "%s succeeded with a template that cannot be rendered" % what)
    return
  want = expected(o)
  if texts.keys() != want.keys():
    c.add("C13", "wrong-files", "names", "%s left %s, expected %s" % (what, sorted(texts), sorted(want)))
  else:
    bad = [f for f in want if want[f] != texts[f]]
    if bad:
      c.add("C13", "wrong-content", "content", "%s: %s is not the rendered template (%d bytes for %d)" % (what, bad[0], len(texts[bad[0]]), len(want[bad[0]])))
  other = {f for f in new if not inside(f)}
  if other:
    c.add("C13", "wrong-files", "elsewhere", "%s left %s outside its directory" % (what, sorted(other)[:3]))
