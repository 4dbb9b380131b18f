"""Simulation of the target description compiler (C24): the real heir-tblgen runs generated
descriptions again and again over an output that may already exist, with faults injected at its
system calls; and what it generates is compiled and executed against a model of the description."""
import os
import random
import re
import subprocess

from dst import simple
from dst.world import h64

BASE = None
ACTIONS = ["registration", "overrides", "struct"]
CXX = "/usr/lib/llvm-20/bin/clang++"
FLAGS = ["-std=c++20", "-O0", "-w", "-DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1"]
SYS = ["-I/repo", "-isystem", "/opt/vp/heir/shim", "-isystem", "/usr/lib/llvm-20/include"]
LINK = ["-fuse-ld=lld", "-L/usr/lib/llvm-20/lib", "-Wl,-rpath,/usr/lib/llvm-20/lib", "-lMLIR", "-lLLVM-20"]


class R:

  def __init__(self):
    self.fired, self.probes, self.clock_us = {}, {}, 0


def prepare(scratch):
  global BASE
  BASE = os.path.join(os.path.dirname(scratch), "bin")


NAMES = ["budget", "has_kernel_x", "levels2", "dropLevels", "Slots", "maxDepth", "_mode", "note", "label", "x", "key2"]
FIXED = ["bootstrapLevelsConsumed", "has_kernel_chebyshev", "has_kernel_linear_transform"]
STRS = ["", "a", "sparse ternary", "x-y_z", "100%", "{0}", "it's", 'a "quoted" word', "back\\slash", "tab\there", "two\nlines", "$&", "// no comment", "?"]


def cstr(s):
  return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def ival(rng):
  return rng.choice([0, 1, 2, 16, 22, -1, -7, 255, 4096, (1 << 31) - 1, -(1 << 31), 1 << 40, -(1 << 40), (1 << 63) - 1, rng.randrange(100)])


def itext(rng, n):
  x = rng.random()
  if n >= 0 and x < 0.1:
    return "0x%x" % n
  if n >= 0 and x < 0.15 and n < 1 << 20:
    return "0b%s" % bin(n)[2:]
  if 0 <= n < 1 << 20 and x < 0.25:
    k = rng.randrange(5)
    return "!add(%d, %d)" % (n - k, k) if n >= k else str(n)
  return str(n)


def stext(rng, s):
  if len(s) > 2 and rng.random() < 0.15 and "\\" not in s and '"' not in s and "\n" not in s:
    return "%s # %s" % (cstr(s[:1]), cstr(s[1:]))
  return cstr(s)


def describe(rng):
  """-> {"td": lines, "inc": lines or None, "fields": [[name, type, default]], "targets": [[def, backend, {field: value}]]}"""
  fields = []
  if rng.random() < 0.7:
    fields = [[n, "int", 0 if rng.random() < 0.7 else ival(rng)] for n in FIXED]
  for n in rng.sample(NAMES, rng.choice([0, 0, 1, 2, 4])):
    t = rng.choice(["int", "int", "string", "string", "bit", "list<int>"] if rng.random() < 0.5 else ["int", "string"])
    fields.append([n, t, ival(rng) if t == "int" else rng.choice(STRS) if t == "string" else None])
  if rng.random() < 0.3:
    rng.shuffle(fields)
  names = ["  string backendName = name;"]
  body = []
  for n, t, d in fields:
    lit = itext(rng, d) if t == "int" else stext(rng, d) if t == "string" else "0" if t == "bit" else "[1, 2]"
    body.append("  %s %s = %s;%s" % (t, n, lit, rng.choice(["", "", "  // a note", "  /* int y = 3; */"])))
  at = 0 if rng.random() < 0.85 else rng.randint(0, len(body))
  fields.insert(at, ["backendName", "name", None])
  body.insert(at, names[0])
  cls = ["class CompilationTarget<string name> {"] + body + ["}"]
  settable = [f for f in fields if f[1] in ("int", "string")]
  lines, targets = [], []

  def lets():
    d = {}
    for n, t, _ in rng.sample(settable, rng.randint(0, len(settable))):
      d[n] = ival(rng) if t == "int" else rng.choice(STRS)
    return d

  def lit(k, v):
    return itext(rng, v) if isinstance(v, int) else stext(rng, v)

  dfl = {n: d for n, t, d in settable}
  for i in range(rng.choice([1, 1, 2, 3, 5])):
    dn = rng.choice(["T", "Lattigo", "A", "zed", "OpenFHE"]) + str(i)
    bn = dn.lower() + rng.choice(["", "_x", "-v2"])
    x = rng.random()
    if x < 0.55:
      d = lets()
      lines += ['def %s : CompilationTarget<"%s"> {' % (dn, bn)] + ["  let %s = %s;" % (k, lit(k, v)) for k, v in d.items()] + ["}"]
      targets.append([dn, bn, dict(dfl, **d)])
    elif x < 0.7:
      d, e = lets(), lets()
      lines += ['class Sub%d<string n> : CompilationTarget<n> {' % i] + ["  let %s = %s;" % (k, lit(k, v)) for k, v in d.items()] + ["}"]
      lines += ['def %s : Sub%d<"%s"> {' % (dn, i, bn)] + ["  let %s = %s;" % (k, lit(k, v)) for k, v in e.items()] + ["}"]
      targets.append([dn, bn, dict(dfl, **d, **{}) | e])
    elif x < 0.8 and settable:
      n, t, _ = rng.choice(settable)
      v = ival(rng) if t == "int" else rng.choice(STRS)
      lines += ["let %s = %s in {" % (n, lit(n, v)), 'def %s : CompilationTarget<"%s">;' % (dn, bn), "}"]
      targets.append([dn, bn, dict(dfl, **{n: v})])
    elif x < 0.9:
      ints = [f[0] for f in settable if f[1] == "int"]
      k = rng.choice(ints) if ints else None
      lines += ["foreach i = [0, 3] in {", '  def %s_#i : CompilationTarget<"%s_"#i> {' % (dn, bn)] + (["    let %s = i;" % k] if k else []) + ["  }", "}"]
      for j in (0, 3):
        targets.append(["%s_%d" % (dn, j), "%s_%d" % (bn, j), dict(dfl, **({k: j} if k else {}))])
    else:
      lines += ["multiclass M%d<string n> {" % i, "  def _a : CompilationTarget<n>;", "}", 'defm %s : M%d<"%s">;' % (dn, i, bn)]
      targets.append([dn + "_a", bn, dict(dfl)])
    if rng.random() < 0.2:
      lines.append("class Unrelated%d { int bootstrapLevelsConsumed = 5; }" % i)
      lines.append("def U%d : Unrelated%d;" % (i, i))
  if rng.random() < 0.4:
    return {"td": ['include "base.td"'] + lines, "inc": cls, "fields": fields, "targets": targets}
  return {"td": cls + lines, "inc": None, "fields": fields, "targets": targets}


def fault(rng):
  x = rng.random()
  if x < 0.6:
    return "write:%d:%s" % (rng.choice([0, 0, 0, 1, 2, 3]), rng.choice(["eio", "enospc", "edquot", "eintr", "eagain", "short", "one", "full", "kill"]))
  if x < 0.7:
    return "close:%d:%s" % (rng.randrange(4), rng.choice(["eio", "enospc", "eintr", "kill"]))
  if x < 0.85:
    return "read:%d:%s" % (rng.randrange(5), rng.choice(["eio", "eintr", "short", "one", "kill"]))
  if x < 0.95:
    return "open:%d:%s" % (rng.randrange(4), rng.choice(["eacces", "emfile", "enospc", "eintr", "kill"]))
  return "mmap:%d:%s" % (rng.randrange(2), "enomem")


def generate(seed):
  rng = random.Random(h64("tblgen", seed))
  descs = [describe(rng) for _ in range(rng.choice([1, 2, 2]))]
  if rng.random() < 0.15:
    descs[0]["td"].insert(0, "// " + "padding " * rng.choice([600, 3000]))
  ops = []
  for _ in range(rng.randint(4, 12)):
    ops.append({"d": rng.randrange(len(descs)), "a": rng.choice(ACTIONS), "out": rng.choice(["o1", "o1", "o2", "-"]),
                "wic": rng.random() < 0.3, "dep": rng.random() < 0.2, "pre": rng.choice([None, None, None, "empty", "long", "cut"]),
                "fault": ";".join(fault(rng) for _ in range(rng.choice([0, 1, 1, 1, 2])))})
  mods = [d["td"] for d in descs]
  for d in descs:
    d.pop("td")
  return {"tds": mods, "descs": descs, "ops": ops, "compile": rng.randrange(len(descs)), "simple": {}}


def run(req, box):
  plan = req.get("plan") or generate(req["seed"])
  c = simple.Ctx(req, box, plan)
  r = c.run = R()
  tds = []
  for i, m in enumerate(plan["tds"]):
    d = os.path.join(box, "d%d" % i)
    os.mkdir(d)
    with open(d + "/t.td", "w") as f:
      f.write("\n".join(m) + "\n")
    if plan["descs"][i]["inc"]:
      with open(d + "/base.td", "w") as f:
        f.write("\n".join(plan["descs"][i]["inc"]) + "\n")
    tds.append(d)
  os.mkdir(box + "/work")

  def tool(d, a, out, extra=(), plan_="", cwd=None):
    log = box + "/io.log"
    if os.path.exists(log):
      os.unlink(log)
    argv = [BASE + "/heir-tblgen", "-gen-compilation-target-" + a, "-I" + tds[d], tds[d] + "/t.td", "-o", out] + list(extra)
    env = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": BASE + "/iofault.so", "IOF_BOX": box, "IOF_PLAN": plan_, "IOF_LOG": log}
    with open(box + "/stdout", "w") as so, open(box + "/stderr", "w") as se:
      p = subprocess.run(["timeout", "-s", "KILL", "20"] + argv, stdin=subprocess.DEVNULL, stdout=so, stderr=se, env=env, cwd="/")
    c.tools += 1
    fired = []
    if os.path.exists(log):
      with open(log) as f:
        fired = [l.split() for l in f if l.split()[2] != "-"]
    with open(box + "/stderr", errors="replace") as f:
      err = f.read()
    return p.returncode, err, fired

  # The reference: each output of each description from an undisturbed run.
  ref = {}
  for d in range(len(tds)):
    for a in ACTIONS:
      rc, err, _ = tool(d, a, box + "/ref")
      if rc:
        c.note("reference", d, a, rc, err[:200])
        c.add("C24", "refused", "refused:" + a, "a valid description is refused for %s (%d): %s" % (a, rc, err[-300:]))
        return finish(c)
      ref[d, a] = read(box + "/ref")
      os.unlink(box + "/ref")
  for o in plan["ops"]:
    key = o["d"], o["a"]
    if key not in ref:
      continue
    out = "-" if o["out"] == "-" else box + "/work/" + o["out"]
    if out != "-" and o["pre"]:
      with open(out, "wb") as f:
        f.write({"empty": b"", "long": ref[key] + b"// stale\n" * 50, "cut": ref[key][:len(ref[key]) // 2]}[o["pre"]])
    extra = (["--write-if-changed"] if o["wic"] else []) + (["-d", box + "/work/dep"] if o["dep"] and out != "-" else [])
    rc, err, fired = tool(o["d"], o["a"], out, extra, o["fault"])
    c.ops += 1
    for k, n, a, w in fired:
      r.fired["%s of %s: %s" % (k, w, a)] = r.fired.get("%s of %s: %s" % (k, w, a), 0) + 1
    got = read(box + "/stdout" if out == "-" else out)
    c.note(o["a"], o["out"], o["fault"], rc, fired, simple.h64(got or b""))
    c.state(o["a"], rc, [(k, a, w) for k, n, a, w in fired], o["wic"], o["pre"], got == ref[key])
    if rc == 0 and got != ref[key]:
      c.add("C24", "incomplete", "incomplete:%s:%s" % (o["a"], ",".join(sorted({"%s-%s" % (k, a) for k, n, a, w in fired})) or "no fault"),
            "%s exits 0 with %s of %d bytes of its output (faults %s): %s" % (o["a"], "none" if got is None else len(got), len(ref[key]), fired, err[:200]))
      return finish(c)
    if not fired and rc:
      c.add("C24", "refused", "refused:again:" + o["a"], "an undisturbed run of %s over an earlier output fails (%d): %s" % (o["a"], rc, err[-300:]))
      return finish(c)
  i = plan["compile"]
  if i < len(tds):
    execute(c, box, tds[i], plan["descs"][i], {a: ref[i, a] for a in ACTIONS})
  return finish(c)


def read(p):
  try:
    with open(p, "rb") as f:
      return f.read()
  except OSError:
    return None


MAIN = r"""
#include "lib/Target/CompilationTarget/CompilationTarget.cpp"
namespace mlir { namespace heir {
#include "reg.inc"
} }
using namespace mlir;
using namespace mlir::heir;
static void hex(llvm::StringRef s) { putchar('"'); for (char ch : s) printf("%%02x", (unsigned char)ch); putchar(' '); }
static void num(int64_t n) { printf("%%lld ", (long long)n); }
static void show(const CompilationTarget &t) { hex(toString(t.backendName)); %(show)s puts(""); }
static void value(FailureOr<Attribute> a) {
  if (failed(a)) { puts("no"); return; }
  if (auto i = dyn_cast<IntegerAttr>(*a)) { num(i.getInt()); puts(i.getType().isSignlessInteger(64) ? "i64" : "other"); }
  else if (auto s = dyn_cast<StringAttr>(*a)) { hex(s.getValue()); puts(""); }
  else puts("unknown");
}
int main() {
  MLIRContext ctx;
  ctx.getDiagEngine().registerHandler([](Diagnostic &) { return success(); });
  Location loc = UnknownLoc::get(&ctx);
  Builder b(&ctx);
  auto over = [&](CompilationTarget &t, llvm::StringRef k, Attribute a) { printf("%%d ", (int)succeeded(applyCompilationTargetOverride(t, k, a, loc))); show(t); };
  auto parse = [&](llvm::StringRef k, llvm::StringRef v) { value(parseCompilationTargetOverrideValue(&ctx, k, v, loc)); };
%(body)s
  return 0;
}
"""


def raw(s):
  return '"' + "".join("\\%03o" % b for b in s.encode()) + '"'


def execute(c, box, td, desc, text):
  d = box + "/cc"
  gen = d + "/lib/Target/CompilationTarget"
  os.makedirs(gen)
  for n, a in (("CompilationTargetStruct.h.inc", "struct"), ("CompilationTargetOverrides.cpp.inc", "overrides")):
    with open(gen + "/" + n, "wb") as f:
      f.write(text[a])
  with open(d + "/reg.inc", "wb") as f:
    f.write(text["registration"])
  fs = [f for f in desc["fields"] if f[1] in ("int", "string")]
  show = " ".join("%s(t.%s);" % ("num" if t == "int" else "hex", n) for n, t, _ in fs)
  hx = lambda s: '"' + s.encode().hex() + " "
  val = lambda v: "%d " % v if isinstance(v, int) else hx(v)
  row = lambda bn, m: hx(bn) + "".join(val(m[n]) for n, _, _ in fs)
  body, want = [], []
  for dn, bn, m in desc["targets"]:
    body.append('puts(CompilationTargetRegistry::get(BackendName::%s) ? "yes" : "no");' % dn)
    want.append("no")
  for dn, bn, m in desc["targets"]:
    body.append("registerTarget%s();" % dn)
  for dn, bn, m in desc["targets"]:
    body.append("printf(\"%%d \", (int)(parseBackendName(\"%s\") == BackendName::%s)); show(*CompilationTargetRegistry::get(BackendName::%s));" % (bn, dn, dn))
    want.append("1 " + row(bn, m))
  body.append('puts(parseBackendName("no such") == BackendName::None ? "none" : "some");')
  want.append("none")
  body.append("show(CompilationTarget());")
  want.append(row("none", {n: d for n, _, d in fs}))
  dn, bn, m = desc["targets"][-1]
  m = dict(m)
  body.append("CompilationTarget t = *CompilationTargetRegistry::get(BackendName::%s);" % dn)
  big = -77 - (1 << 40)
  for n, t, _ in fs:
    body.append('over(t, "%s", %s);' % (n, 'b.getStringAttr("s")' if t == "int" else "b.getI64IntegerAttr(3)"))
    want.append("0 " + row(bn, m))
    if t == "int":
      body.append('over(t, "%s", b.getI64IntegerAttr(%d));' % (n, big))
      m[n] = big
      want.append("1 " + row(bn, m))
    else:
      for v in (" new %s " % n, "a\0b", "", "\u00e9\n'{0}"):
        body.append('over(t, "%s", b.getStringAttr(llvm::StringRef(%s, %d)));' % (n, raw(v), len(v.encode())))
        m[n] = v
        want.append("1 " + row(bn, m))
    if t == "int":
      for w in (8, 32, 64):
        body.append('over(t, "%s", b.getIntegerAttr(b.getIntegerType(%d), -5)); over(t, "%s", b.getIndexAttr(12));' % (n, w, n))
        want.append("1 " + row(bn, dict(m, **{n: -5})))
        m[n] = 12
        want.append("1 " + row(bn, m))
    for v in (" 41", "+3", "0x10", "007", "a b ", "41", str(-big), "-7", "4x", "", "9223372036854775808"):
      body.append('parse("%s", "%s");' % (n, v))
      want.append(hx(v) if t != "int" else "%d i64" % int(v) if re.fullmatch("-?[0-9]{1,18}", v) else "no")
  body.append('over(t, "backendName", b.getStringAttr("x")); over(t, "nosuch", b.getI64IntegerAttr(1)); parse("nosuch", "1");')
  want += ["0 " + row(bn, m)] * 2 + ["no"]
  with open(d + "/main.cpp", "w") as f:
    f.write(MAIN % {"show": show, "body": "\n".join("  " + x for x in body)})
  p = subprocess.run(["timeout", "-s", "KILL", "100", CXX] + FLAGS + ["-I" + d] + SYS + ["-include-pch", BASE + "/pre.pch", d + "/main.cpp", "-o", d + "/main"] + LINK,
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/", env={"PATH": "/usr/bin:/bin"})
  c.tools += 1
  if p.returncode:
    errs = re.findall(r"([^\s/:]+):\d+:\d+: (?:fatal )?error: (.*)", p.stdout)
    c.note("generated code does not compile", errs[:2])
    if not errs or "file not found" in errs[0][1]:
      raise RuntimeError("the compiler failed: %s" % p.stdout[-800:])
    c.add("C24", "does-not-compile", "cxx:" + errs[0][0], "the generated code is not valid C++: %s: %s" % errs[0])
    return
  p = subprocess.run(["timeout", "-s", "KILL", "20", d + "/main"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/", env={"PATH": "/usr/bin:/bin"})
  got = p.stdout.split("\n")[:-1]
  c.note("executed", p.returncode, simple.h64(p.stdout))
  c.run.probes["generated code executed"] = 1
  for g, w in zip(got + ["(nothing)"] * len(want), want):
    if g.strip() != w.strip():
      c.add("C24", "wrong", "wrong", "a target described as %s answers %r instead of %r" % (row(desc["targets"][-1][1], desc["targets"][-1][2]), g, w))
      return
  if p.returncode:
    c.add("C24", "wrong", "aborts", "the generated code aborts: %s" % p.stdout[-300:])


def finish(c):
  return c.result(c.ops > 1)
