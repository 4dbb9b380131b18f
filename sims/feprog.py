"""Generation of programs for the frontend simulation: Python functions and MLIR
strings whose values tell them apart."""
import random

INTS = ["I16", "I32", "I64"]
NAMES = ["f", "g", "main", "foo_0", "b_c", "c"]
MODS = ["m", "a.b", "a", "a_b", "__main__", "pkg.sub.mod"]
ARGN = ["a", "b", "x", "y", "n0", "arg", "arg0", "arg1", "arg10", "a1", "a_b", "b_", "A", "xy"]


def _args(rng, n):
  names = rng.sample(ARGN, n)
  return names


def gen_py(rng, uid, kinds=None):
  """A function spec: everything is data, so that it can sit in a replay file."""
  kind = rng.choice(kinds or ["arith", "arith", "arith", "loop", "loop2", "if", "tensor", "tensor2", "float", "cast",
                              "public"])
  k1, k2 = 3 + uid % 50, 2 + (uid * 7) % 11
  ty = rng.choice(INTS)
  body, args, ins = [], [], []
  if kind == "arith":
    names = _args(rng, rng.randint(1, 3) if rng.random() < 0.85 else rng.randint(4, 12))
    args = [[n, ty, True] for n in names]
    x, y = names[0], names[-1]
    ops = rng.sample(["*", "+", "-"], 2)
    form = rng.randint(0, 3)
    if form == 0:
      body = [f"return {x} * {x} {ops[0]} {y} + {k1}"]
    elif form == 1:
      body = [f"t = {x} {ops[0]} {y}", f"u = t * {k2} {ops[1]} {x}", f"return u + {k1}"]
    elif form == 2:
      body = [f"t = {x} + {k1}", f"t = t {ops[0]} {y}", f"return t * {k2}"]
    else:
      body = [f"return ({x} + {k1}) * {k2} {ops[0]} {y}"]
  elif kind == "public":
    names = _args(rng, rng.randint(2, 3))
    s = rng.randrange(len(names))
    args = [[n, ty, i == s or rng.random() < 0.3] for i, n in enumerate(names)]
    if all(a[2] for a in args):
      args[(s + 1) % len(args)][2] = False
    body = [f"t = {names[0]} * {k2}", f"return t - {names[-1]} + {names[1]} * {k1}"]
  elif kind == "cast":
    names = _args(rng, 2)
    args = [[names[0], "I16", True], [names[1], "I16", True]]
    body = [f"t = I32({names[0]})", f"u = I32({names[1]})", f"return t * {k2} + u + {k1}"]
  elif kind == "loop":
    names = _args(rng, 2)
    args = [[n, "I64", True] for n in names]
    n = rng.randint(1, 4)
    body = [f"s = {names[0]}", f"for i in range({n}):", f"  s = s + {names[1]} * {k2}", f"return s + {k1}"]
    if rng.random() < 0.4:
      body = [f"s = {names[0]} + {k1}", f"for i in range({n}):", f"  s = s + i * {names[1]}", "return s"]
  elif kind == "loop2":
    names = _args(rng, 2)
    args = [[n, "I64", True] for n in names]
    vs = rng.sample(["s", "t", "u", "v"], rng.randint(2, 4))
    body = [f"{v} = {names[j % 2]} + {k1 + j}" for j, v in enumerate(vs)]
    body.append(f"for i in range({rng.randint(1, 3)}):")
    for j, v in enumerate(vs):
      body.append(f"  {v} = {v} + {vs[(j + 1) % len(vs)]}")
    body.append("return " + " + ".join(f"{v} * {j + 1}" for j, v in enumerate(vs)))
  elif kind == "if":
    names = _args(rng, 3)
    args = [[names[0], "I1", False], [names[1], "I64", True], [names[2], "I64", True]]
    vs = rng.sample(["s", "t", "u", "v"], rng.randint(1, 3))
    body = [f"if {names[0]}:"]
    body += [f"  {v} = {names[1]} + {k1 + j}" for j, v in enumerate(vs)]
    body.append("else:")
    body += [f"  {v} = {names[2]} * {k2 + j}" for j, v in enumerate(vs)]
    body.append("return " + " + ".join(f"{v} * {j + 1}" for j, v in enumerate(vs)))
  elif kind == "tensor":
    names = _args(rng, rng.randint(1, 2))
    n = rng.choice([2, 3, 4, 8])
    ty = rng.choice(["I16", "I32", "F32"])
    args = [[x, f"Tensor[[{n}],{ty}]", True] for x in names]
    x, y = names[0], names[-1]
    body = rng.choice([[f"return ({x} + {y}) * ({x} + {y})"], [f"return {x} * {y}"], [f"t = {x} + {y}", "return t * t"]])
  elif kind == "tensor2":
    # two arguments of one element type, different sizes; only one is used in the result
    names = _args(rng, 2)
    n, m = rng.sample([2, 3, 4, 8], 2)
    ty = rng.choice(["I16", "I32"])
    args = [[names[0], f"Tensor[[{n}],{ty}]", True], [names[1], f"Tensor[[{m}],{ty}]", True]]
    x = rng.choice(names)
    body = [f"return {x} * {x}"]
  elif kind == "float":
    names = _args(rng, 2)
    ty = rng.choice(["F32", "F64"])
    args = [[n, ty, True] for n in names]
    x, y = names
    body = rng.choice([[f"return {x} * {y} + {x}"], [f"return {x} * {x} - {y}"], [f"t = {x} + {y}", f"return t * {x}"]])
  inputs = []
  for _ in range(2):
    row = []
    for n, t, s in args:
      if t == "I1":
        row.append(rng.randint(0, 1))
      elif t.startswith("Tensor"):
        ln = int(t.split("[[")[1].split("]")[0])
        row.append([rng.randint(1, 6) for _ in range(ln)])
      else:
        row.append(rng.randint(1, 9))
    inputs.append(row)
  path = [rng.choice(NAMES)]
  if rng.random() < 0.35:
    path = [rng.choice(["A", "B", "c", "mk"])] + path
  return {"kind": "py", "shape": kind, "mod": rng.choice(MODS), "path": path,
          "nest": rng.choice(["class", "def"]), "args": args, "body": body, "inputs": inputs,
          "ret": None, "line": rng.choice([0, 0, 3, 40])}


def source(spec):
  ann = lambda t, s: f"Secret[{t}]" if s else t
  sig = ", ".join(f"{n}: {ann(t, s)}" for n, t, s in spec["args"])
  lines = [""] * spec.get("line", 0)
  ind = ""
  for p in spec["path"][:-1]:
    lines.append(f"{ind}class {p}:" if spec["nest"] == "class" else f"{ind}def {p}():")
    ind += "  "
  lines.append(f"{ind}def {spec['path'][-1]}({sig}):")
  for b in spec["body"]:
    lines.append(f"{ind}  {b}")
  if len(spec["path"]) > 1 and spec["nest"] == "def":
    lines.append(f"{ind}return {spec['path'][-1]}")
  return "\n".join(lines) + "\n"


def build(spec, types_mod):
  """The Python function object of a spec."""
  ns = {"__name__": spec["mod"]}
  for t in ("Secret", "Tensor", "I1", "I8", "I16", "I32", "I64", "F32", "F64"):
    ns[t] = getattr(types_mod, t)
  code = compile(source(spec), "/sim/%s.py" % spec["mod"].replace(".", "/"), "exec", dont_inherit=True)
  exec(code, ns)
  o = ns[spec["path"][0]]
  if len(spec["path"]) > 1:
    o = o() if spec["nest"] == "def" else getattr(o, spec["path"][1])
  return o


def arg_value(t, v):
  if t.startswith("Tensor"):
    import numpy as np
    return np.array(v)
  if t.startswith("F"):
    return float(v)
  if t == "I1":
    return bool(v)
  return v


def expected(spec, fn, row):
  if spec["kind"] == "mlir":
    return mlir_expected(spec, row)
  r = fn(*[arg_value(t, v) for (n, t, s), v in zip(spec["args"], row)])
  return norm(r)


def norm(r):
  if hasattr(r, "value") and type(r).__module__.startswith("heir"):
    r = r.value
  if hasattr(r, "tolist"):
    r = r.tolist()
  if isinstance(r, (list, tuple)):
    return [norm(x) for x in r]
  return float(r)


# ---------------------------------------------------------------- MLIR strings
def gen_mlir(rng, uid):
  names = rng.sample(["arg0", "arg1", "arg10", "x", "xy", "y"], 2)
  ty = rng.choice(["i16", "i32", "i64"])
  secs = rng.choice([[True, True], [True, False], [False, True]])
  name = rng.choice(NAMES + ["m_f_0", "a_b_c_0", "a_b_c_1", "__main___main_0", "m_g_1"])
  inputs = [[rng.randint(1, 9), rng.randint(1, 9)] for _ in range(2)]
  return {"kind": "mlir", "shape": "mlir", "name": name, "args": [[n, ty, s] for n, s in zip(names, secs)],
          "k": [3 + uid % 50, 2 + (uid * 7) % 11], "inputs": inputs,
          "op": rng.choice(["addi", "muli", "subi"])}


def mlir_text(spec):
  (a, ty, sa), (b, _, sb) = spec["args"]
  at = lambda n, s: f"%{n}: {ty}" + (" {secret.secret}" if s else "")
  k1, k2 = spec["k"]
  return (f"func.func @{spec['name']}({at(a, sa)}, {at(b, sb)}) -> ({ty}) {{\n"
          f"  %c1 = arith.constant {k1} : {ty}\n  %c2 = arith.constant {k2} : {ty}\n"
          f"  %0 = arith.{spec['op']} %{a}, %{b} : {ty}\n  %1 = arith.muli %0, %c2 : {ty}\n"
          f"  %2 = arith.addi %1, %c1 : {ty}\n  func.return %2 : {ty}\n}}\n")


def mlir_expected(spec, row):
  a, b = row
  k1, k2 = spec["k"]
  v = {"addi": a + b, "muli": a * b, "subi": a - b}[spec["op"]]
  return float(v * k2 + k1)
