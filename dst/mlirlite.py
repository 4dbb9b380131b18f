"""A parser, verifier and interpreter for the MLIR subset the frontend emits.

Plays the part of heir-opt's parser and, in the simulated crypto library, of the
compiled program.  Rejects what heir-opt rejects: undefined or redefined values,
type mismatches, malformed text.
"""
import re


class MlirError(Exception):
  pass


_LOC = re.compile(r'\s*loc\("[^"]*":\d+:\d+\)')
_FUNC = re.compile(r'(?:func\.func|func)\s+@([A-Za-z_][\w$.]*)\s*\(')


def strip_locs(text):
  return _LOC.sub("", text)


def _split_args(s):
  out, depth, cur = [], 0, ""
  for ch in s:
    if ch in "<[{(":
      depth += 1
    elif ch in ">]})":
      depth -= 1
    if ch == "," and depth == 0:
      out.append(cur.strip())
      cur = ""
    else:
      cur += ch
  if cur.strip():
    out.append(cur.strip())
  return out


class Func:

  def __init__(self, name, args, ret, body):
    self.name, self.args, self.ret, self.body = name, args, ret, body

  @property
  def arg_names(self):
    return [a[0] for a in self.args]

  @property
  def secret(self):
    return [i for i, a in enumerate(self.args) if a[2]]

  @property
  def shapes(self):
    return [a[3] for a in self.args]


_TY = r"(?:i\d+|f\d+|index|tensor<[^>]*>)"


def parse(text):
  """Parse a module; returns the list of functions."""
  t = "\n".join(l for l in text.split("\n") if not l.strip().startswith("//"))
  t = strip_locs(t)
  funcs = []
  pos = 0
  while True:
    m = _FUNC.search(t, pos)
    if not m:
      break
    i = m.end()
    depth = 1
    while i < len(t) and depth:
      depth += t[i] == "("
      depth -= t[i] == ")"
      i += 1
    if depth:
      raise MlirError("expected ')'")
    argtext = t[m.end():i - 1]
    m2 = re.compile(r"\s*->\s*\(?\s*(" + _TY + r")\s*\)?\s*\{").match(t, i)
    if not m2:
      raise MlirError("expected function result type and body")
    j = m2.end()
    depth = 1
    while j < len(t) and depth:
      depth += t[j] == "{"
      depth -= t[j] == "}"
      j += 1
    if depth:
      raise MlirError("expected '}' at end of function body")
    args = []
    for a in _split_args(argtext):
      ma = re.fullmatch(r"%([\w$.]+)\s*:\s*(" + _TY + r")\s*(\{.*\})?", a, re.S)
      if not ma:
        raise MlirError("bad argument: " + a)
      attrs = ma.group(3) or ""
      ms = re.search(r"shape\.shape\s*=\s*\[([^\]]*)\]", attrs)
      shape = [int(x) for x in ms.group(1).split(",")] if ms else None
      args.append((ma.group(1), ma.group(2), "secret.secret" in attrs, shape))
    if len({a[0] for a in args}) != len(args):
      raise MlirError("redefinition of argument")
    body, rest = _block(t[m2.end():j - 1].split("\n"), 0)
    f = Func(m.group(1), args, m2.group(1), body)
    _verify(f)
    funcs.append(f)
    pos = j
  if not funcs:
    raise MlirError("no function in the input")
  return funcs


def _block(lines, i):
  ops = []
  while i < len(lines):
    s = lines[i].strip()
    i += 1
    if not s or s.startswith("//"):
      continue
    if s == "}" or s.startswith("} else"):
      return ops, i - 1
    if s.startswith("^"):
      raise MlirError("unstructured control flow: " + s)
    m = re.match(r"(?:(%[\w$.]+)(?::(\d+))?\s*=\s*)?affine\.for\s+(%[\w$.]+)\s*=\s*(\S+)\s+to\s+(\S+)(?:\s+step\s+(\S+))?"
                 r"(?:\s+iter_args\((.*?)\)\s*->\s*\((.*?)\))?\s*\{$", s)
    if m:
      body, j = _block(lines, i)
      if j >= len(lines) or lines[j].strip() != "}":
        raise MlirError("unterminated affine.for")
      i = j + 1
      its = []
      for a in _split_args(m.group(7) or ""):
        x, y = a.split("=")
        its.append((x.strip(), y.strip()))
      ops.append(("for", m.group(1), int(m.group(2) or (1 if m.group(1) else 0)), m.group(3), m.group(4), m.group(5),
                  m.group(6) or "1", its, _split_args(m.group(8) or ""), body))
      continue
    m = re.match(r"(?:(.+?)\s*=\s*)?scf\.if\s+(%[\w$.#]+)(?:\s*->\s*\((.*?)\))?\s*\{$", s)
    if m:
      tb, j = _block(lines, i)
      fb = []
      if j >= len(lines):
        raise MlirError("unterminated scf.if")
      if lines[j].strip().startswith("} else"):
        fb, j = _block(lines, j + 1)
        if j >= len(lines):
          raise MlirError("unterminated scf.if")
      i = j + 1
      res = [x.strip() for x in (m.group(1) or "").split(",") if x.strip()]
      ops.append(("if", res, m.group(2), _split_args(m.group(3) or ""), tb, fb))
      continue
    m = re.match(r"(?:func\.)?return\s+(.*?)\s*:\s*(.*)$", s)
    if m:
      ops.append(("return", _split_args(m.group(1)), _split_args(m.group(2))))
      continue
    m = re.match(r"(?:scf|affine)\.yield\s+(.*?)\s*:\s*(.*)$", s)
    if m:
      ops.append(("yield", _split_args(m.group(1)), _split_args(m.group(2))))
      continue
    m = re.match(r"(%[\w$.]+)\s*=\s*arith\.constant\s+(\S+)\s*:\s*(" + _TY + ")$", s)
    if m:
      ops.append(("const", m.group(1), m.group(2), m.group(3)))
      continue
    m = re.match(r"(%[\w$.]+)\s*=\s*arith\.(extsi|trunci|index_cast|fptosi|sitofp|extui|extf|truncf)\s+(%[\w$.#]+)\s*:\s*(" + _TY + r")\s+to\s+(" + _TY + ")$", s)
    if m:
      ops.append(("cast", m.group(1), m.group(2), m.group(3), m.group(4), m.group(5)))
      continue
    m = re.match(r"(%[\w$.]+)\s*=\s*arith\.cmp([if])\s+(\w+),\s*(%[\w$.#]+),\s*(%[\w$.#]+)\s*:\s*(" + _TY + ")$", s)
    if m:
      ops.append(("cmp", m.group(1), m.group(3), m.group(4), m.group(5), m.group(6)))
      continue
    m = re.match(r"(%[\w$.]+)\s*=\s*arith\.(\w+)\s+(%[\w$.#]+),\s*(%[\w$.#]+)\s*:\s*(" + _TY + ")$", s)
    if m:
      ops.append(("bin", m.group(1), m.group(2), m.group(3), m.group(4), m.group(5)))
      continue
    raise MlirError("unknown operation: " + s)
  return ops, i


def _verify(f):
  env = {"%" + a[0]: a[1] for a in f.args}
  _vblock(f, f.body, env, "func")


def _use(env, name, ty=None):
  if name not in env:
    raise MlirError("use of undeclared SSA value name " + name)
  if ty is not None and env[name] != ty:
    raise MlirError(f"use of value {name} expects different type than prior uses: {ty} vs {env[name]}")
  return env[name]


def _def(env, name, ty):
  if name in env:
    raise MlirError("redefinition of SSA value " + name)
  env[name] = ty


def _vblock(f, ops, env, kind):
  """Verify a block; returns the types it yields."""
  env = dict(env)
  for n, op in enumerate(ops):
    k = op[0]
    last = n == len(ops) - 1
    if k == "const":
      _def(env, op[1], op[3])
    elif k == "cast":
      _use(env, op[3], op[4])
      fw, tw = op[4], op[5]
      if op[2] == "extsi" and not (_w(fw) < _w(tw)) or op[2] == "trunci" and not (_w(fw) > _w(tw)):
        raise MlirError("invalid cast " + str(op))
      if op[2] == "index_cast" and (fw == "index") == (tw == "index"):
        raise MlirError("invalid index_cast")
      _def(env, op[1], op[5])
    elif k == "cmp":
      _use(env, op[3], op[5])
      _use(env, op[4], op[5])
      _def(env, op[1], "i1")
    elif k == "bin":
      if op[2] not in _BIN:
        raise MlirError("unknown op arith." + op[2])
      _use(env, op[3], op[5])
      _use(env, op[4], op[5])
      _def(env, op[1], op[5])
    elif k == "for":
      _, res, nres, iv, lo, hi, step, its, tys, body = op
      for b in (lo, hi, step):
        if b.startswith("%"):
          _use(env, b, "index")
        elif not re.fullmatch(r"-?\d+", b):
          raise MlirError("bad loop bound " + b)
      if len(its) != len(tys) or nres != len(its):
        raise MlirError("iter_args mismatch")
      inner = dict(env)
      _def(inner, iv, "index")
      for (a, init), ty in zip(its, tys):
        _use(env, init, ty)
        _def(inner, a, ty)
      y = _vblock(f, body, inner, "for")
      if (y or []) != tys:
        raise MlirError("affine.yield types do not match")
      if res:
        for i in range(nres):
          _def(env, f"{res}#{i}", tys[i])
        if nres == 1:
          env[res] = tys[0]
    elif k == "if":
      _, res, cond, tys, tb, fb = op
      _use(env, cond, "i1")
      ty1 = _vblock(f, tb, env, "if")
      ty2 = _vblock(f, fb, env, "if") if fb else []
      if tys and ((ty1 or []) != tys or (ty2 or []) != tys):
        raise MlirError("scf.yield types do not match")
      if len(res) != len(tys):
        raise MlirError("scf.if result count")
      for r, ty in zip(res, tys):
        _def(env, r, ty)
    elif k in ("return", "yield"):
      if not last:
        raise MlirError("terminator in the middle of a block")
      if (k == "return") != (kind == "func"):
        raise MlirError("wrong terminator")
      for v, ty in zip(op[1], op[2]):
        _use(env, v, ty)
      if k == "return" and op[2] != [f.ret]:
        raise MlirError("return type mismatch")
      return op[2]
  if kind == "func":
    raise MlirError("block with no terminator")
  return []


def _w(ty):
  m = re.fullmatch(r"[if](\d+)", ty)
  return int(m.group(1)) if m else 64


def _wrap(v, ty):
  if ty.startswith("tensor"):
    el = ty[:-1].split("x")[-1]
    return [_wrap(x, el) for x in v]
  if ty.startswith("f"):
    return float(v)
  if ty == "index":
    return int(v)
  w = _w(ty)
  v = int(v) & ((1 << w) - 1)
  if w > 1 and v >= 1 << (w - 1):
    v -= 1 << w
  return v


def _div(a, b):
  if b == 0:
    return 0
  q = abs(a) // abs(b)
  return q if (a < 0) == (b < 0) else -q


_BIN = {
    "addi": lambda a, b: a + b, "addf": lambda a, b: a + b,
    "subi": lambda a, b: a - b, "subf": lambda a, b: a - b,
    "muli": lambda a, b: a * b, "mulf": lambda a, b: a * b,
    "shli": lambda a, b: a << b, "shrsi": lambda a, b: a >> b,
    "andi": lambda a, b: a & b, "xori": lambda a, b: a ^ b, "ori": lambda a, b: a | b,
    "divsi": _div, "remsi": lambda a, b: a - b * _div(a, b),
    "floordivsi": lambda a, b: a // b if b else 0,
}
_CMP = {"slt": lambda a, b: a < b, "sge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
        "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b,
        "olt": lambda a, b: a < b, "oge": lambda a, b: a >= b, "oeq": lambda a, b: a == b, "one": lambda a, b: a != b}


def run(f, args):
  if len(args) != len(f.args):
    raise TypeError(f"{f.name}(): incompatible function arguments")
  env = {}
  for (n, ty, _, shape), v in zip(f.args, args):
    if ty.startswith("tensor"):
      v = [x for x in v]
      if shape and len(v) != shape[0]:
        raise ValueError("tensor of wrong size")
    env["%" + n] = _wrap(v, ty)
  r = _rblock(f.body, env)
  return _wrap(r[0], f.ret)


def _rblock(ops, env):
  env = dict(env)
  for op in ops:
    k = op[0]
    if k == "const":
      v = {"true": 1, "True": 1, "false": 0, "False": 0}.get(op[2])
      if v is None:
        v = float(op[2]) if op[3].startswith("f") else int(op[2])
      env[op[1]] = _wrap(v, op[3])
    elif k == "cast":
      env[op[1]] = _wrap(int(env[op[3]]) if op[2] == "fptosi" else env[op[3]], op[5])
    elif k == "cmp":
      env[op[1]] = int(_CMP[op[2]](env[op[3]], env[op[4]]))
    elif k == "bin":
      a, b = env[op[3]], env[op[4]]
      fn = _BIN[op[2]]
      if isinstance(a, list):
        v = [fn(x, y) for x, y in zip(a, b)]
      else:
        v = fn(a, b)
      env[op[1]] = _wrap(v, op[5])
    elif k == "for":
      _, res, nres, iv, lo, hi, step, its, tys, body = op
      g = lambda b: env[b] if b.startswith("%") else int(b)
      cur = [env[i] for _, i in its]
      for i in range(g(lo), g(hi), g(step)):
        inner = dict(env)
        inner[iv] = i
        for (a, _), v in zip(its, cur):
          inner[a] = v
        y = _rblock(body, inner)
        cur = y if y is not None else cur
      if res:
        for i, v in enumerate(cur):
          env[f"{res}#{i}"] = v
        if nres == 1:
          env[res] = cur[0]
    elif k == "if":
      _, res, cond, tys, tb, fb = op
      y = _rblock(tb if env[cond] else fb, env)
      for r, v in zip(res, y or []):
        env[r] = v
    elif k in ("return", "yield"):
      return [env[v] for v in op[1]]
  return None
