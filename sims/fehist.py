"""Histories of client operations (C06), checked against a small model."""
import random

from dst import sched
from dst.world import h64
from sims import feprog


class Model:
  """What a client may do next and what it must answer."""

  def __init__(self):
    self.epoch = 0       # number of setups so far; 0: not set up
    self.cts = []        # (arg index, EncValue, plain value, epoch, key name)
    self.res = []        # (result, expected value, epoch, key name)
    self.kp2 = {}        # epoch -> second key pair


def op(st, o, c):
  # imported late: sims.fe owns the violation list
  from sims import fe
  co = next((x for x in st.plan["ops"] if x["id"] == o["slot"] and x["kind"] == "compile"), None)
  cl = st.client.get(o["slot"])
  if co is None or cl is None:
    return
  m = st.hist.setdefault(o["slot"], Model())
  src, fn = co["src"], st.fns.get(co["id"])
  clear = co["be"] == "clear"
  rng = random.Random(h64("hist", o["r"]))
  names = [a[0] for a in src["args"]]
  secret = [i for i, a in enumerate(src["args"]) if a[2]]
  row = src["inputs"][o["inp"] % len(src["inputs"])]
  val = lambda i, r=row: feprog.arg_value(src["args"][i][1], r[i]) if src["kind"] == "py" else r[i]
  ready = clear or m.epoch > 0

  def bad(cls, sig, msg):
    fe.add(st, "C06", cls, sig + (":clear" if clear else ""), "%s (operation %s of the history)" % (msg, o["id"]))

  def attempt(f):
    try:
      return True, f()
    except sched.Deadlock:
      raise
    except Exception as e:
      return False, e

  def need_setup(f, what):
    ok, r = attempt(f)
    st.run.probe("used_before_setup")
    if ok:
      bad("no-setup-error", "no-setup:" + what, "%s before setup succeeded" % what)
    elif "setup" not in str(r) or isinstance(r, (AttributeError, KeyError)):
      bad("no-setup-error", "no-setup-text:" + what, "%s before setup fails with %r, which does not say so" % (what, r))

  def log(*a):
    st.log.append("%d %s %s" % (o["id"], o["h"], " ".join(map(str, a))))

  def getter(i):
    return getattr(cl, "encrypt_" + names[i])

  def same_value(got, want, what):
    g = feprog.norm(got)
    log(what, g)
    if g != want:
      bad("wrong-value", "value:" + what, "%s gives %s, the function gives %s" % (what, g, want))

  h = o["h"]
  if h == "setup":
    ok, r = attempt(cl.setup)
    if not ok:
      bad("spurious-error", "setup:" + type(r).__name__, "setup fails: %r" % r)
      return
    m.epoch += 1
    log(m.epoch)
  elif h == "keys":
    if clear or not m.epoch or m.epoch in m.kp2:
      return
    kp = cl.crypto_context.KeyGen()
    cl.compilation_result.setup_funcs["configure_crypto_context"](cl.crypto_context, kp.secretKey)
    m.kp2[m.epoch] = kp
    log("second key pair")
  elif h == "enc":
    i = secret[o["arg"] % len(secret)]
    if not ready:
      need_setup(lambda: getter(i)(val(i)), "encrypt")
      return
    key = "own"
    kw = {}
    if not clear and o["key"] == "own2" and m.epoch in m.kp2:
      kw = {"public_key": m.kp2[m.epoch].publicKey}
      key = "own2"
      st.run.probe("explicit_key")
    elif not clear and o["key"] == "other":
      kw = {"public_key": cl.keypair.publicKey, "crypto_context": cl.crypto_context}
      st.run.probe("explicit_own_key_and_context")
    ok, r = attempt(lambda: getter(i)(val(i), **kw))
    if not ok:
      bad("spurious-error", "encrypt:" + type(r).__name__, "encrypting argument %s fails: %r" % (names[i], r))
      return
    m.cts.append((i, r, row[i], m.epoch, key))
    log(names[i], key)
  elif h == "eval":
    if not ready:
      E = st_enc(st)
      need_setup(lambda: cl.eval(*[E(names[i], object()) if i in secret else val(i) for i in range(len(names))]), "eval")
      return
    keys = {}
    for e in m.cts:
      if clear or e[3] == m.epoch:
        keys.setdefault(e[4], {}).setdefault(e[0], []).append(e)
    key = rng.choice(sorted(keys)) if keys else "own"
    have = keys.get(key, {})
    args, plain = [], []
    for i in range(len(names)):
      if i in secret:
        if i in have and rng.random() < 0.8:
          e = rng.choice(have[i])
          args.append(e[1])
          plain.append(e[2])
        else:
          kw = {"public_key": m.kp2[m.epoch].publicKey} if key == "own2" else {}
          ok, r = attempt(lambda: getter(i)(val(i), **kw))
          if not ok:
            bad("spurious-error", "encrypt:" + type(r).__name__, "encrypting argument %s fails: %r" % (names[i], r))
            return
          args.append(r)
          plain.append(row[i])
      else:
        args.append(val(i))
        plain.append(row[i])
    mut = o["mut"]
    pub = [i for i in range(len(names)) if i not in secret]
    refused = None
    if mut == "swap" and len(secret) >= 2:
      i, j = rng.sample(secret, 2)
      if rng.random() < 0.5:
        args[i], args[j] = args[j], args[i]
      else:
        args[i] = args[j]
      refused = "swapped"
    elif mut == "plain":
      i = rng.choice(secret)
      args[i] = val(i)
      refused = "unencrypted where a secret is expected"
    elif mut == "encpub" and pub:
      i = rng.choice(pub)
      E = st_enc(st)
      args[i] = rng.choice([args[secret[0]], E(names[i], val(i))])
      refused = "encrypted where a plaintext is expected"
    if refused:
      st.run.probe("bad_args_" + mut)
      ok, r = attempt(lambda: cl.eval(*args))
      log("refused" if not ok else "ACCEPTED", refused)
      if ok:
        bad("accepted-bad-arguments", "accepted:" + mut, "eval accepted an argument that is %s" % refused)
      return
    if mut == "alien":
      # a ciphertext of another client whose argument has another name
      other = [(s, e) for s, mm in st.hist.items() if s != o["slot"] for e in mm.cts]
      mine = secret[0]
      for s, e in other:
        ox = next(x for x in st.plan["ops"] if x["id"] == s)
        if ox["task"] == o["task"] and ox["src"]["args"][e[0]][0] != names[mine]:
          args[mine] = e[1]
          ok, r = attempt(lambda: cl.eval(*args))
          st.run.probe("bad_args_alien")
          log("alien", ok)
          if ok:
            bad("accepted-bad-arguments", "accepted:alien", "eval accepted another function's argument as %s" % names[mine])
          return
    if clear and src["kind"] == "mlir":
      ok, r = attempt(lambda: cl.eval(*args))
      if ok:
        bad("wrong-value", "mlir-clear", "eval of an MLIR string under the cleartext backend returned %r" % (r,))
      return
    want = feprog.expected(src, fn, plain)
    ok, r = attempt(lambda: cl.eval(*args))
    if not ok:
      bad("spurious-error", "eval:" + type(r).__name__, "a well-formed eval fails: %r" % r)
      return
    m.res.append((r, want, m.epoch, key))
    log("ok", key)
  elif h == "dec":
    if not ready:
      need_setup(lambda: cl.decrypt_result(object()), "decrypt")
      return
    live = [x for x in m.res if clear or x[2] == m.epoch]
    if not live:
      return
    r, want, ep, key = rng.choice(live)
    kw = {}
    if key == "own2":
      kw = {"secret_key": m.kp2[ep].secretKey}
    elif not clear and o["key"] == "other":
      kw = {"secret_key": cl.keypair.secretKey, "crypto_context": cl.crypto_context}
    ok, v = attempt(lambda: cl.decrypt_result(r, **kw))
    if not ok:
      bad("spurious-error", "decrypt:" + type(v).__name__, "decrypting fails: %r" % v)
      return
    same_value(v, want, "decrypt")
    if key == "own2" and not clear:
      st.run.probe("explicit_key_decrypt")
      ok, v = attempt(lambda: cl.decrypt_result(r))
      if ok and feprog.norm(v) == want and want not in (0.0,):
        bad("wrong-value", "key-ignored", "decrypting with the client's own key gives the value encrypted for another key")
  elif h == "orig":
    fe.original(st, co, cl)
    log()
  elif h == "call":
    if clear and src["kind"] == "mlir":
      return
    ok, v = attempt(lambda: cl(*[val(i) for i in range(len(names))]))
    m.epoch += 1
    if not ok:
      bad("spurious-error", "call:" + type(v).__name__, "a well-formed call fails: %r" % v)
      return
    same_value(v, feprog.expected(src, fn, row), "call")
  elif h == "badcall":
    if clear:
      return
    ok, v = attempt(lambda: cl(*[val(i) for i in range(len(names) - 1)]))
    m.epoch += 1
    log("refused" if not ok else "ACCEPTED")
    if ok:
      bad("accepted-bad-arguments", "accepted:short", "a call with too few arguments returned %r" % (v,))


def st_enc(st):
  from sims.fe import H
  return H["itf"].EncValue
