"""Scenario generators: one per property, swarm style.

generate(pid, seed) returns a JSON-serialisable scenario.  Every random choice
derives from the seed.
"""
import collections

import pyarrow as pa

from vsim import model as M
from vsim.core import h64, rng_of

ALL_SCHEMAS = [
    "flat", "recmid", "multi", "tworec", "nested", "fpk", "bigpk", "pair",
    "ext", "edge", "names"
]
REC_SCHEMAS = ["recmid", "tworec", "fpk", "ext", "edge", "names"]

_schemas = {}


def schema_of(name):
  if name not in _schemas:
    _schemas[name] = M.Schema(name)
  return _schemas[name]


MUT_SITES = [
    ("move", "entrypoint"), ("write", "entrypoint"), ("create", "entrypoint"),
    ("close", "entrypoint"), ("write", "metadata"), ("create", "metadata"),
    ("close", "metadata"), ("write", "index"), ("create", "index"),
    ("close", "index"), ("close", "index_manifest"), ("write", "index_manifest"),
    ("create", "index_manifest"), ("write", "record_manifest"),
    ("close", "record_manifest"), ("close", "record"), ("create", "record"),
    ("ar_write", "record"), ("write", "change"), ("create", "change"),
    ("close", "change"), ("mkdir", "other"), ("op", "other"),
]
READ_SITES = [("read", "entrypoint"), ("read", "metadata"), ("read", "index"),
              ("read", "index_manifest"), ("read", "record"),
              ("read", "record_manifest"), ("read", "change"),
              ("read", "other"), ("stat", "metadata"), ("op", "other")]
ODD_NAMES = [
    ["1", "0", "2", "3", "-1"],
    ["Main", "main ", "mai", "main2", "MAIN"],
    ["\u00e9\U0001f600", "a/b", 'q"\\', "line\nbreak", "../x"],
    ["None", "True", "1.0", "r", "R"],
    ["ab", "AB", "Ab", "aB", "AB "],
]
MUTATIONS = {
    "append", "append_from", "append_parquet", "append_ar", "insert", "upsert",
    "delete", "tag", "untag", "branch", "unbranch", "create", "materialize",
    "refresh"
}
CRASHES = ["crash_before", "crash_after", "crash_torn"]
ERRORS = ["err_before", "err_after", "err_torn"]


class G:

  def __init__(self, seed):
    self.seed = seed
    self.r = rng_of(seed, "gen")
    self.uid = 0
    self.keys = self.r.choice([4, 8, 14, 30])
    self.sc = {"seed": seed, "stores": [], "clients": [], "faults": []}
    self.schema = {}
    self.nrefs = self.r.choice([2, 4])
    self.sc["fopts"] = self.fopts()
    self.sc["preempt_p"] = self.r.choice([0.02, 0.1, 0.3])
    self.sc["p_reader"] = 0.03
    if self.p(0.25):
      self.sc["hold"] = 1
    self.not_filters = True
    self.wide = rng_of(seed, "wide").choice([0, 0, 0.15, 0.4])

  def p(self, x):
    return self.r.random() < x

  def fopts(self):
    r = self.r
    o = {}
    if r.random() < 0.6:
      o["rg"] = r.choice([1, 60, 150, 600])
    if r.random() < 0.6:
      o["file"] = r.choice([1, 80, 200, 800])
    if r.random() < 0.6:
      o["rec"] = r.choice([1, 20, 60, 300])
    return o

  # ------------------------------------------------------------------ storage
  def store(self, name, schema=None, create=True, among=None):
    if schema is None:
      schema = self.r.choice(among or ALL_SCHEMAS)
      r = rng_of(self.seed, "schema", name)
      if r.random() < 0.2:
        kind = "rec" if among is REC_SCHEMAS else "rnd"
        schema = f"{kind}:{r.randrange(10**6)}"
    self.sc["stores"].append({"name": name, "schema": schema,
                              "create": create})
    self.schema[name] = schema_of(schema)
    return name

  def client(self, cid, ops, ray=False):
    for i, o in enumerate(ops):
      o["i"] = i
    self.sc["clients"].append({"id": cid, "ray": ray, "ops": ops})
    return cid

  # --------------------------------------------------------------------- data
  def new_uid(self):
    self.uid += 1
    return self.uid

  def rows(self, lo=0, hi=6, distinct=True, keys=None):
    n = self.r.randint(lo, hi)
    keys = keys or self.keys
    if distinct:
      ks = self.r.sample(range(keys), min(n, keys))
    else:
      ks = [self.r.randrange(keys) for _ in range(n)]
    style = self.r.random()
    if style < 0.3:
      ks.sort()
    return [[k, self.new_uid()] for k in ks]

  def fresh_rows(self, lo=1, hi=6):
    """Rows with keys never used elsewhere."""
    out = []
    for _ in range(self.r.randint(lo, hi)):
      u = self.new_uid()
      out.append([1000 + u, u])
    return out

  # ------------------------------------------------------------------- filters
  def leaf(self, s, pk_only=False):
    r = self.r
    fields = [
        f for f in s.fields
        if f[2] != "rec" and not pa.types.is_nested(f[1]) and
        (f[2] == "pk" or not pa.types.is_binary(f[1]))
    ]
    pks = [f for f in fields if f[2] == "pk"]
    if s.name == "pair" and r.random() < 0.3:
      a, b = r.sample(["lo", "hi"], 2)
      return ["ff", a, r.choice(["==", "!=", "<", ">", "<=", ">="]), b]
    if self.wide and not pk_only and r.random() < self.wide:
      return self.wide_leaf(s, fields)
    f = r.choice(pks) if pk_only or r.random() < 0.5 else r.choice(fields)
    name = f[0]
    ops = ["==", "!=", "<", "<=", ">", ">="]
    if pa.types.is_boolean(f[1]):
      ops = ["==", "!="]

    def const():
      if f[2] == "pk":
        return r.randint(-1, self.keys + 1) if name != "a" else r.randrange(3)
      for _ in range(20):
        u = r.randint(1, max(self.uid, 3) + 2)
        v = f[3](r.randrange(self.keys), u)
        if v is not None and v == v:
          return v
      return None

    x = r.random()
    if x < 0.62:
      c = const()
      if c is not None:
        return ["cmp", name, r.choice(ops), c]
    if x < 0.72:
      c = const()
      if c is not None:
        return ["rcmp", name, r.choice(ops), c]
    if x < 0.82:
      cs = [c for c in (const() for _ in range(r.randint(1, 4)))
            if c is not None]
      if cs:
        return ["isin", name, cs]
    if x < 0.92:
      same = [g for g in fields if g[1] == f[1] and g[0] != name]
      if same:
        g = r.choice(same)
        return ["ff", name, r.choice(["==", "!=", "<", ">", "<=", ">="]), g[0]]
    if x < 0.97 and f[2] != "pk":
      return ["isnull", name]
    return ["cmp", s.pks[-1], r.choice(["<", ">="]), r.randint(0, self.keys)]

  def wide_leaf(self, s, fields):
    """Less common conditions."""
    r = self.r
    o = r.choice(["==", "!=", "<", ">", "<=", ">="])
    many = []
    for n, t, _, fn in fields:
      many.append(["valid", n])
      if pa.types.is_boolean(t):
        many += [["bool", n]] * 3
      if pa.types.is_string(t):
        many.append(["starts", n, r.choice(["v", "v1", "key000", "a", "a1"])])
      # (Integers that no float represents aside.)
      if pa.types.is_integer(t) and s.name != "edge" and abs(
          fn(self.keys, 1) or 0) < 2**24:
        c = r.randint(-1, self.keys + 1)
        if n not in s.pks:
          c = r.randint(1, max(self.uid, 3) + 2)
        many += [["half", n, o, c], ["half", n, o, c], ["plus", n, o, c]]
    if s.name == "nested":
      many += [["sub", "p", o, r.randint(1, max(self.uid, 3))]] * 2
    many += [["lit", r.randrange(2)],
             ["litcmp", r.randrange(3), o, r.randrange(3)]]
    return r.choice(many)

  def filter(self, s, depth=2):
    r = self.r
    if depth == 0 or r.random() < 0.45:
      return self.leaf(s)
    x = r.random()
    if x < 0.42:
      return ["and", self.filter(s, depth - 1), self.filter(s, depth - 1)]
    if x < 0.85:
      return ["or", self.filter(s, depth - 1), self.filter(s, depth - 1)]
    f = ["not", self.filter(s, depth - 1)]
    if M.not_over_pk(f, s):
      return f[1]
    return f

  # ---------------------------------------------------------------- operations
  def form(self, op):
    """The form of the input rows: a table, a table in chunks or a dict."""
    if self.p(0.15):
      op["form"] = "dict"
    elif self.p(0.3):
      op["form"] = self.r.choice([2, 3])
    return op

  def mutation(self, on, mix=None):
    r = self.r
    s = self.schema[on]
    mix = mix or {"append": 3, "append_from": 1, "insert": 2, "upsert": 3,
                  "delete": 3}
    k = r.choices(list(mix), list(mix.values()))[0]
    if k == "append":
      op = {"op": k, "on": on, "rows": self.rows(0 if self.p(0.1) else 1, 7,
                                                 distinct=not self.p(0.25))}
      if self.p(0.2):
        order = list(range(len(s.names)))
        r.shuffle(order)
        op["order"] = order
      return self.form(op)
    if k == "append_from":
      n = r.choice([1, 1, 2, 3])
      src = [[self.rows(0 if self.p(0.2) else 1, 4)
              for _ in range(r.randint(1, 3))] for _ in range(n)]
      return self.form({"op": k, "on": on, "sources": src,
                        "aslist": self.p(0.5)})
    if k == "insert":
      rows = self.fresh_rows(1, 4) if self.p(0.4) else self.rows(
          0 if self.p(0.08) else 1, 4, distinct=not self.p(0.08))
      return self.form({"op": k, "on": on, "rows": rows})
    if k == "upsert":
      return self.form({"op": k, "on": on,
                        "rows": self.rows(0 if self.p(0.08) else 1, 5,
                                          distinct=not self.p(0.05))})
    if k == "delete":
      f = self.leaf(s, pk_only=True) if self.p(0.5) else self.filter(s)
      if M.not_over_pk(f, s):
        f = self.leaf(s)
      return {"op": k, "on": on, "filter": f}
    raise ValueError(k)

  def ref_name(self):
    return f"r{self.r.randrange(self.nrefs)}"

  def odd_names(self):
    """Other names for tags and branches."""
    new = dict(zip(["r0", "r1", "r2", "r3", "rb"],
                   self.r.choice(ODD_NAMES)))

    def visit(x):
      if isinstance(x, dict):
        if x.get("name") in new:
          x["name"] = new[x["name"]]
        if (x.get("ver") or [""])[0] == "ref":
          x["ver"] = ["ref", new.get(x["ver"][1], x["ver"][1])]
        for v in x.values():
          visit(v)
      elif isinstance(x, list):
        for v in x:
          visit(v)

    for c in self.sc["clients"]:
      visit(c["ops"])
    for k in ("prelude", "finale"):
      visit(self.sc.get(k))

  def ref_op(self, on, mix=None):
    r = self.r
    mix = mix or {"tag": 3, "branch": 2, "untag": 1, "unbranch": 1,
                  "checkout": 2}
    k = r.choices(list(mix), list(mix.values()))[0]
    op = {"op": k, "on": on, "name": self.ref_name()}
    if k == "checkout" and self.p(0.3):
      op["name"] = "main"
    if k == "tag" and self.p(0.4):
      op["snap"] = r.randrange(12)
    return op

  def version(self):
    x = self.r.random()
    if x < 0.5:
      return None
    if x < 0.75:
      return ["id", self.r.randrange(12)]
    return ["ref", self.ref_name()]

  def read(self, on, plain=0.5, slow=0.2):
    r = self.r
    s = self.schema[on]
    op = {"op": r.choice(["read", "read", "read_all"]), "on": on}
    v = self.version()
    if v:
      op["ver"] = v
    if not self.p(plain):
      op["filter"] = self.filter(s)
    if self.p(0.4):
      op["batch"] = r.choice([1, 2, 3, 5, 100])
    if self.p(0.35):
      names = list(s.names)
      r.shuffle(names)
      op["fields"] = names[:r.randint(1, len(names))]
    if op["op"] == "read":
      if self.p(slow):
        op["slow"] = 1
      if s.recs and self.p(0.15) and "fields" not in op:
        op["refread"] = 1
      if self.p(0.2):
        op["rayds"] = 1  # for clients that use Ray
    return op

  def diff(self, on):
    op = {"op": "diff", "on": on, "a": self.r.randrange(9),
          "b": self.r.randrange(9)}
    if self.p(0.55):
      op["rel"] = 1
      op["a"] = self.r.choice([1, 1, 2, 3, 5])
      op["b"] = self.r.choice([-1, -1, -2, self.r.randrange(12)])
    elif self.p(0.15):
      op["rev"] = 1
    if self.p(0.15):
      op["names"] = 1
    if self.p(0.4):
      op["batch"] = self.r.choice([1, 2, 4])
    if self.p(0.3):
      op["slow"] = 1
    if self.p(0.25):
      op["rayds"] = 1
    return op

  def random_access(self, on):
    s = self.schema[on]
    recs = list(s.recs)
    self.r.shuffle(recs)
    op = {"op": "random_access", "on": on,
          "fields": recs[:self.r.randint(1, len(recs))],
          "ar": int(self.p(0.5)), "by_path": int(self.p(0.4)),
          "addresses": int(self.p(0.5))}
    if set(op["fields"]) <= set(s.serialized()) and self.p(0.6):
      op["deser"] = 1
    return op

  def branch_story(self, on, name=None):
    """Work on a branch and on main, then look back or remove names."""
    r = self.r
    b = name or self.ref_name()
    mut = lambda: self.mutation(on)  # noqa
    co = lambda n: {"op": "checkout", "on": on, "name": n}  # noqa
    ops = [mut() for _ in range(r.randint(1, 2))]
    ops += [{"op": "branch", "on": on, "name": b}, co(b)]
    ops += [mut() for _ in range(r.randint(1, 3))]
    ops += [co("main")]
    ops += [mut() for _ in range(r.randint(0, 2))]
    for _ in range(r.randint(1, 5)):
      x = r.random()
      if x < 0.2:
        ops.append({"op": "unbranch", "on": on, "name": b})
      elif x < 0.3:
        ops.append({"op": "branch", "on": on, "name": b})
      elif x < 0.5:
        ops += [co(b), mut(), co("main")][:r.choice([2, 3, 3])]
      elif x < 0.62:
        ops.append({"op": "tag", "on": on, "name": self.ref_name(),
                    "snap": r.randrange(12)})
      elif x < 0.75:
        ops.append(self.diff(on))
      elif x < 0.87:
        ops.append({"op": "read", "on": on, "ver":
                    ["ref", b] if self.p(0.5) else ["id", r.randrange(12)]})
      elif x < 0.92:
        ops.append({"op": "versions", "on": on})
      else:
        ops.append(mut())
    ops.append(co("main") if self.p(0.5) else mut())
    ops.append(mut())
    return ops

  def set_prelude(self, ops):
    for i, o in enumerate(ops):
      o["i"] = i
    self.sc["prelude"] = ops

  def misc(self, on, mix):
    """Operation chosen by class: mut, ref, read, diff, versions, ..."""
    k = self.r.choices(list(mix), list(mix.values()))[0]
    if k == "mut":
      return self.mutation(on)
    if k == "ref":
      return self.ref_op(on)
    if k == "read":
      return self.read(on)
    if k == "diff":
      return self.diff(on)
    if k == "ra":
      if not self.schema[on].recs:
        return self.read(on)
      return self.random_access(on)
    return {"op": k, "on": on}

  # -------------------------------------------------------------------- faults
  def add_faults(self, kinds, n, only=None, ray=False, sites=None):
    r = self.r
    for _ in range(n):
      c = r.choice(self.sc["clients"])
      ops = [o for o in c["ops"] if o["op"] in (only or MUTATIONS)] or c["ops"]
      if not ops:
        continue
      o = r.choice(ops)
      f = {"proc": c["id"], "op": o["i"], "kind": r.choice(kinds)}
      if ray and c["ray"] and self.p(0.75):
        f["proc"] = f"{c['id']}/{o['i']}.{r.randint(1, 4)}"
      if self.p(0.6):
        pool = sites or (MUT_SITES if o["op"] in MUTATIONS and self.p(0.85) else
                         READ_SITES)
        kind, site = r.choice(pool)
        f["on"] = {"kind": kind, "site": site}
        f["at"] = r.choice([0, 0, 0, 1, 1, 2, 3])
      else:
        f["at"] = int(2**r.uniform(0, 6))
      if f["kind"] == "jump":
        f["dt"] = r.choice([-86400.0, -3600.0, -5.0, 5.0, 3600.0, 1e6])
      if f["kind"] == "stall":
        f["n"] = r.choice([10, 40, 150])
      self.sc["faults"].append(f)

  def jumps(self, n=1):
    ops = MUTATIONS | {"read", "versions", "diff"}
    self.add_faults(["jump"], n, only=ops)

  def final_ops(self, on):
    """What a lone new writer must be able to do at the end."""
    return [{"op": "append", "on": on, "rows": self.fresh_rows(1, 3)},
            {"op": "upsert", "on": on, "rows": self.fresh_rows(1, 2)},
            {"op": "tag", "on": on, "name": "zz-final"},
            {"op": "delete", "on": on,
             "filter": ["cmp", self.schema[on].pks[-1], ">=", 0]},
            {"op": "read", "on": on}]

  def finale(self, on):
    ops = self.final_ops(on)
    for i, o in enumerate(ops):
      o["i"] = i
    self.sc["finale"] = self.sc.get("finale", []) + ops
    for i, o in enumerate(self.sc["finale"]):
      o["i"] = i


def retry_some(g, ops, p=0.5):
  for o in ops:
    if o["op"] in MUTATIONS and g.p(p):
      o["retry"] = 1
  return ops


# ------------------------------------------------------------------ properties
def g_crash(g, n_faults=(1, 3), readers=True):
  g.store("s", among=ALL_SCHEMAS)
  two = g.p(0.25)
  if two:
    g.store("n", create=False)
  nc = g.r.choice([1, 1, 2])
  for c in range(nc):
    ops = [g.misc("s", {"mut": 7, "ref": 2, "read": 0.5})
           for _ in range(g.r.randint(3, 6))]
    if two and c == 0:
      ops.insert(g.r.randrange(3), {"op": "create", "on": "n",
                                    "schema": g.schema["n"].name})
      ops.append(g.mutation("n", {"append": 1}))
    g.client(f"c{c}", retry_some(g, ops, 0.3))
  g.add_faults(CRASHES, g.r.randint(*n_faults))
  if g.p(0.2):
    g.add_faults(["stall"], 1)
  g.sc["p_reader"] = 0.12 if readers else 0.02
  if g.p(0.4):
    g.finale("s")


def g_C01(g):
  g_crash(g)


def g_C02(g):
  if g.p(0.3):
    g.store("s", among=["flat", "recmid", "multi"])
    g.client("c0", retry_some(g, g.branch_story("s"), 0.2))
    if g.p(0.3):
      g.client("c1", [g.mutation("s") for _ in range(g.r.randint(1, 3))])
    g.add_faults(CRASHES, g.r.randint(1, 3))
  else:
    g_crash(g, (1, 4), readers=False)
  # Aim at the instants around the acknowledgement.
  for f in g.sc["faults"]:
    if g.p(0.35):
      f["on"] = {"kind": g.r.choice(["move", "op", "write", "create"]),
                 "site": g.r.choice(["entrypoint", "metadata"])}
      f["at"] = g.r.choice([0, 0, 1])
      f["kind"] = g.r.choice(["crash_after", "crash_before", "crash_torn"])


def g_C03(g):
  g.store("s")
  ray = g.p(0.15)
  for c in range(g.r.randint(1, 2)):
    ops = [g.misc("s", {"mut": 8, "ref": 1.5})
           for _ in range(g.r.randint(3, 7))]
    g.client(f"c{c}", ops)
  for c in range(g.r.randint(1, 2)):
    ops = []
    for _ in range(g.r.randint(3, 6)):
      x = g.r.random()
      if x < 0.62:
        o = g.read("s", plain=0.8, slow=0.7)
        if o["op"] == "read" and g.p(0.7):
          o["batch"] = g.r.choice([1, 2])
      elif x < 0.8:
        o = g.diff("s")
      elif x < 0.9:
        o = {"op": "versions", "on": "s"}
      else:
        o = g.misc("s", {"ra": 1})
      ops.append(o)
    g.client(f"r{c}", ops, ray=ray)
  g.sc["preempt_p"] = g.r.choice([0.1, 0.3, 0.5])
  g.sc["p_reader"] = 0.08
  if g.p(0.5):
    g.add_faults(["stall"], g.r.randint(1, 3), only=MUTATIONS | {"read"})
  if g.p(0.25):
    g.add_faults(CRASHES, 1)
  if g.p(0.15):
    g.jumps()


def g_C04(g):
  g.store("s", among=["flat", "recmid", "multi", "tworec"])
  nc = g.r.choice([2, 2, 3, 4])
  branchy = g.p(0.4)
  if branchy:
    g.set_prelude([g.mutation("s", {"append": 1}),
                   {"op": "branch", "on": "s", "name": "r0"}] +
                  ([{"op": "branch", "on": "s", "name": "r1"}]
                   if g.p(0.4) else []) +
                  ([{"op": "tag", "on": "s", "name": "r2"}]
                   if g.p(0.3) else []))
    g.nrefs = 3
  for c in range(nc):
    ops = []
    if branchy:
      if g.p(0.7):
        ops.append({"op": "checkout", "on": "s", "name": "r0"})
    elif g.p(0.25):
      ops.append({"op": "branch", "on": "s", "name": "r0"})
    if g.p(0.3):
      ops.append({"op": "checkout", "on": "s", "name": g.r.choice(
          ["r0", "r0", "r1"])})
    for _ in range(g.r.randint(2, 6)):
      o = g.misc("s", {"mut": 8, "ref": 2, "read": 0.3})
      ops.append(o)
    g.client(f"c{c}", retry_some(g, ops, 0.3), ray=g.p(0.08))
  g.sc["preempt_p"] = g.r.choice([0.05, 0.2, 0.5])
  if g.p(0.5):
    g.add_faults(["stall"], g.r.randint(1, 3))
  if g.p(0.3):
    g.add_faults(CRASHES + ERRORS, 1)
  if g.p(0.15):
    g.jumps()


def g_C05(g):
  g.store("s")
  for c in range(g.r.choice([1, 1, 2])):
    ops = g.branch_story("s") if g.p(0.5) else []
    for _ in range(g.r.randint(2, 5) if ops else g.r.randint(6, 12)):
      x = g.r.random()
      if x < 0.5:
        ops.append(g.mutation("s"))
      elif x < 0.7:
        ops.append(g.ref_op("s"))
      elif x < 0.76:
        ops.append({"op": "versions", "on": "s"})
      elif x < 0.82:
        ops.append(files(g, "s"))
      else:
        o = g.read("s", plain=0.7)
        o["ver"] = (["id", g.r.randrange(12)] if g.p(0.6) else
                    ["ref", g.ref_name()])
        ops.append(o)
    g.client(f"c{c}", ops, ray=g.p(0.08))
  if g.p(0.4):
    g.add_faults(CRASHES + ERRORS, g.r.randint(1, 2))
  if g.p(0.4):
    g.jumps(g.r.randint(1, 2))


def g_C06(g):
  g.store("s", among=["flat", "recmid", "multi"])
  g.nrefs = g.r.choice([1, 2, 3])
  for c in range(g.r.choice([1, 2, 2, 3])):
    ops = []
    if g.p(0.35):
      ops += g.branch_story("s", "r0")
    elif g.p(0.5):
      ops += [g.mutation("s"), {"op": "branch", "on": "s", "name": "r0"},
              {"op": "checkout", "on": "s", "name": "r0"}]
    for _ in range(g.r.randint(2, 5) if len(ops) > 4 else
                   g.r.randint(5, 10)):
      ops.append(g.misc("s", {"mut": 5, "ref": 5, "read": 2, "versions": 0.7,
                              "reopen": 0.4, "diff": 0.5}))
    g.client(f"c{c}", ops, ray=g.p(0.05))
  if g.p(0.3):
    g.add_faults(CRASHES + ERRORS + ["stall"], g.r.randint(1, 2))


def g_C07(g):
  g.store("s")
  ops = [g.misc("s", {"mut": 10, "read": 1.2, "reopen": 0.4})
         for _ in range(g.r.randint(6, 14))]
  g.client("c0", ops)
  if g.p(0.25):
    g.client("c1", [g.mutation("s") for _ in range(g.r.randint(1, 3))])
  if g.p(0.3):
    g.add_faults(CRASHES + ERRORS, 1)
  if g.p(0.1):
    g.jumps()


def g_C08(g):
  g.store("s", among=ALL_SCHEMAS + ["pair"])
  ops = [g.mutation("s", {"append": 3, "append_from": 2, "upsert": 1,
                          "delete": 0.7}) for _ in range(g.r.randint(2, 5))]
  for _ in range(g.r.randint(6, 14)):
    o = g.read("s", plain=0.12, slow=0.15)
    if "ver" in o and g.p(0.5):
      del o["ver"]
    ops.append(o)
    if g.p(0.15):
      ops.append(g.mutation("s"))
  g.client("c0", ops, ray=g.p(0.1))
  if g.p(0.3):
    g.client("c1", [g.mutation("s") for _ in range(g.r.randint(1, 3))])
  if g.p(0.15):
    g.add_faults(ERRORS, 1, only={"read", "read_all"}, sites=READ_SITES)


def g_C09(g):
  g.store("s")
  for c in range(g.r.choice([1, 1, 2])):
    if g.p(0.35):
      ops = g.branch_story("s")
    else:
      ops = [g.misc("s", {"mut": 6, "diff": 3, "ref": 1})
             for _ in range(g.r.randint(6, 10))]
    ops += [g.diff("s"), g.diff("s"), g.diff("s")]
    g.client(f"c{c}", ops, ray=g.p(0.12))
  if g.p(0.3):
    g.add_faults(CRASHES + ERRORS + ["stall"], g.r.randint(1, 2))


def g_C10(g):
  g.store("s")
  two = g.p(0.3)
  if two:
    g.store("n", create=False)
  for c in range(g.r.choice([1, 1, 1, 2])):
    ops = [g.misc("s", {"mut": 7, "ref": 2, "read": 1, "diff": 0.5})
           for _ in range(g.r.randint(3, 6))]
    if two and c == 0:
      ops.insert(g.r.randrange(3), {"op": "create", "on": "n",
                                    "schema": g.schema["n"].name})
      ops.append(g.mutation("n", {"append": 1}))
    g.client(f"c{c}", retry_some(g, ops, 0.7))
  g.add_faults(ERRORS, g.r.randint(1, 4),
               only=MUTATIONS | {"read"} if g.p(0.3) else None)
  g.sc["p_reader"] = 0.08
  if g.p(0.5):
    g.finale("s")


def g_C11(g):
  g.store("s", among=REC_SCHEMAS)
  g.sc["fopts"]["rec"] = g.r.choice([1, 15, 40, 100, 1000])
  ops = []
  for _ in range(g.r.randint(6, 12)):
    x = g.r.random()
    if x < 0.5:
      ops.append(g.mutation("s"))
    elif x < 0.75:
      ops.append(g.random_access("s"))
    else:
      o = g.read("s", plain=0.6)
      if g.p(0.3):
        o.pop("fields", None)
        o["op"] = "read"
        o["refread"] = 1
      ops.append(o)
  ops.append(g.random_access("s"))
  g.client("c0", ops, ray=g.p(0.1))
  if g.p(0.25):
    g.client("c1", [g.mutation("s") for _ in range(g.r.randint(1, 3))])
  if g.p(0.3):
    g.add_faults(CRASHES + ERRORS, g.r.randint(1, 2))


def g_C12(g):
  ext = g.p(0.2)
  if ext:
    g.store("s", "flat")
    external(g, "flat")
  else:
    g.store("s")
  ops = [g.misc("s", {"mut": 10, "ref": 1}) for _ in range(g.r.randint(5, 11))]
  if ext:
    ops.insert(g.r.randrange(3), {"op": "append_parquet", "on": "s",
                                  "dir": "e0"})
  for _ in range(g.r.randint(0, 3)):
    ops.insert(g.r.randint(1, len(ops)), files(g, "s"))
  g.client("c0", ops, ray=not ext and g.p(0.15))
  if g.p(0.25):
    g.client("c1", [g.mutation("s") for _ in range(g.r.randint(1, 3))])
  if g.p(0.25):
    g.add_faults(CRASHES + ERRORS, g.r.randint(1, 2))


def files(g, on):
  """List the files of a version."""
  op = {"op": "files", "on": on}
  v = g.version()
  if v:
    op["ver"] = v
  return op


def ropts(g):
  g.sc["ropts"] = {"par": g.r.choice([1, 2, 3, 4]), "rng": bool(g.p(0.6))}


def g_C13(g):
  g.store("s")
  ropts(g)
  ops = []
  if g.p(0.12):
    ops = g.branch_story("s")
  elif g.p(0.2):
    # Few big files, partly deleted, then read as a change feed in pieces.
    for k in ("rg", "file"):
      g.sc["fopts"].pop(k, None)
    ops = [{"op": "append", "on": "s", "rows": g.rows(4, 7)},
           g.mutation("s", {"delete": 1, "upsert": 2})]
    ops += [g.diff("s") for _ in range(3)] + [g.read("s")]
  else:
    for _ in range(g.r.randint(4, 9)):
      ops.append(g.misc("s", {"mut": 8, "read": 3, "diff": 2, "ref": 0.6}))
  g.client("c0", ops, ray=True)
  if g.p(0.3):
    g.client("c1", [g.misc("s", {"mut": 5, "read": 1})
                    for _ in range(g.r.randint(1, 3))], ray=g.p(0.5))
  g.sc["preempt_p"] = g.r.choice([0.05, 0.2, 0.5])
  if g.p(0.3):
    g.add_faults(["stall"], g.r.randint(1, 3), ray=True)


def g_C14(g):
  g.store("s")
  ropts(g)
  ops = [g.misc("s", {"mut": 8, "read": 1}) for _ in range(g.r.randint(3, 6))]
  g.client("c0", retry_some(g, ops, 0.6), ray=True)
  g.add_faults(CRASHES + ERRORS, g.r.randint(1, 3), ray=True)
  slow_workers(g)
  for _ in range(g.r.choice([0, 0, 1, 2])):
    # A worker is slow in the middle of its work.
    o = g.r.choice([o for o in ops if o["op"] in MUTATIONS] or ops)
    g.sc["faults"].append({
        "proc": f"c0/{o['i']}.{g.r.randint(1, 4)}", "op": o["i"], "n": 10,
        "kind": "stall", "at": g.r.randrange(6),
        "dt": g.r.choice([100.0, 3600.0, 1e5])})
  if g.p(0.25):
    o = g.r.choice(ops)
    # Every attempt of some work fails.
    g.sc["faults"].append({
        "proc": f"c0/{o['i']}.*", "op": o["i"], "at": g.r.choice([0, 0, 1, 3]),
        "kind": g.r.choice(["crash_before", "crash_before", "err_before"]),
        "from": g.r.randrange(3)})
  g.sc["preempt_p"] = g.r.choice([0.05, 0.2, 0.5])
  if g.p(0.4):
    g.finale("s")


def slow_workers(g, p=0.35):
  """Workers that take much longer than the others."""
  if g.p(p):
    g.add_faults(["stall"], g.r.randint(1, 2), ray=True)
    for f in g.sc["faults"]:
      if f["kind"] == "stall" and g.p(0.5):
        f["dt"] = g.r.choice([100.0, 3600.0, 1e5])


def view_mutation(g, on):
  """Mutations that keep primary keys unique (sources of views)."""
  return g.mutation(on, {"insert": 2, "upsert": 5, "delete": 3})


def first_rows(g, on, lo=2, hi=6):
  return {"op": "upsert", "on": on, "rows": g.rows(lo, hi)}


def pk_filter(g):
  f = ["cmp", "k", g.r.choice(["<", "<=", ">", ">=", "==", "!="]),
       g.r.randrange(g.keys)]
  if g.p(0.3):
    f = [g.r.choice(["and", "or"]), f,
         ["cmp", "k", g.r.choice(["<", ">="]), g.r.randrange(g.keys)]]
  return f


def mv_read(g, on):
  o = {"op": "mv_read", "on": on}
  x = g.r.random()
  if x < 0.5:
    o["local"] = 1
  elif x < 0.6:
    o["ds"] = 1
  if g.p(0.3):
    o["filter"] = pk_filter(g)
  if g.p(0.25):
    o["fields"] = [g.r.randrange(4) for _ in range(g.r.randint(1, 3))]
  elif g.p(0.2):
    o["refread"] = 1
  if g.p(0.25):
    o["ver"] = ["id", g.r.randrange(8)]
  if g.p(0.3):
    o["batch"] = g.r.choice([1, 2, 5])
  return o


def mv_view(g, on):
  o = {"op": "mv_view", "on": on}
  if g.p(0.3):
    o["filter"] = pk_filter(g)
  if g.p(0.3):
    o["batch"] = g.r.choice([1, 2, 5])
  return o


def onto_branch(g, ops, on):
  """Do part of the work on a branch."""
  if g.p(0.25):
    i = g.r.randint(1, len(ops))
    if g.p(0.4):
      ops.insert(g.r.randint(i, len(ops)),
                 {"op": "checkout", "on": on, "name": "main"})
    ops[i:i] = [{"op": "branch", "on": on, "name": "rb"},
                {"op": "checkout", "on": on, "name": "rb"},
                view_mutation(g, on)]


def branch_client(g, cid, on, most=3):
  """A client that works on a branch of a source."""
  g.client(cid, [{"op": "branch", "on": on, "name": "rb"},
                 {"op": "checkout", "on": on, "name": "rb"}] +
           [view_mutation(g, on) for _ in range(g.r.randint(1, most))])


def g_C15(g):
  r = rng_of(g.seed, "generic")
  generic = r.random() < 0.15
  g.store("s", f"rnd:{r.randrange(10**6)}" if generic else "view")
  ropts(g)
  t = g.r.choice(M.MATERIALIZABLE)
  if generic:
    t = "any"
  g.sc["views"] = [{"source": "s", "transform": t, "mv": "m"}]
  mode = g.r.random()
  ops = [first_rows(g, "s")]
  for _ in range(g.r.randint(4, 9)):
    x = g.r.random()
    if x < 0.5:
      ops.append(view_mutation(g, "s"))
    elif x < 0.9:
      o = {"op": "refresh", "on": "m"}
      if g.p(0.3):
        o["target"] = g.r.randrange(8)
        if g.p(0.3):
          o["byname"] = 1
          ops.append({"op": "tag", "on": "s", "name": g.ref_name(),
                      "snap": g.r.randrange(8)})
      if g.p(0.3):
        o["batch"] = g.r.choice([1, 2, 5])
      ops.append(o)
    elif x < 0.96:
      ops.append(mv_read(g, "m"))
    else:
      ops.append(mv_view(g, "m"))
  ops += [{"op": "refresh", "on": "m"}, {"op": "mv_read", "on": "m",
                                         "local": 1}]
  g.client("c0", retry_some(g, ops, 0.3), ray=True)
  if mode < 0.4:
    # Writers of the source run at the same time.
    g.client("c1", [view_mutation(g, "s") for _ in range(g.r.randint(2, 5))])
  if mode < 0.25:
    g.client("c2", [{"op": "refresh", "on": "m"}
                    for _ in range(g.r.randint(1, 3))], ray=True)
  if g.p(0.5):
    g.add_faults(CRASHES + ERRORS, g.r.randint(1, 2),
                 only={"refresh"} if g.p(0.7) else None, ray=g.p(0.4))
  if g.p(0.3):
    g.add_faults(["stall"], 1)
  if g.p(0.25):
    branch_client(g, "cb", "s")
  g.sc["finale"] = [{"op": "refresh", "on": "m", "i": 0, "opt": 1},
                    {"op": "mv_read", "on": "m", "i": 1, "local": 1,
                     "final": 1}]
  if generic:
    for c in g.sc["clients"]:
      for o in c["ops"]:
        if o["op"] in ("mv_read", "mv_view"):
          o.pop("filter", None)


def g_C16(g):
  g.store("s", "view")
  ropts(g)
  ops = [first_rows(g, "s")]
  for _ in range(g.r.randint(4, 8)):
    x = g.r.random()
    t = g.r.choice(list(M.TRANSFORMS))
    if x < 0.4:
      ops.append(view_mutation(g, "s"))
    elif x < 0.75:
      o = {"op": "view_read", "on": "s", "transform": t}
      if g.p(0.25):
        o["filter"] = pk_filter(g)
      if g.p(0.25):
        o["ver"] = ["id", g.r.randrange(12)]
      elif g.p(0.15):
        o["ver"] = ["ref", g.ref_name()]
        ops.append({"op": "tag", "on": "s", "name": g.ref_name(),
                    "snap": g.r.randrange(12)})
      ops.append(o)
    else:
      ops.append({"op": "view_diff", "on": "s", "transform": t,
                  "a": g.r.randrange(8), "b": g.r.randrange(8),
                  "rayds": int(g.p(0.3))})
    if ops[-1]["op"] != "upsert" and g.p(0.3) and "transform" in ops[-1]:
      ops[-1]["batch"] = g.r.choice([1, 2, 5])
  onto_branch(g, ops, "s")
  g.client("c0", ops, ray=True)
  if g.p(0.3):
    g.client("c1", [view_mutation(g, "s") for _ in range(g.r.randint(1, 4))])
  elif g.p(0.3):
    branch_client(g, "c1", "s")
  if g.p(0.4):
    g.add_faults(["stall"] + ERRORS + CRASHES[:2], g.r.choice([1, 1, 2]),
                 only={"view_read", "view_diff"},
                 ray=True)


JOINS = [
    # left, right, key, left fields, right fields
    ("view", "view2", "k", [["k", "v"], ["k", "r"], ["u", "k"]],
     [["k", "w"], ["u2", "k"]]),
    ("tworec", "sright", "k", [["r2", "k"], ["u", "r1"], ["k", "u"]],
     [["w"], ["u2", "k"], ["rr", "k"]]),
    ("multi", "bright", "b", [["b", "a"], ["u", "b"], ["x", "a"]],
     [["b", "w"], ["u2"]]),
    ("view2", "view", "k", [["k", "w"]], [["k", "v"], ["r", "k"], ["u"]]),
]


def g_C17(g):
  left, right, key, lfs, rfs = g.r.choice([JOINS[0]] * 3 + JOINS)
  g.store("s", left)
  g.store("t", right)
  ropts(g)
  ops = [first_rows(g, "s"), first_rows(g, "t")]
  if key == "k" and left in ("view", "view2") and g.p(0.15):
    # Files without statistics or without rows.
    external(g, "view2")
    ops.insert(g.r.randrange(3), {
        "op": "append_parquet", "on": "t" if right == "view2" else "s",
        "dir": "e0"})
  for _ in range(g.r.randint(3, 6)):
    x = g.r.random()
    if x < 0.45:
      ops.append(view_mutation(g, g.r.choice(["s", "t"])))
    else:
      o = {"op": "join", "on": "s", "right": "t", "key": key}
      if g.p(0.4):
        o["lf"] = g.r.choice(lfs)
      if g.p(0.4):
        o["rf"] = g.r.choice(rfs)
      if g.p(0.4):
        o["parts"] = g.r.choice([1, 2, 3, 5])
      lrecs, rrecs = g.schema["s"].recs, g.schema["t"].recs
      if g.p(0.25) and lrecs and (not o.get("lf") or set(lrecs) & set(
          o["lf"])):
        o["lref"] = 1
        if g.p(0.5) and rrecs and (not o.get("rf") or set(rrecs) & set(
            o["rf"])):
          o["rref"] = 1
      elif g.p(0.25) and rrecs and (not o.get("rf") or set(rrecs) & set(
          o["rf"])):
        o["rref"] = 1
      elif left == "view" and g.p(0.35):
        o["lt"] = g.r.choice(["even", "small", "label", "evenlabel", "swap",
                              "narrow", "recs"])
        o.pop("lf", None)
        if o["lt"] in ("swap", "narrow"):
          o["rf"] = ["u2", "k"]
      elif right == "view" and g.p(0.35):
        o["rt"] = g.r.choice(["even", "small", "label", "recs"])
        o.pop("rf", None)
      if (o.get("lref") or o.get("rref")) and g.p(0.5):
        o["ra"] = g.r.choice([1, 2])
      if g.p(0.25):
        # Constants of primary keys are written as keys.
        o["filter"] = ["cmp", key, g.r.choice(["<", ">=", "!="]),
                       g.r.randrange(g.keys)]
      ops.append(o)
  onto_branch(g, ops, g.r.choice(["s", "t"]))
  g.client("c0", ops, ray=True)
  if g.p(0.3):
    g.client("c1", [view_mutation(g, g.r.choice(["s", "t"]))
                    for _ in range(g.r.randint(1, 3))])
  elif g.p(0.4):
    # Work on a branch of one side does not show in the join.
    on = g.r.choice(["s", "t"])
    branch_client(g, "c1", on)
  if g.p(0.35):
    g.add_faults(["stall"] + ERRORS + CRASHES[:2], g.r.choice([1, 1, 2]),
                 only={"join"}, ray=True)


def g_C18(g):
  g.store("s", g.r.choice(["arl", "artf"]) if g.p(0.1) else None)
  if g.p(0.25):
    g.store("v", "view")
    g.sc["views"] = [{"source": "v", "transform": "evenlabel", "mv": "m"}]
  ops = [g.misc("s", {"mut": 8, "ref": 2}) for _ in range(g.r.randint(3, 8))]
  if "views" in g.sc:
    ops += [first_rows(g, "v"), {"op": "refresh", "on": "m"}]
  elif g.p(0.25):
    # Loaded files stay where they are.
    if g.schema["s"].name in ("arl", "artf"):
      external(g, g.schema["s"].name, "ar")
      g.sc["has_ar_load"] = 1
      ops.insert(g.r.randrange(len(ops)), {"op": "append_ar", "on": "s",
                                           "dir": "e0"})
    elif g.schema["s"].name in ("flat", "multi", "bigpk", "nested"):
      external(g, g.schema["s"].name)
      ops.insert(g.r.randrange(len(ops)), {"op": "append_parquet", "on": "s",
                                           "dir": "e0"})
  g.client("c0", ops, ray=g.p(0.15))
  if g.p(0.4):
    g.add_faults(CRASHES + ERRORS, g.r.randint(1, 2))
  g.sc["relocate"] = g.r.randint(1, 3)


def g_C19(g):
  n = g.r.randint(1, 2)
  names = []
  for i in range(n):
    names.append(g.store(f"n{i}", create=False))
  mv = g.p(0.3)
  if mv:
    g.store("v", "view")
    g.store("m", "view", create=False)
  nc = g.r.choice([1, 2, 2, 3])
  for c in range(nc):
    ops = []
    for s in g.r.sample(names, len(names)):
      ops.append({"op": "create", "on": s, "schema": g.schema[s].name,
                  "cat": int(g.p(0.5))})
      if g.p(0.4):
        ops.append({"op": "cat_list"})
      if g.p(0.6):
        ops.append({"op": "cat_open", "on": s})
      if g.p(0.6):
        ops.append(g.mutation(s, {"append": 1, "upsert": 1}))
      if g.p(0.4):
        ops.append(g.read(s))
    if mv and c < 2:
      ops.insert(g.r.randrange(len(ops) + 1),
                 {"op": "materialize", "on": "m", "source": "v", "schema":
                  "view", "transform": g.r.choice(M.MATERIALIZABLE),
                  "cat": int(g.p(0.5))})
      if g.p(0.7):
        ops.append({"op": "cat_open", "on": "m"})
      if g.p(0.5):
        ops.append({"op": "mv_read", "on": "m", "local": 1})
      if g.p(0.4):
        ops.append(mv_view(g, "m"))
    ops.append({"op": "cat_list"})
    if g.p(0.3):
      o = dict(g.r.choice(ops))
      if o["op"] == "create":
        ops.append(o)
    g.client(f"c{c}", retry_some(g, ops, 0.7))
  only = {"create", "materialize"}
  if g.p(0.75):
    sites = [("mkdir", "other"), ("create", "metadata"), ("write", "metadata"),
             ("close", "metadata"), ("create", "entrypoint"),
             ("write", "entrypoint"), ("close", "entrypoint"),
             ("move", "entrypoint"), ("create", "udf"), ("write", "udf"),
             ("stat", "metadata"), ("op", "other")]
    g.add_faults(CRASHES + ERRORS, g.r.randint(1, 3), only=only,
                 sites=sites if g.p(0.6) else None)
  if g.p(0.3):
    g.add_faults(["stall"], 1, only=only)
  g.r = rng_of(g.seed, "open")
  if g.p(0.3):
    # What the catalog says when a file can't be read.
    g.add_faults(["err_before"], g.r.randint(1, 2),
                 only={"cat_open", "cat_list"},
                 sites=[("read", "entrypoint"), ("read", "metadata"),
                        ("stat", "entrypoint"), ("list", "other")])
  g.sc["p_reader"] = 0.15
  g.sc["finale"] = [{"op": "create", "on": names[0], "i": 0, "opt": 1,
                     "schema": g.schema[names[0]].name},
                    {"op": "append", "on": names[0], "i": 1,
                     "rows": g.fresh_rows(1, 3)},
                    {"op": "read", "on": names[0], "i": 2}]


def external(g, schema, kind="pq", d="e0", same_keys=True):
  files = []
  for _ in range(g.r.randint(1, 3)):
    rows = g.rows(0 if g.p(0.15) else 1, 6, distinct=not g.p(0.2))
    files.append(rows)
  e = {"dir": d, "kind": kind, "schema": schema, "files": files}
  if kind == "pq":
    e["rg"] = g.r.choice([1, 2, 3, 10])
    if g.p(0.3):
      e["stats"] = False
  r = rng_of(g.seed, "ext", d)
  if r.random() < 0.2:
    # Files of the same name in several directories.
    e["nested"] = 1
    if len(files) < 3:
      files.append(g.rows(1, 4, distinct=False))
  if kind == "ar" and r.random() < 0.3:
    e["ar"] = r.choice(AR_OPTIONS)
  if kind == "pq" and r.random() < 0.2:
    # Files of other systems have the columns in another order.
    n = len(schema_of(schema).names)
    e["order"] = r.sample(range(n), n)
  if schema == "arl" and d == "e0" and r.random() < 0.15:
    files.insert(r.randrange(len(files) + 1), [list(M.EMPTY)])
  if r.random() < 0.06:
    # No rows at all, or no files.
    files[:] = [[] for _ in files[1:]]
  g.sc.setdefault("external", []).append(e)
  return e


def g_C20(g):
  kind = g.r.choice(["pq", "ar"])
  if kind == "pq":
    name = g.r.choice(["flat", "multi", "bigpk", "nested"])
    r = rng_of(g.seed, "load")
    if r.random() < 0.3:
      name = "rnd:0"
      while schema_of(name).recs:
        name = f"rnd:{r.randrange(10**6)}"
    g.store("s", name)
    external(g, g.schema["s"].name)
    load = "append_parquet"
  else:
    g.store("s", g.r.choice(["arl", "artf"]))
    external(g, g.schema["s"].name, "ar")
    g.sc["has_ar_load"] = 1
    load = "append_ar"
  ops = [g.mutation("s") for _ in range(g.r.randint(0, 2))]
  ops.append({"op": load, "on": "s", "dir": "e0"})
  if g.p(0.2):
    e = external(g, g.schema["s"].name, kind, "e1")
    del e
    ops.append({"op": load, "on": "s", "dir": "e1"})
  for _ in range(g.r.randint(2, 7)):
    ops.append(g.misc("s", {"mut": 5, "read": 4, "diff": 1, "ra": 0.7}))
  g.client("c0", retry_some(g, ops, 0.4))
  if g.p(0.25):
    g.client("c1", [g.mutation("s") for _ in range(g.r.randint(1, 3))])
  if g.p(0.4):
    g.add_faults(CRASHES + ERRORS, g.r.randint(1, 2),
                 only={load} if g.p(0.6) else None)
  elif g.p(0.3):
    # A file of the load can't be read.
    site = "record" if kind == "ar" else "other"
    g.add_faults(ERRORS + ["crash_before"], 1, only={load},
                 sites=[("read", site), ("read", site), ("stat", site)])
  if g.p(0.2):
    for op in ops:
      if op["op"] == load:
        op["relative"] = 1


def g_C21(g):
  kind = g.r.random()
  if kind < 0.2:
    g_C14(g)
    if "finale" not in g.sc:
      g.finale("s")
    return
  g.store("s")
  for c in range(g.r.choice([1, 2, 3])):
    ops = [g.misc("s", {"mut": 7, "ref": 2}) for _ in range(g.r.randint(2, 5))]
    g.client(f"c{c}", retry_some(g, ops, 0.5))
  g.add_faults(CRASHES * 2 + ERRORS + ["stall", "jump"], g.r.randint(2, 5))
  g.finale("s")


def g_C22(g):
  two = g.p(0.4)
  for n in ("s", "n")[:1 + two]:
    kind = "tf" if g.p(0.85) else "rec"
    g.store(n, f"{kind}:{g.r.randrange(10**6)}", create=g.p(0.6))
  nc = g.r.choice([1, 1, 2])
  for c in range(nc):
    ops = []
    for n in list(g.schema):
      if not next(x for x in g.sc["stores"] if x["name"] == n)["create"]:
        ops.append({"op": "create", "on": n, "schema": g.schema[n].name,
                    "cat": int(g.p(0.3))})
      ops.append(g.mutation(n, {"append": 1}))
    for _ in range(g.r.randint(4, 8)):
      n = g.r.choice(list(g.schema))
      x = g.r.random()
      if x < 0.4:
        ops.append(g.mutation(n, {"append": 3, "upsert": 2, "insert": 1,
                                  "delete": 1}))
      elif x < 0.65:
        ops.append(g.random_access(n))
        fs = [f for f in g.schema[n].serialized()]
        if fs and g.p(0.8):
          g.r.shuffle(fs)
          ops[-1].update(fields=fs[:g.r.randint(1, len(fs))], deser=1)
      elif x < 0.92:
        ops.append(g.read(n, plain=0.7, slow=0.1))
        ops[-1].pop("refread", None)
      elif x < 0.96:
        ops.append({"op": "reopen", "on": n})
      else:
        ops.append(g.ref_op(n))
    for o in ops:
      if o["op"] in ("append", "upsert", "insert") and g.p(0.85):
        o["ser"] = 1
        o.pop("form", None)
      if o["op"] in ("read", "read_all") and g.p(0.85):
        o["deser"] = 1
    g.client(f"c{c}", retry_some(g, ops, 0.4), ray=g.p(0.15))
  if g.p(0.4):
    g.add_faults(CRASHES + ERRORS, g.r.randint(1, 2))
  if g.p(0.2):
    g.sc["relocate"] = 1


def g_C23(g):
  names = []
  for i in range(g.r.choice([1, 1, 2])):
    kind = g.r.choice(["rnd", "rnd", "rnd", "rec", "tf"])
    s = f"{kind}:{g.r.randrange(10**6)}" if g.p(0.85) else None
    names.append(g.store(f"s{i}", s, create=False))
  other = f"rnd:{g.r.randrange(10**6)}" if g.p(0.3) else None
  mv = g.p(0.35)
  if mv:
    src = g.r.choice(names)
    g.store("m", g.schema[src].name, create=False)
  for c in range(g.r.choice([1, 2, 2, 3])):
    ops = []
    for n in g.r.sample(names, len(names)):
      o = {"op": "create", "on": n, "schema": g.schema[n].name,
           "cat": int(g.p(0.4))}
      if other and c and n == "s0":
        # Another user wants another dataset of that name.
        o["schema"] = other
      ops.append(o)
    for _ in range(g.r.randint(2, 6)):
      n = g.r.choice(names)
      x = g.r.random()
      if x < 0.35:
        ops.append({"op": "schema", "on": n, "cat": int(g.p(0.4))})
      elif x < 0.65 and not (other and n == "s0"):
        if mv and n == src:
          ops.append(view_mutation(g, n))
        else:
          ops.append(g.mutation(n, {"append": 3, "upsert": 2, "delete": 1}))
      elif x < 0.75 and not (other and n == "s0"):
        ops.append(g.read(n))
      elif x < 0.85:
        ops.append(g.ref_op(n))
      else:
        ops.append({"op": "reopen", "on": n})
    if mv and c < 2 and not (other and src == "s0"):
      at = g.r.randint(len(names), len(ops))
      ops.insert(at, {"op": "materialize", "on": "m", "source": src,
                      "schema": g.schema[src].name, "transform": "any",
                      "cat": int(g.p(0.5))})
      more = [{"op": "schema", "on": "m", "cat": int(g.p(0.5)), "mv": 1}]
      if g.p(0.6):
        more.insert(g.r.randrange(2), {"op": "refresh", "on": "m"})
        more.append({"op": "mv_read", "on": "m", "local": 1})
      ops += more
    g.client(f"c{c}", retry_some(g, ops, 0.5))
  if g.p(0.5):
    g.add_faults(CRASHES + ERRORS, g.r.randint(1, 2),
                 only={"create", "materialize"} if g.p(0.5) else None)
  if g.p(0.3):
    g.sc["relocate"] = 1


GENERATORS = {k[2:]: v for k, v in list(globals().items())
              if k.startswith("g_C")}


# How often clients work with a storage in the middle of their operations.
BETWEEN = {"C02": 0.1, "C03": 0.35, "C04": 0.2, "C05": 0.1, "C07": 0.15,
           "C09": 0.2, "C10": 0.1, "C11": 0.1, "C13": 0.1}


# How often a run has a long history or big operations.
SCALED = {"C04": 0.03, "C05": 0.06, "C06": 0.05, "C07": 0.06, "C08": 0.08,
          "C09": 0.08, "C11": 0.06, "C12": 0.06, "C13": 0.06, "C15": 0.05,
          "C16": 0.06, "C17": 0.06, "C18": 0.05, "C20": 0.05}


def scale(g, pid):
  """Make one dimension of the run much larger."""
  r = g.r
  st = r.choice([x for x in g.sc["stores"] if x["create"]])
  on = st["name"]
  unique = pid in ("C15", "C16", "C17") or any(
      v["source"] == on for v in g.sc.get("views", []))
  c = g.sc["clients"][0]
  if pid in ("C04", "C05", "C06", "C09", "C12", "C15", "C18") and (
      r.random() < 0.7):
    # Many versions.
    more = []
    for _ in range(r.randint(11, 28)):
      x = r.random()
      if x < 0.7:
        more.append({"op": "upsert" if unique else "append", "on": on,
                     "rows": g.rows(1, 2)})
      elif x < 0.85 or unique:
        more.append({"op": "delete", "on": on, "filter": [
            "cmp", g.schema[on].pks[-1], "==", r.randrange(g.keys)]})
      else:
        more.append(g.ref_op(on, {"tag": 2, "branch": 1}))
        more[-1]["name"] = f"x{r.randrange(40)}"
    at = r.randint(0, len(c["ops"]))
    if unique:
      at = min([i for i, o in enumerate(c["ops"]) if i and o["op"] != "upsert"]
               or [len(c["ops"])])
    for o in c["ops"]:
      for k in ("a", "b"):
        if k in o and o[k] >= 0 and r.random() < 0.6:
          o[k] = r.randrange(40)
      for k in ("ver",):
        if o.get(k) and o[k][0] == "id" and r.random() < 0.6:
          o[k] = ["id", r.randrange(40)]
      if o["op"] == "diff" and o.get("rel") and r.random() < 0.6:
        o["a"], o["b"] = r.randrange(30), -1
  else:
    # Many rows, in few or many files and row groups.
    at = r.randint(0, min(2, len(c["ops"])))
    keys = r.choice([60, 150, 300])
    g.sc["fopts"] = {k: r.choice(v) for k, v in (
        ("rg", [1, 60, 600, 4000]), ("file", [80, 800, 5000]),
        ("rec", [1, 60, 1000, 10000])) if r.random() < 0.6}
    rows = [[k, g.new_uid()] for k in r.sample(range(keys), r.randint(
        20, min(keys, 130)))]
    if r.random() < 0.5:
      rows.sort()
    if unique:
      at = min(1, len(c["ops"]))
    k = "upsert" if unique else r.choice(["append", "append", "insert"])
    more = [{"op": k, "on": on, "rows": rows}]
    x = r.random()
    if not unique and x < 0.3:
      more = [{"op": "append_from", "on": on, "sources": [
          [rows[i::7][j::3] for j in range(3)] for i in range(7)]}]
    elif not unique and x < 0.55:
      # Many row groups in a file.
      n = r.choice([9, 12, 20])
      g.sc["fopts"] = {"rg": 1}
      rows = rows[:n * r.choice([1, 2])]
      more = [{"op": "append_from", "on": on, "sources": [
          [rows[j::n] for j in range(n)]]}]
    if r.random() < 0.6:
      more.append({"op": "delete", "on": on, "filter": [
          "cmp", g.schema[on].pks[-1], r.choice(["<", ">=", "=="]),
          r.randrange(keys)]})
  base = 1 + max([o["i"] for cl in g.sc["clients"] for o in cl["ops"]] + [0])
  for i, o in enumerate(more):
    o["i"] = base + i
  c["ops"][at:at] = more
  g.sc["scaled"] = 1


# How often a run has one operation of thousands of rows: past the batch sizes
# and containers (1024, 65536, ...) of the libraries underneath.
BULK = {"C07": 0.02, "C08": 0.02, "C09": 0.02, "C12": 0.01, "C13": 0.02,
        "C15": 0.01, "C16": 0.02, "C17": 0.015, "C20": 0.01, "C11": 0.01}
BULK_SCHEMAS = ("flat", "multi", "nested", "pair", "view", "view2", "recmid",
                "tworec")


def bulk(g, pid):
  """Thousands of rows by one operation."""
  r = g.r
  stores = [s for s in g.sc["stores"] if s["create"] and
            s["schema"] in BULK_SCHEMAS]
  if not stores:
    return
  on = stores[0]["name"]
  records = bool(g.schema[on].recs)
  view = pid in ("C15", "C16", "C17", "C11") or g.sc.get("views")
  c = g.sc["clients"][0]
  n = r.choice([1025, 1100, 2049, 3000])
  if stores[0]["schema"] in ("flat", "multi", "pair") and not view and (
      r.random() < 0.3):
    # One file of more rows than a container of a bitmap holds.
    n = r.choice([65537, 66000, 70000])
    g.sc["clients"] = [c]
    del c["ops"][r.randint(1, 3):]
  elif records:
    n = 1100
  first = 2000
  op = {"op": "append", "on": on, "bulk": [first, n, g.uid + 1]}
  g.uid += n
  more = [op]
  if not view:
    # Rows near the ends, rewritten or deleted.
    keys = {first + x for x in (0, n - 1, n - 2, r.randrange(n), n // 2)}
    more.append({"op": "upsert", "on": on,
                 "rows": [[k, g.new_uid()] for k in sorted(keys)]})
    if r.random() < 0.5:
      more.append({"op": "delete", "on": on, "filter": [
          "cmp", g.schema[on].pks[-1], r.choice([">=", "=="]),
          first + n - r.randint(1, 4)]})
    if r.random() < 0.7:
      more.append({"op": "diff", "on": on, "a": 0, "b": -1})
  for cl in g.sc["clients"]:
    for o in cl["ops"]:
      if o.get("batch"):
        o["batch"] = max(o["batch"], n // 12)
  g.sc["fopts"] = r.choice([{}, {"file": 10**9}, {"file": 10**9, "rg": 10**9}])
  g.sc.pop("nofo", None)
  base = 1 + max([o["i"] for cl in g.sc["clients"] for o in cl["ops"]] + [0])
  for i, o in enumerate(more):
    o["i"] = base + i
  at = r.randint(0, min(2, len(c["ops"])))
  c["ops"][at:at] = more
  g.sc["scaled"] = 2


# How often the caller's own functions fail.
USER = {"C10": 0.2, "C14": 0.2, "C15": 0.15, "C16": 0.15, "C20": 0.25}
NO_FAULTS = {"C01", "C03"}


def user_faults(g):
  """Row iterators, index functions or transforms that raise."""
  todo = [(c, o) for c in g.sc["clients"] for o in c["ops"] if o["op"] in (
      "append_from", "append_ar", "refresh", "view_read", "view_diff", "join")]
  if not todo:
    return
  c, o = g.r.choice(todo)
  f = {"proc": c["id"], "op": o["i"], "on": {"kind": "user"},
       "at": g.r.choice([0, 0, 1, 1, 2, 3, 5]),
       "kind": g.r.choice(["err_before"] * 3 + ["crash_before"])}
  if c["ray"]:
    w = g.r.choice(["*", "1", "2", "3"])
    f["proc"] = f"{c['id']}/{o['i']}.{w}"
    if w == "*":
      f["from"] = 0
  g.sc["faults"].append(f)


# How records are grouped and compressed.
AR_OPTIONS = ["group_size:2", "group_size:3", "group_size:64,zstd:1",
              "group_size:1,uncompressed", "group_size:5,brotli:1"]

# Directories in which the storages are.
PLACES = ["env=prod", "k=1", "u=7/k=2", "_FILE=x", "a b", "a%20b", "d\u00e9p\u00f4t", "x:y",
          ".hidden", "_part", "a#b", "s=null/r", "main", "data", "metadata",
          "a\\b", "'q'"]

BAD = {"C10": 0.25, "C14": 0.15, "C07": 0.1}


def bad_input(g):
  """Input rows that do not fit the schema."""
  todo = [(o, g.schema[o["on"]]) for c in g.sc["clients"] for o in c["ops"]
          if o["op"] in ("append", "append_from", "insert", "upsert") and
          o["on"] in g.schema]
  for o, s in g.r.sample(todo, min(len(todo), g.r.choice([1, 1, 2]))):
    bad = {"how": g.r.choice(["missing", "type"]),
           "field": g.r.choice(s.names)}
    if len(s.names) == 1:
      bad["how"] = "type"  # A table without columns has no rows.
    if o["op"] == "append_from":
      at = [[i, j] for i, src in enumerate(o["sources"])
            for j, b in enumerate(src) if b]
      if not at:
        continue
      bad["at"] = g.r.choice(at)
    elif not o.get("rows"):
      continue
    o["bad"] = bad
    o.pop("between", None)
    if g.p(0.7):
      o["retry"] = 1


NO_SUCH = {"C06": 0.3, "C05": 0.15, "C08": 0.05, "C21": 0.1}


def no_such(g):
  """Versions that do not exist."""
  todo = [o for c in g.sc["clients"] for o in c["ops"]
          if o["op"] in ("tag", "read", "read_all", "files")]
  for o in g.r.sample(todo, min(len(todo), 2)):
    if o["op"] == "tag":
      o.update(snap=g.r.randrange(3), nosuch=1)
    else:
      o["ver"] = ["none", g.r.randrange(3)]


def generate(pid, seed):
  g = G(seed)
  GENERATORS[pid](g)
  g.sc["pid"] = pid
  # Clocks of different machines.  (Decided last, by its own stream.)
  r = rng_of(seed, "scale")
  if r.random() < SCALED.get(pid, 0):
    g.r = r
    scale(g, pid)
  r = rng_of(seed, "bulk")
  if r.random() < BULK.get(pid, 0) and not g.sc.get("scaled"):
    g.r = r
    bulk(g, pid)
  r = rng_of(seed, "skew")
  if r.random() < 0.3:
    for c in g.sc["clients"]:
      if r.random() < 0.6:
        c["skew"] = r.choice([-86400.0, -7200.0, -30.0, -0.5, 0.5, 45.0, 5e5])
  if pid in ("C13", "C15", "C16", "C17"):
    g.r = rng_of(seed, "slow")
    slow_workers(g, 0.1)
  r = rng_of(seed, "user")
  if pid not in NO_FAULTS and r.random() < USER.get(pid, 0.06):
    g.r = r
    user_faults(g)
  r = rng_of(seed, "lasting")
  for f in g.sc["faults"]:
    if f["kind"].startswith("err"):
      if r.random() < 0.15:
        f["lasts"] = r.choice([2, 3, 3, 10, 60])
      if r.random() < 0.12:
        f["then"] = {"at": r.choice([1, 1, 2, 2, 3, 4, 6]),
                     "kind": r.choice(CRASHES)}
  r = rng_of(seed, "between")
  if pid in BETWEEN and r.random() < BETWEEN[pid]:
    g.r = r
    for c in g.sc["clients"]:
      for op in c["ops"]:
        if (op["op"] in ("read", "diff", "append_from") and op["on"] in g.schema
            and r.random() < 0.7):
          mix = {"mut": 4, "read": 2, "diff": 1}
          if op["op"] != "append_from":
            if g.p(0.5):
              op["early"] = 1
            else:
              mix["ref"] = 2
          op["between"] = [g.misc(op["on"], mix)
                           for _ in range(r.choice([1, 1, 2]))]
  r = rng_of(seed, "place")
  if r.random() < 0.12:
    g.sc["place"] = r.choice(PLACES)
  if g.sc.get("relocate") and r.random() < 0.3:
    g.sc["move_place"] = r.choice(PLACES)
  r = rng_of(seed, "bad")
  if r.random() < BAD.get(pid, 0.02):
    g.r = r
    bad_input(g)
  r = rng_of(seed, "none")
  if r.random() < NO_SUCH.get(pid, 0.03):
    g.r = r
    no_such(g)
  r = rng_of(seed, "names")
  if r.random() < 0.15:
    g.r = r
    g.odd_names()
  r = rng_of(seed, "zone")
  if r.random() < 0.4:
    g.sc["tz"] = r.choice(["AAA+8", "BBB-5:30", "CCC-13"])
  r = rng_of(seed, "groups")
  if r.random() < 0.2:
    g.sc["ar"] = r.choice(AR_OPTIONS)
  if g.sc.get("ropts") and r.random() < 0.1:
    g.sc["ropts"]["par"] = r.choice([5, 8, 16])
  r = rng_of(seed, "default options")
  if g.sc.get("ropts") and r.random() < 0.08:
    g.sc["ropts"]["none"] = True
  if "ar" not in g.sc and r.random() < 0.05:
    g.sc["fopts"], g.sc["nofo"] = {}, True
  r = rng_of(seed, "spell")
  if r.random() < 0.15:
    for c in g.sc["clients"]:
      if r.random() < 0.7:
        c["spell"] = r.choice(["slash", "slash", "double", "dot", "dots",
                               "relative"])
  r = rng_of(seed, "cwd")
  if r.random() < 0.1:
    # Relative locations; short names that occur again within the paths.
    for c in g.sc["clients"]:
      c["spell"] = r.choice(["relative", "relative", "relative", "dot", None])
    names = r.sample(["a", "data", "ta", "d", "s", "metadata", "b/data",
                      "s.s", "udfs"], 3)
    if not any(o.get("cat") or o["op"].startswith("cat_")
               for c in g.sc["clients"] for o in c["ops"]):
      g.sc["dirs"] = {s["name"]: n for s, n in zip(g.sc["stores"], names)}
    g.sc["cwd"] = ""
    if g.sc["stores"] and g.sc["stores"][0].get("create", True):
      if r.random() < 0.25:
        s = g.sc["stores"][0]["name"]
        g.sc["cwd"] = g.sc.get("dirs", {}).get(s, s)
  return g.sc


def scenario_seed(base, pid, n):
  return h64(base, pid, n) >> 16
