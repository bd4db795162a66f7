"""Reference model: schemas, rows, filters and transforms, all trivial.

A row is written in scenarios as [key, uid]; every field value derives from
these two integers, and uid is unique per written row.
"""
import collections
import struct

import pyarrow as pa
import pyarrow.compute as pc

from vsim import core


def _f32(x):
  return struct.unpack("f", struct.pack("f", x))[0]


# The row of which the record is empty.
EMPTY = (1, 999999)


def _rec(tag, uid):
  n = (uid * 7) % 23
  return f"{tag}{uid}:".encode() + b"z" * n


def _varint(n):
  out = b""
  while n > 127:
    out += bytes([n & 127 | 128])
    n >>= 7
  return out + bytes([n])


def _ld(tag, data):
  return bytes([tag]) + _varint(len(data)) + data


def tf_record(uid):
  """{"id": uid} as serialized by TF_FEATURES (a tf.train.Example)."""
  val = _ld(0x12, _ld(0x1a, _ld(0x0a, _varint(uid))))
  return _ld(0x0a, _ld(0x0a, _ld(0x0a, b"id") + val))


def _file_type():
  from space.core.schema.types import File
  return File(directory="media")


def _tf_type():
  import numpy as np
  from tensorflow_datasets import features as f
  from space import TfFeatures
  return TfFeatures(f.FeaturesDict({"id": np.int64}))


EDGE_K = [-2**63, -2**53 - 1, -1, 2**31, 2**53 + 1, 2**63 - 1, 0]
EDGE_X = [float("nan"), float("inf"), 5e-324, None, -1.5, float("-inf"),
          1.7976931348623157e308]
EDGE_S = ["", "\u00e9\U0001f600", "a\0b", None, "A'\"\\ \n", " "]
EDGE_R = [b"", b"\0", b"x" * 300, b"\xff\xfe", b"y"]

# Fields of extension types: {schema: {field: logical type}}.
LOGICAL = {"ext": {"f": _file_type, "t": _tf_type}, "artf": {"r": _tf_type}}

# Field: (name, arrow type, kind).  kind: "pk", "rec" or "idx".
# Value functions take (key, uid).
SCHEMAS = {
    "flat": [
        ("k", pa.int64(), "pk", lambda k, u: k),
        ("v", pa.string(), "idx", lambda k, u: f"v{u % 7}"),
        ("x", pa.float64(), "idx", lambda k, u: None
         if u % 5 == 0 else u * 0.5),
        ("u", pa.int64(), "idx", lambda k, u: u),
    ],
    "recmid": [
        ("k", pa.int64(), "pk", lambda k, u: k),
        ("r", pa.binary(), "rec", lambda k, u: _rec("r", u)),
        ("v", pa.string(), "idx", lambda k, u: f"v{u % 7}"),
        ("u", pa.int64(), "idx", lambda k, u: u),
    ],
    "multi": [
        ("u", pa.int64(), "idx", lambda k, u: u),
        ("a", pa.string(), "pk", lambda k, u: f"a{k % 3}"),
        ("b", pa.int64(), "pk", lambda k, u: k // 3),
        ("x", pa.float64(), "idx", lambda k, u: None
         if u % 4 == 0 else -u * 0.25),
    ],
    # Records are often equal in r2.
    "tworec": [
        ("r1", pa.binary(), "rec", lambda k, u: _rec("p", u)),
        ("k", pa.string(), "pk", lambda k, u: f"key{k:04d}"),
        ("r2", pa.binary(), "rec", lambda k, u: _rec("q", u // 3)),
        ("u", pa.int32(), "idx", lambda k, u: u),
    ],
    "nested": [
        ("s", pa.struct([("p", pa.int64()), ("q", pa.string())]), "idx",
         lambda k, u: None if u % 6 == 0 else {"p": u, "q": f"q{u}"}),
        ("k", pa.int32(), "pk", lambda k, u: k),
        ("l", pa.list_(pa.int64()), "idx", lambda k, u: None
         if u % 7 == 0 else list(range(u % 4))),
        ("f", pa.float32(), "idx", lambda k, u: _f32(u * 0.125)),
        ("b", pa.bool_(), "idx", lambda k, u: None
         if u % 3 == 0 else u % 3 == 1),
        ("u", pa.int64(), "idx", lambda k, u: u),
    ],
    # Two comparable key fields.
    "pair": [
        ("hi", pa.int64(), "pk", lambda k, u: k // 3 + k % 3 - 1),
        ("u", pa.int64(), "idx", lambda k, u: u),
        ("lo", pa.int64(), "pk", lambda k, u: k // 3),
        ("v", pa.string(), "idx", lambda k, u: f"v{u % 7}"),
    ],
    # Keys are never 0.0, for which pyarrow's own is_in pruning is wrong.
    "fpk": [
        ("u", pa.int64(), "idx", lambda k, u: u),
        ("r", pa.binary(), "rec", lambda k, u: _rec("f", u)),
        ("k", pa.float64(), "pk", lambda k, u: k * 0.5 - 3.25),
        ("y", pa.binary(), "idx", lambda k, u: None
         if u % 4 == 1 else b"y%d" % u),
    ],
    # Extension types, binary keys, nested fields named as other fields.
    "ext": [
        ("n", pa.list_(pa.struct([("t", pa.int64()),
                                  ("k", pa.list_(pa.string()))])), "idx",
         lambda k, u: None if u % 5 == 2 else [
             {"t": None if u % 4 == 1 else u + i, "k": [f"n{i}"] * i}
             for i in range(u % 3)]),
        ("t", pa.binary(), "rec", lambda k, u: tf_record(u)),
        ("k", pa.binary(), "pk", lambda k, u: b"\x80k%03d\xff" % (k + 1)),
        ("f", pa.string(), "idx", lambda k, u: None
         if u % 6 == 3 else f"f{u % 9}.jpg"),
        ("r", pa.binary(), "rec", lambda k, u: _rec("e", u)),
        ("u", pa.int64(), "idx", lambda k, u: u),
    ],
    # Extreme values.
    "edge": [
        ("x", pa.float64(), "idx", lambda k, u: EDGE_X[u % len(EDGE_X)]),
        ("k", pa.int64(), "pk", lambda k, u: EDGE_K[k] if 0 <= k < len(
            EDGE_K) else (k << 40) + k),
        ("s", pa.string(), "idx", lambda k, u: EDGE_S[u % len(EDGE_S)]),
        ("r", pa.binary(), "rec", lambda k, u: EDGE_R[u % len(EDGE_R)]),
        ("i", pa.int32(), "idx", lambda k, u: [-2**31, 2**31 - 1, 0, None][
            u % 4]),
        ("u", pa.int64(), "idx", lambda k, u: u),
    ],
    # Field names that are special somewhere.
    "names": [
        ("_FILE", pa.string(), "idx", lambda k, u: f"v{u % 7}"),
        ("k.1", pa.float32(), "pk", lambda k, u: (k // 2) * 0.5 - 3.25),
        ("r.x", pa.binary(), "rec", lambda k, u: _rec("d", u)),
        ("a b", pa.bool_(), "pk", lambda k, u: k % 2 == 0),
        ("\u00e9'\"", pa.int64(), "idx", lambda k, u: u),
        ("_ROW_ID", pa.int64(), "idx", lambda k, u: u * 3),
    ],
    # A string key longer than what column statistics keep.  (pyarrow itself
    # reads wrong rows when only some values of a row group are too long.)
    "bigpk": [
        ("k", pa.string(), "pk", lambda k, u:
         f"key{k:04d}" + "#" * 4200),
        ("u", pa.int64(), "idx", lambda k, u: u),
        ("v", pa.string(), "idx", lambda k, u: f"v{u % 5}"),
    ],
    # Source of views: no nulls.
    "view": [
        ("k", pa.int64(), "pk", lambda k, u: k),
        ("v", pa.string(), "idx", lambda k, u: f"v{u % 7}"),
        ("r", pa.binary(), "rec", lambda k, u: _rec("r", u)),
        ("u", pa.int64(), "idx", lambda k, u: u),
    ],
    "view2": [
        ("k", pa.int64(), "pk", lambda k, u: k),
        ("w", pa.string(), "idx", lambda k, u: f"w{u % 7}"),
        ("u2", pa.int64(), "idx", lambda k, u: u),
    ],
    # Joined with "tworec" and "multi".
    "sright": [
        ("w", pa.string(), "idx", lambda k, u: f"w{u % 7}"),
        ("k", pa.string(), "pk", lambda k, u: f"key{k:04d}"),
        ("rr", pa.binary(), "rec", lambda k, u: _rec("j", u)),
        ("u2", pa.int64(), "idx", lambda k, u: u),
    ],
    "bright": [
        ("b", pa.int64(), "pk", lambda k, u: k),
        ("w", pa.string(), "idx", lambda k, u: f"w{u % 7}"),
        ("u2", pa.int64(), "idx", lambda k, u: u),
    ],
    # ArrayRecord loading: one record field, index computed from it.
    "arl": [
        ("k", pa.int64(), "pk", lambda k, u: k),
        ("u", pa.int64(), "idx", lambda k, u: u),
        ("r", pa.binary(), "rec",
         lambda k, u: b"" if (k, u) == EMPTY else b"%d,%d" % (k, u)),
    ],
    "artf": [
        ("r", pa.binary(), "rec", lambda k, u: tf_record((k << 32) + u)),
        ("k", pa.int64(), "pk", lambda k, u: k),
        ("u", pa.int64(), "idx", lambda k, u: u),
    ],
}


# Generated schemas: "rnd:<seed>" of any kind, "rec:<seed>" with record fields,
# "tf:<seed>" with features.
FIELD_NAMES = [
    "k", "u", "v", "x", "id", "item", "element", "list", "key", "a.b", "s",
    "_FILE", "_ROW_ID", "_NUM_ROWS", "_STATS", "_MIN", "_STATS_f0", "_ADDRESS",
    "\u540d\u524d", "two words", "Q'\"", "U", "K", "0", "f0", "", "a/b", "main",
    "r", "r._FILE", "r._ROW_ID", "struct", "null", "__value__", "left", ".x", "..",
    "../x", "[0]", "$", "a.", "*"
]
_SCALARS = [pa.bool_, pa.int32, pa.int64, pa.float32, pa.float64, pa.string,
            pa.binary]


def _gen_type(r, depth):
  """A description of a type."""
  x = r.random()
  if depth and x < 0.2:
    return ("list", _gen_type(r, depth - 1))
  if depth and x < 0.42:
    kids = [_gen_type(r, depth - 1) for _ in range(r.choice([1, 1, 2, 3]))]
    return ("struct", list(zip(r.sample(FIELD_NAMES, len(kids)), kids)))
  if x < 0.5:
    return ("file", r.choice(["", "media", "/a b/\u00e9", "gs://x"]))
  return ("scalar", r.choice(_SCALARS)())


def _build_type(d, logical):
  """The physical or logical arrow type of a description."""
  kind, x = d
  if kind == "list":
    return pa.list_(_build_type(x, logical))
  if kind == "struct":
    return pa.struct([(n, _build_type(k, logical)) for n, k in x])
  if kind == "file":
    return _gen_file(x) if logical else pa.string()
  if kind == "tf":
    return x.type() if logical else pa.binary()
  return x


def _gen_file(directory):
  from space.core.schema.types import File
  return File(directory=directory)


class Features:
  """A generated specification of features, and values for it."""

  KINDS = ["i64", "i32", "u8", "i16", "f32", "bool", "text", "label", "fixed",
           "rows", "seq", "seqtext", "seqdict", "dict", "zlib", "box"]

  def __init__(self, seed):
    self.seed = seed
    self.spec = self._spec(core.rng_of(seed, "features"), 2)
    self.encoded = {}  # canonical value -> bytes
    self._type = self._dict = None

  def _spec(self, r, depth):
    names = r.sample(["id", "x", "a", "boxes", "k", "\u00e9", "a b", "x/y"],
                     r.choice([1, 1, 2, 3]))
    out = []
    for n in names:
      k = r.choice(self.KINDS)
      if k in ("dict", "seqdict") and depth:
        out.append((n, k, self._spec(r, depth - 1 if k == "dict" else 0)))
      else:
        k = "i64" if k in ("dict", "seqdict") else k
        if not depth and k not in ("i64", "f32", "bool", "text", "i32"):
          k = "text"
        out.append((n, k, r.choice([1, 2, 3])))
    return out

  def _connector(self, k, n):
    import numpy as np
    from tensorflow_datasets import features as f
    if k in ("dict", "seqdict"):
      d = {a: self._connector(b, c) for a, b, c in n}
      return f.FeaturesDict(d) if k == "dict" else f.Sequence(d)
    return {
        "i64": lambda: np.int64, "i32": lambda: np.int32,
        "u8": lambda: np.uint8, "i16": lambda: np.int16,
        "f32": lambda: np.float32, "bool": lambda: np.bool_,
        "text": f.Text, "label": lambda: f.ClassLabel(num_classes=n + 1),
        "fixed": lambda: f.Tensor(shape=(n, 2), dtype=np.float32),
        "rows": lambda: f.Tensor(shape=(None, n), dtype=np.int32),
        "seq": lambda: f.Sequence(np.int64),
        "seqtext": lambda: f.Sequence(f.Text()),
        "zlib": lambda: f.Tensor(shape=(n,), dtype=np.int32, encoding="zlib"),
        "box": f.BBoxFeature}[k]()

  def type(self):
    if self._type is None:
      from tensorflow_datasets import features as f
      from space import TfFeatures
      self._type = TfFeatures(
          f.FeaturesDict({a: self._connector(b, c) for a, b, c in self.spec}))
    return self._type

  def value(self, uid):
    """The value of a row and how it is read back."""
    r = core.rng_of(self.seed, "value", uid)
    v, want = self._value("dict", self.spec, r)
    return v, want

  def _value(self, k, n, r):
    import numpy as np
    if k == "dict":
      vs = {a: self._value(b, c, r) for a, b, c in n}
      return ({a: v[0] for a, v in vs.items()}, {a: v[1] for a, v in vs.items()})
    if k == "seqdict":
      items = [self._value("dict", n, r) for _ in range(r.choice([1, 2, 3]))]
      want = {}
      for a, b, _ in n:
        t = {"i64": np.int64, "f32": np.float32, "bool": np.bool_,
             "i32": np.int32, "text": object}[b]
        want[a] = np.array([w[a] for _, w in items], t)
      return [v for v, _ in items], want
    ints = lambda *shape: np.array([r.randint(-2**31, 2**31 - 1) for _ in range(  # noqa
        int(np.prod(shape)))], np.int32).reshape(shape)
    if k == "i64":
      v = np.int64(r.choice([0, -1, 2**63 - 1, -2**63, r.randint(-99, 99)]))
    elif k == "i32":
      v = np.int32(r.choice([0, -2**31, 2**31 - 1, r.randint(-99, 99)]))
    elif k == "u8":
      v = np.uint8(r.randrange(256))
    elif k == "i16":
      v = np.int16(r.randint(-2**15, 2**15 - 1))
    elif k == "f32":
      v = np.float32(r.choice([0.0, -0.1, 1e30, float("inf"), r.random()]))
    elif k == "bool":
      v = np.bool_(r.random() < 0.5)
    elif k == "text":
      v = r.choice(["", "\u00e9", "a\0b", f"t{r.randrange(99)}"])
      return v, v.encode()
    elif k == "label":
      v = np.int64(r.randrange(n + 1))
    elif k == "fixed":
      v = np.array([r.random() for _ in range(n * 2)], np.float32).reshape(n, 2)
    elif k == "rows":
      v = ints(r.choice([0, 1, 3]), n)
    elif k == "seq":
      v = np.array([r.randint(-9, 9) for _ in range(r.randrange(4))], np.int64)
    elif k == "seqtext":
      v = [f"s{r.randrange(9)}" * r.randrange(3) for _ in range(r.randrange(4))]
      return v, np.array([x.encode() for x in v], object)
    elif k == "zlib":
      v = ints(n)
    else:
      from tensorflow_datasets import features as f
      y, x = r.random() / 2, r.random() / 2
      v = np.array([y, x, y + 0.25, x + 0.5], np.float32)
      return f.BBox(*[float(z) for z in v]), v
    return v, v

  def encode(self, uid):
    """The bytes of a value, by the features library itself."""
    from tensorflow_datasets import features as f
    if self._dict is None:
      self._dict = f.FeaturesDict(
          {a: self._connector(b, c) for a, b, c in self.spec})
    v, want = self.value(uid)
    out = stable_example(self._dict.serialize_example(v))
    self.encoded[canon_np(want)] = out
    return out

  def of_read(self, value):
    """The bytes of a value that was read and deserialized."""
    return self.encoded.get(canon_np(value), value)


def stable_example(data):
  """The order of an example's features in its bytes is arbitrary."""
  import tensorflow as tf
  return tf.train.Example.FromString(data).SerializeToString(deterministic=True)


def canon_np(v):
  """A hashable form of a nested dict of arrays."""
  import numpy as np
  if isinstance(v, dict):
    return tuple((k, canon_np(x)) for k, x in sorted(v.items()))
  if isinstance(v, np.ndarray):
    return ("a", str(v.dtype), v.shape, tuple(
        canon_np(x) if v.dtype == object else x.tobytes() for x in v.ravel()))
  if isinstance(v, np.generic):
    return (str(v.dtype), v.tobytes())
  return (type(v).__name__, v)


def _gen_value(t, r):
  if r.random() < 0.15:
    return None
  if pa.types.is_boolean(t):
    return r.random() < 0.5
  if pa.types.is_integer(t):
    return r.randint(-20, 60)
  if pa.types.is_floating(t):
    return r.randint(-50, 200) * 0.25 + 0.125
  if pa.types.is_string(t):
    return r.choice(["v", "a", "key000", "\u00e9"]) + str(r.randrange(9))
  if pa.types.is_binary(t):
    return bytes([r.randrange(256) for _ in range(r.randrange(5))])
  if pa.types.is_list(t):
    return [_gen_value(t.value_type, r) for _ in range(r.randrange(4))]
  return {f.name: _gen_value(f.type, r) for f in t}


# Injective functions of the key.
_MAIN_KEYS = [
    (pa.int64(), lambda k, u: k), (pa.int64(), lambda k, u: 7 - k),
    (pa.int32(), lambda k, u: k * 3 - 5), (pa.int64(), lambda k, u: k << 33),
    (pa.string(), lambda k, u: f"{k:05d}"), (pa.string(), lambda k, u: f"{k}"),
    (pa.string(), lambda k, u: "\u00e9" * (k % 3) + f"\U0001f600{k}"),
    (pa.binary(), lambda k, u: b"%d" % k),
    (pa.float32(), lambda k, u: _f32(k * 0.5 - 3.25)),
    (pa.float64(), lambda k, u: 1.125 - k),
]
_PART_KEYS = [
    (pa.bool_(), lambda k, u: k % 2 == 1), (pa.int32(), lambda k, u: k // 4),
    (pa.string(), lambda k, u: "abc"[k % 3]), (pa.int64(), lambda k, u: 0),
    (pa.binary(), lambda k, u: b"\xff" * (k % 3)),
    (pa.float64(), lambda k, u: (k % 4) - 1.5),
]


def generated(name):
  """Fields and logical types of a generated schema."""
  kind, seed = name.split(":")
  r = core.rng_of(int(seed), "schema")
  names = r.sample(FIELD_NAMES, len(FIELD_NAMES))
  fields, special = [], {}

  def add(t, kind, fn, d=None):
    fields.append((names[len(fields)], t, kind, fn))
    if d is not None:
      special[fields[-1][0]] = d

  def column(t, n):
    return lambda k, u: _gen_value(t, core.rng_of(int(seed), n, u))

  def features(n):
    f = Features(core.h64(int(seed), n))
    add(pa.binary(), "rec", lambda k, u: f.encode(u), ("tf", f))

  t, fn = r.choice(_MAIN_KEYS)
  as_file = pa.types.is_string(t) and r.random() < 0.3
  add(t, "pk", fn, ("file", "keys") if as_file else None)
  for _ in range(r.choice([0, 0, 1, 2])):
    t, fn = r.choice(_PART_KEYS)
    add(t, "pk", fn)
  if r.random() < 0.8:
    add(r.choice([pa.int64(), pa.int64(), pa.int32()]), "idx",
        lambda k, u: u)
  for i in range(r.choice([0, 1, 1, 2, 3, 5])):
    d = _gen_type(r, r.choice([0, 1, 2, 3]))
    t = _build_type(d, False)
    add(t, "idx", column(t, i), d)
  least = {"rnd": 0, "rec": 1, "tf": 1}[kind]
  for i in range(max(least, r.choice([0, 0, 1, 2]))):
    if r.random() < (0.8 if kind == "tf" else 0.3) or (kind == "tf" and not i):
      features(i)
    else:
      add(pa.binary(), "rec", lambda k, u, i=i: _rec(f"g{i}", u))
  r.shuffle(fields)
  return fields, special


class Schema:

  def __init__(self, name):
    self.name = name
    if ":" in name:
      self.fields, self.special = generated(name)
    else:
      self.fields = SCHEMAS[name]
      self.special = {n: ("of", t) for n, t in LOGICAL.get(name, {}).items()}
    self.names = [f[0] for f in self.fields]
    self.pks = [f[0] for f in self.fields if f[2] == "pk"]
    self.recs = [f[0] for f in self.fields if f[2] == "rec"]
    self.idx = [f[0] for f in self.fields if f[2] != "rec"]
    self.types = {f[0]: f[1] for f in self.fields}
    self._fn = {f[0]: f[3] for f in self.fields}

  def arrow(self):
    return pa.schema([(f[0], self.logical(f[0])) for f in self.fields])

  def logical(self, name):
    d = self.special.get(name)
    if d is None:
      return self.types[name]
    return d[1]() if d[0] == "of" else _build_type(d, True)

  def serialized(self):
    """Fields with a serializer."""
    return [n for n in self.recs if n in self.special]

  def features(self, name):
    d = self.special.get(name, ("", None))
    return d[1] if d[0] == "tf" else None

  def value_of_read(self, name, v):
    """The bytes of a deserialized value."""
    f = self.features(name)
    if f:
      return f.of_read(v)
    return tf_record(int(v["id"])) if set(v) == {"id"} else v

  def row(self, key, uid):
    return {n: self._fn[n](key, uid) for n in self.names}

  def rows(self, pairs):
    return [self.row(k, u) for k, u in pairs]

  def pk_value(self, field, key):
    return self._fn[field](key, 1)

  def pk(self, row):
    return canon([row[p] for p in self.pks])

  def table(self, pairs, order=None):
    rows = self.rows(pairs)
    names = order or self.names
    return pa.table(
        {n: pa.array([r[n] for r in rows], self.types[n]) for n in names})


DICT_TYPES = (pa.int64(), pa.string(), pa.float64(), pa.binary(), pa.bool_())


def reform(table, form):
  """The same rows in another form: a dict, or a table in several chunks."""
  if form == "dict":
    if table.num_rows and all(
        c.type in DICT_TYPES and c.null_count < len(c) for c in table.columns):
      return table.to_pydict()
  elif form:
    n = max(1, -(-table.num_rows // form))
    parts = [table.slice(i, n) for i in range(0, table.num_rows, n)]
    if parts:
      return pa.concat_tables(parts)
  return table


def spoil(table, bad):
  """Rows that do not fit the schema of the dataset."""
  i = table.schema.get_field_index(bad["field"])
  if bad["how"] == "missing":
    return table.drop([bad["field"]])
  value, type_ = [True], pa.list_(pa.bool_())
  if pa.types.is_list(table.schema.field(i).type):
    value, type_ = {"_no": True}, pa.struct([("_no", pa.bool_())])
  return table.set_column(i, bad["field"],
                          pa.array([value] * table.num_rows, type_))


def canon(v):
  """A hashable canonical form of a value."""
  if isinstance(v, dict):
    return ("d",) + tuple((k, canon(x)) for k, x in sorted(v.items()))
  if isinstance(v, (list, tuple)):
    return ("l",) + tuple(canon(x) for x in v)
  if isinstance(v, float):
    return ("f", v if v == v else "nan")
  if isinstance(v, bool):
    return ("b", v)
  return v


def row_key(row, names):
  return tuple(canon(row[n]) for n in names)


def multiset(rows, names):
  return collections.Counter(row_key(r, names) for r in rows)


def table_rows(table):
  return table.to_pylist() if table is not None else []


# --------------------------------------------------------------------- filters
_OPS = {
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
}


def _const(schema, field, c):
  """Constants of primary keys are written as keys."""
  if field in schema.pks:
    return schema.pk_value(field, c)
  return c


def to_expr(f, schema):
  """The pyarrow expression of a filter AST."""
  op = f[0]
  if op == "cmp":
    _, field, o, c = f
    a = pc.field(field)
    t = schema.types[field]
    b = pa.scalar(_const(schema, field, c), t)
    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b,
            ">=": a >= b}[o]
  if op == "rcmp":  # literal on the left side
    _, field, o, c = f
    a = pc.scalar(pa.scalar(_const(schema, field, c), schema.types[field]))
    b = pc.field(field)
    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b,
            ">=": a >= b}[o]
  if op == "ff":  # field against field
    _, fa, o, fb = f
    a, b = pc.field(fa), pc.field(fb)
    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b,
            ">=": a >= b}[o]
  if op == "and":
    return to_expr(f[1], schema) & to_expr(f[2], schema)
  if op == "or":
    return to_expr(f[1], schema) | to_expr(f[2], schema)
  if op == "not":
    return ~to_expr(f[1], schema)
  if op == "isin":
    _, field, cs = f
    vals = [_const(schema, field, c) for c in cs]
    return pc.field(field).isin(pa.array(vals, schema.types[field]))
  if op == "isnull":
    return pc.field(f[1]).is_null()
  if op == "lit":
    return pc.scalar(bool(f[1]))
  if op == "litcmp":
    return _cmp(f[2], pc.scalar(f[1]), pc.scalar(f[3]))
  if op == "valid":
    return pc.field(f[1]).is_valid()
  if op == "bool":
    return pc.field(f[1])
  if op == "starts":
    return pc.starts_with(pc.field(f[1]), f[2])
  if op == "half":  # an integer field against a fraction
    return _cmp(f[2], pc.field(f[1]), pc.scalar(f[3] + 0.5))
  if op == "plus":
    return _cmp(f[2], pc.field(f[1]) + 1, pc.scalar(f[3]))
  if op == "sub":
    return _cmp(f[2], pc.field("s", "p"), pc.scalar(f[3]))
  raise ValueError(op)


def _cmp(o, a, b):
  return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b,
          ">=": a >= b}[o]


def evaluate(f, row, schema):
  """Three-valued evaluation."""
  op = f[0]
  if op in ("cmp", "rcmp"):
    _, field, o, c = f
    a, b = row[field], _const(schema, field, c)
    if a is None:
      return None
    return _OPS[o](a, b) if op == "cmp" else _OPS[o](b, a)
  if op == "ff":
    _, fa, o, fb = f
    a, b = row[fa], row[fb]
    return None if a is None or b is None else _OPS[o](a, b)
  if op == "and":
    a, b = evaluate(f[1], row, schema), evaluate(f[2], row, schema)
    if a is False or b is False:
      return False
    return None if a is None or b is None else True
  if op == "or":
    a, b = evaluate(f[1], row, schema), evaluate(f[2], row, schema)
    if a is True or b is True:
      return True
    return None if a is None or b is None else False
  if op == "not":
    a = evaluate(f[1], row, schema)
    return None if a is None else not a
  if op == "isin":
    _, field, cs = f
    return row[field] in [_const(schema, field, c) for c in cs]
  if op == "isnull":
    return row[f[1]] is None
  if op == "lit":
    return bool(f[1])
  return _evaluate_more(f, row)


def _evaluate_more(f, row):
  op = f[0]
  if op == "litcmp":
    return _OPS[f[2]](f[1], f[3])
  a = row["s" if op == "sub" else f[1]]
  if op == "valid":
    return a is not None
  if a is None:
    return None
  if op == "bool":
    return a
  if op == "starts":
    return a.startswith(f[2])
  if op == "half":
    return _OPS[f[2]](a, f[3] + 0.5)
  if op == "plus":
    return _OPS[f[2]](a + 1, f[3])
  if op == "sub":
    return None if a["p"] is None else _OPS[f[2]](a["p"], f[3])
  raise ValueError(op)


def matches(f, row, schema):
  return f is None or evaluate(f, row, schema) is True


def not_over_pk(f, schema, inside=False):
  """True when a NOT encloses a primary key comparison (a known finding)."""
  op = f[0]
  if op in ("cmp", "rcmp", "isin", "isnull", "valid", "bool", "starts", "half",
            "plus"):
    return inside and f[1] in schema.pks
  if op == "ff":
    return inside and (f[1] in schema.pks or f[3] in schema.pks)
  if op in ("and", "or"):
    return (not_over_pk(f[1], schema, inside) or
            not_over_pk(f[2], schema, inside))
  if op == "not":
    return not_over_pk(f[1], schema, True)
  return False


# ------------------------------------------------------------------- transforms
# User defined functions of views; each has a row-wise model.
def udf_label(batch):
  out = dict(batch)
  out["v"] = [f"{v}/{k % 4}" for v, k in zip(batch["v"], batch["k"])]
  return out


def row_label(r):
  return dict(r, v=f"{r['v']}/{r['k'] % 4}")


def udf_double(batch):
  out = dict(batch)
  out["u"] = batch["u"] * 2 + 1
  return out


def row_double(r):
  return dict(r, u=r["u"] * 2 + 1)


def udf_even(row):
  return row["k"] % 2 == 0


def udf_small(row):
  # Any value that is true or false.
  return row["u"] % 3


def udf_any(row):
  return len(row) > 0


def udf_none(row):
  return row["k"] < 0


def udf_drop(batch):
  return {"k": batch["k"], "w": [f"<{v}>" for v in batch["v"]]}


def row_drop(r):
  return {"k": r["k"], "w": f"<{r['v']}>"}


def udf_pass(batch):
  return dict(batch)


def row_kv(r):
  return {"k": r["k"], "v": r["v"]}


def udf_relabel(batch):
  return {"k": batch["k"], "w": [f"{w}!{len(w)}" for w in batch["w"]]}


def row_relabel(r):
  return {"k": r["k"], "w": f"{r['w']}!{len(r['w'])}"}


def udf_w(row):
  return len(row["w"]) % 2 == 0 or (row["k"] % 3 == 0 or None)


def udf_swap(batch):
  return {"w": batch["v"], "k": batch["k"]}


def row_swap(r):
  return {"k": r["k"], "w": r["v"]}


def udf_recs(batch):
  return {"k": batch["k"],
          "r2": [b"<" + bytes(x) + b">" for x in batch["r"]],
          "u": batch["u"]}


def row_recs(r):
  return {"k": r["k"], "r2": b"<" + r["r"] + b">", "u": r["u"]}


class Stage:
  """One transform: kind, user function, row model, output schema (None: as the
  input), record fields of the output, input fields and batch size."""

  def __init__(self, kind, udf, row=None, out=None, recs=(), ins=None,
               batch=None):
    self.kind, self.udf, self.row, self.out = kind, udf, row, out
    self.recs, self.ins, self.batch = list(recs), ins, batch


KW = pa.schema([("k", pa.int64()), ("w", pa.string())])
KV = pa.schema([("k", pa.int64()), ("v", pa.string())])
KRU = pa.schema([("k", pa.int64()), ("r2", pa.binary()), ("u", pa.int64())])
_label = Stage("map", udf_label, row_label)
_even = Stage("filter", udf_even)
_drop = Stage("map", udf_drop, row_drop, KW, ins=["k", "v"])

TRANSFORMS = {
    "label": [_label],
    "even": [_even],
    "small": [Stage("filter", udf_small)],
    "none": [Stage("filter", udf_none)],
    "any": [Stage("filter", udf_any)],
    "evenlabel": [_even, _label],
    "doubleeven": [Stage("map", udf_double, row_double), _even],
    "narrow": [_drop],
    "pass": [Stage("map", udf_pass, row_kv, KV, ins=["k", "v"])],
    "label2": [Stage("map", udf_label, row_label, batch=2)],
    "narrowchain": [_drop, Stage("map", udf_relabel, row_relabel, KW, batch=1),
                    Stage("filter", udf_w)],
    "swap": [Stage("map", udf_swap, row_swap, KW, ins=["v", "k"])],
    "recs": [_even, Stage("map", udf_recs, row_recs, KRU, recs=["r2"],
                          ins=["k", "r", "u"])],
    # Its rows have the input fields only, although the view's schema has all
    # (both are pinned by existing tests), so it can't be materialized.
    "fsub": [Stage("filter", udf_small, ins=["u", "k"])],
}
MATERIALIZABLE = [t for t in TRANSFORMS if t not in ("fsub", "any")]


def transform_rows(name, rows):
  for s in TRANSFORMS[name]:
    if s.ins is not None:
      rows = [{n: r[n] for n in s.ins} for r in rows]
    if s.kind == "map":
      rows = [s.row(r) for r in rows]
    else:
      rows = [r for r in rows if s.udf(r)]
  return rows


def transform_names(name, names):
  for s in TRANSFORMS[name]:
    if s.kind == "map" and s.out is not None:
      names = s.out.names
    elif s.ins is not None:
      names = s.ins
  return names


def transform_recs(name, recs):
  for s in TRANSFORMS[name]:
    if s.kind == "map" and s.out is not None:
      recs = s.recs
  return recs


def transform_types(name, schema):
  """Logical types of the fields of a view."""
  types = [(n, schema.logical(n)) for n in schema.names]
  for s in TRANSFORMS[name]:
    if s.kind == "map" and s.out is not None:
      types = list(zip(s.out.names, s.out.types))
    elif s.ins is not None:
      types = [(n, dict(types)[n]) for n in s.ins]
  return [t for _, t in types]


class UserFn:
  """A transform function as the user of a view passes it."""

  def __init__(self, fn, batch=None):
    self.fn, self.batch = fn, batch

  def __call__(self, arg):
    core.user_point("udf")
    if self.batch is not None:
      n = max(len(v) for v in arg.values())
      if n > self.batch:
        raise ValueError(f"{n} rows in a batch of at most {self.batch}")
    return self.fn(arg)


def build_view(name, dataset, schema):
  view = dataset
  recs = list(schema.recs)
  sch = schema.arrow()
  for s in TRANSFORMS[name]:
    if s.kind == "map":
      if s.out is not None:
        sch, recs = s.out, list(s.recs)
      kw = {} if s.ins is None else {"input_fields": list(s.ins)}
      if s.batch is not None:
        kw["batch_size"] = s.batch
      view = view.map_batches(fn=UserFn(s.udf, s.batch), output_schema=sch,
                              output_record_fields=recs, **kw)
    else:
      view = view.filter(fn=UserFn(s.udf)) if s.ins is None else view.filter(
          fn=UserFn(s.udf), input_fields=list(s.ins))
  return view
