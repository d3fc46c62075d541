"""Type descriptors of the verified Python subset and their z3 sorts."""
import ast
import z3

_cache = {}


class Ty:
    name = "?"

    def __repr__(self):
        return self.name

    def __eq__(self, other):
        return isinstance(other, Ty) and self.name == other.name

    def __hash__(self):
        return hash(self.name)

    @property
    def mutable(self):
        return False

    def sort(self):
        if self.name not in _cache:
            _cache[self.name] = self._mk()
        return _cache[self.name]

    def _id(self):
        out = []
        for ch in self.name:
            out.append(ch if ch.isalnum() else "_%x" % ord(ch))
        return "".join(out)


class _Base(Ty):
    def __init__(self, name, mk):
        self.name = name
        self._mkf = mk

    def _mk(self):
        return self._mkf()


INT = _Base("int", z3.IntSort)
BOOL = _Base("bool", z3.BoolSort)
STR = _Base("str", lambda: z3.DeclareSort("Str"))
NONE = _Base("none", lambda: z3.DeclareSort("NoneT"))
OPAQUE = _Base("opaque", lambda: z3.DeclareSort("Opaque"))


class U(Ty):
    """Uninterpreted immutable object type."""

    def __init__(self, name):
        self.name = name

    def _mk(self):
        return z3.DeclareSort("U_" + self._id())


class Opt(Ty):
    def __init__(self, t):
        self.t = t
        self.name = f"opt[{t.name}]"

    def _mk(self):
        d = z3.Datatype("Opt_" + self.t._id())
        d.declare("none_" + self.t._id())
        d.declare("some_" + self.t._id(), ("val_" + self.t._id(), self.t.sort()))
        return d.create()

    def none(self):
        return self.sort().constructor(0)()

    def some(self, x):
        return self.sort().constructor(1)(x)

    def is_none(self, x):
        if is_app_of(x, self.sort().constructor(1)):
            return z3.BoolVal(False)
        if is_app_of(x, self.sort().constructor(0)):
            return z3.BoolVal(True)
        return self.sort().recognizer(0)(x)

    def val(self, x):
        if is_app_of(x, self.sort().constructor(1)):
            return x.arg(0)
        return self.sort().accessor(1, 0)(x)


def is_app_of(x, decl):
    return z3.is_app(x) and x.decl().eq(decl)


class Union(Ty):
    def __init__(self, ts):
        self.ts = ts
        self.name = "union[" + ",".join(t.name for t in ts) + "]"

    def _mk(self):
        d = z3.Datatype("Un_" + self._id())
        for k, t in enumerate(self.ts):
            d.declare(f"inj{k}_{self._id()}", (f"out{k}_{self._id()}", t.sort()))
        return d.create()

    def idx(self, t):
        for k, s in enumerate(self.ts):
            if s == t:
                return k
        return None

    def inj(self, k, x):
        return self.sort().constructor(k)(x)

    def is_k(self, k, x):
        for j in range(len(self.ts)):
            if is_app_of(x, self.sort().constructor(j)):
                return z3.BoolVal(j == k)
        return self.sort().recognizer(k)(x)

    def out(self, k, x):
        if is_app_of(x, self.sort().constructor(k)):
            return x.arg(0)
        return self.sort().accessor(k, 0)(x)


class Seq(Ty):
    """Mutable sequence: list / deque."""

    def __init__(self, t):
        self.t = t
        self.name = f"list[{t.name}]"

    @property
    def mutable(self):
        return True

    def _mk(self):
        d = z3.Datatype("Seq_" + self.t._id())
        d.declare(
            "mkseq_" + self.t._id(),
            ("slen_" + self.t._id(), z3.IntSort()),
            ("sarr_" + self.t._id(), z3.ArraySort(z3.IntSort(), self.t.sort())),
        )
        return d.create()

    def mk(self, n, arr):
        return self.sort().constructor(0)(n, arr)

    def len(self, x):
        if is_app_of(x, self.sort().constructor(0)):
            return x.arg(0)
        return self.sort().accessor(0, 0)(x)

    def arr(self, x):
        if is_app_of(x, self.sort().constructor(0)):
            return x.arg(1)
        return self.sort().accessor(0, 1)(x)

    def at(self, x, i):
        return sel(self.arr(x), i)

    def empty(self):
        return self.mk(z3.IntVal(0), z3.K(z3.IntSort(), default_term(self.t)))


class ITup(Ty):
    """Immutable homogeneous tuple of any length, with extensional equality."""

    def __init__(self, t):
        self.t = t
        self.name = f"tup[{t.name}]"

    def _mk(self):
        return z3.DeclareSort("ITup_" + self.t._id())

    def _fns(self):
        key = ("fns", self.name)
        if key not in _cache:
            s = self.sort()
            _cache[key] = (
                z3.Function("tlen_" + self.t._id(), s, z3.IntSort()),
                z3.Function("tat_" + self.t._id(), s, z3.IntSort(), self.t.sort()),
                z3.Function(
                    "tmk_" + self.t._id(),
                    z3.IntSort(),
                    z3.ArraySort(z3.IntSort(), self.t.sort()),
                    s,
                ),
            )
        return _cache[key]

    def len(self, x):
        if is_app_of(x, self._fns()[2]) and z3.is_int_value(x.arg(0)):
            return x.arg(0)
        return self._fns()[0](x)

    def at(self, x, i):
        return self._fns()[1](x, i)

    def mk(self, n, arr):
        return self._fns()[2](n, arr)

    def axioms(self):
        x = z3.Const("ax_x", self.sort())
        y = z3.Const("ax_y", self.sort())
        n = z3.Int("ax_n")
        i = z3.Int("ax_i")
        a = z3.Const("ax_a", z3.ArraySort(z3.IntSort(), self.t.sort()))
        ln, at, mk = self._fns()
        ext = z3.ForAll(
            [x, y],
            z3.Implies(
                z3.And(
                    ln(x) == ln(y),
                    z3.ForAll(
                        [i], z3.Implies(z3.And(0 <= i, i < ln(x)), at(x, i) == at(y, i))
                    ),
                ),
                x == y,
            ),
            patterns=[z3.MultiPattern(ln(x), ln(y))],
        )
        return [
            z3.ForAll([x], ln(x) >= 0, patterns=[ln(x)]),
            z3.ForAll([n, a], z3.Implies(n >= 0, ln(mk(n, a)) == n), patterns=[mk(n, a)]),
            z3.ForAll([n, a, i], z3.Implies(z3.And(0 <= i, i < n), at(mk(n, a), i) == a[i]), patterns=[at(mk(n, a), i)]),
            ext,
        ]


class SetT(Ty):
    def __init__(self, t):
        self.t = t
        self.name = f"set[{t.name}]"

    @property
    def mutable(self):
        return True

    def _mk(self):
        return z3.ArraySort(self.t.sort(), z3.BoolSort())

    def empty(self):
        return z3.K(self.t.sort(), z3.BoolVal(False))


class DictT(Ty):
    """kind: 'dict', 'ddict' (defaultdict, reading inserts), 'counter'."""

    def __init__(self, k, v, kind="dict"):
        self.k, self.v, self.kind = k, v, kind
        self.name = f"{kind}[{k.name},{v.name}]"

    @property
    def mutable(self):
        return True

    def _mk(self):
        d = z3.Datatype("Dict_" + self._id())
        d.declare(
            "mkd_" + self._id(),
            ("dom_" + self._id(), z3.ArraySort(self.k.sort(), z3.BoolSort())),
            ("dval_" + self._id(), z3.ArraySort(self.k.sort(), self.v.sort())),
        )
        return d.create()

    def mk(self, dom, val):
        return self.sort().constructor(0)(dom, val)

    def dom(self, x):
        if is_app_of(x, self.sort().constructor(0)):
            return x.arg(0)
        return self.sort().accessor(0, 0)(x)

    def val(self, x):
        if is_app_of(x, self.sort().constructor(0)):
            return x.arg(1)
        return self.sort().accessor(0, 1)(x)

    def empty(self):
        return self.mk(
            z3.K(self.k.sort(), z3.BoolVal(False)),
            z3.K(self.k.sort(), default_term(self.v)),
        )


class MapT(Ty):
    """Total mathematical map (ghost / spec only)."""

    def __init__(self, k, v):
        self.k, self.v = k, v
        self.name = f"map[{k.name},{v.name}]"

    def _mk(self):
        return z3.ArraySort(self.k.sort(), self.v.sort())


class NT(Ty):
    """Immutable record: NamedTuple or fixed-length tuple."""

    def __init__(self, name, fields, cls=None):
        self.name = name
        self.fields = list(fields)  # [(fname, ty)]
        self.cls = cls  # (module, class) for properties

    def _mk(self):
        d = z3.Datatype("NT_" + self._id())
        d.declare(
            "mknt_" + self._id(),
            *[(f"nt_{self._id()}_{f}", t.sort()) for f, t in self.fields],
        )
        return d.create()

    def mk(self, *args):
        return self.sort().constructor(0)(*args)

    def get(self, x, i):
        if is_app_of(x, self.sort().constructor(0)):
            return x.arg(i)
        return self.sort().accessor(0, i)(x)

    def fidx(self, f):
        for i, (g, _) in enumerate(self.fields):
            if g == f:
                return i
        return None


def TupT(ts):
    nm = "tuple[" + ",".join(t.name for t in ts) + "]"
    return NT(nm, [(f"_{i}", t) for i, t in enumerate(ts)])


class Cls(Ty):
    """Mutable object with identity (owned record)."""

    def __init__(self, name):
        self.name = name

    @property
    def mutable(self):
        return True

    def _mk(self):
        raise TypeError("record types have no value sort: " + self.name)


def sel(arr, i):
    """select with read-over-write folding on syntactically equal index."""
    while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
        if arr.arg(1).eq(i):
            return arr.arg(2)
        a, b = arr.arg(1), i
        if z3.is_int_value(a) and z3.is_int_value(b):
            arr = arr.arg(0)
            continue
        break
    if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return arr.arg(0)
    if z3.is_quantifier(arr) and arr.is_lambda() and arr.num_vars() == 1:
        return z3.substitute_vars(arr.body(), i)
    return z3.Select(arr, i)


def default_term(t):
    """Default value of a type (used as the value of absent keys)."""
    if t == INT:
        return z3.IntVal(0)
    if t == BOOL:
        return z3.BoolVal(False)
    if isinstance(t, (Seq, SetT, DictT)):
        return t.empty()
    if isinstance(t, Opt):
        return t.none()
    if isinstance(t, NT):
        return t.mk(*[default_term(x) for _, x in t.fields])
    return z3.Const("dflt_" + t._id(), t.sort())


class TypeEnv:
    def __init__(self):
        self.named = {"int": INT, "bool": BOOL, "str": STR, "none": NONE, "opaque": OPAQUE}

    def add(self, ty):
        self.named[ty.name] = ty

    def parse(self, s):
        if isinstance(s, Ty):
            return s
        return self._p(ast.parse(s.strip(), mode="eval").body)

    def _p(self, e):
        if isinstance(e, ast.Name):
            if e.id not in self.named:
                self.named[e.id] = U(e.id)
            return self.named[e.id]
        if isinstance(e, ast.Constant) and e.value is None:
            return NONE
        if isinstance(e, ast.Subscript):
            h = e.value.id
            args = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            a = [self._p(x) for x in args]
            if h in ("list", "deque"):
                return Seq(a[0])
            if h == "tup":
                return ITup(a[0])
            if h == "set":
                return SetT(a[0])
            if h == "dict":
                return DictT(a[0], a[1])
            if h == "ddict":
                return DictT(a[0], a[1], "ddict")
            if h == "counter":
                return DictT(a[0], INT, "counter")
            if h == "map":
                return MapT(a[0], a[1])
            if h == "opt":
                return Opt(a[0])
            if h == "union":
                return Union(a)
            if h == "tuple":
                return TupT(a)
        raise ValueError("bad type " + ast.dump(e))
