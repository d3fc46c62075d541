"""Symbolic execution of extracted functions against contracts; obligations for z3."""
import ast
import time

import z3

from .ops import Ops, ViewSpec, subst_val
from .spec import SCtx, SpecEval, NameMissing, mkand, mkor
from .ty import *
from .vals import *
from .world import Contract, Unsupported, _lab

EXC_PARENTS = {
    "KeyError": ("LookupError", "Exception"),
    "IndexError": ("LookupError", "Exception"),
    "StopIteration": ("Exception",),
    "AssertionError": ("Exception",),
    "ValueError": ("Exception",),
    "TypeError": ("Exception",),
    "NotImplementedError": ("RuntimeError", "Exception"),
    "ZeroDivisionError": ("ArithmeticError", "Exception"),
    "RuntimeError": ("Exception",),
    "RecursionError": ("RuntimeError", "Exception"),
}

SKIP_DECOS = {"cssmethodtimer", "cssiteratortimer", "lru_cache", "ensure_specification", "staticmethod",
              "classmethod", "property", "abstractmethod", "contextmanager"}


class Ob:
    def __init__(self, label, kind, pc, goal, line, func):
        self.label, self.kind, self.pc, self.goal, self.line, self.func = (
            label, kind, pc, goal, line, func)
        self.status = None
        self.model = None
        self.time = 0.0
        self.backend = None


class Budget(Unsupported):
    pass


def _small(f, limit=400):
    """cheap size bound to avoid simplifying huge terms"""
    n = 0
    stack = [f]
    while stack:
        x = stack.pop()
        n += 1
        if n > limit:
            return False
        if z3.is_quantifier(x):
            return False
        stack.extend(x.children())
    return True


_qcache = {}


def _has_quant(f):
    k = f.get_id()
    stack = [f]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def _mentions(t, v):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def occurs(v, t):
    stack = [t]
    while stack:
        x = stack.pop()
        if x.eq(v):
            return True
        stack.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return False


class EngineCore(SpecEval, Ops):
    MAX_PATHS = 4000
    expect = None
    comp_effects = None

    def __init__(self, world):
        self.w = world
        self.obs = []
        self.ax = []
        self.axiom_types = set()
        self.strs = {}
        self.ghost_env = {}
        self.recording = None
        self.cur = None  # current contract
        self.dropped = set()
        self.assumed = set()
        self.used_contracts = set()
        self.inlined = set()
        self.depth = 0
        self.paths = 0
        self.mute = 0
        self.feas_time = 0.0
        self.deadline = None

    # ------------------------------------------------------------------
    def need(self, st, cond, label, kind, node=None):
        cond = z3.simplify(cond) if z3.is_expr(cond) and not z3.is_quantifier(cond) and _small(cond) else cond
        if z3.is_true(cond):
            return
        if self.mute or self.recording is not None:
            st.assume(cond)
            return
        self.obs.append(Ob(label, kind, list(st.pc), cond, getattr(node, "lineno", 0),
                           self.cur_name))
        st.assume(cond)

    def feasible(self, st):
        if self.recording is not None:
            return not any(z3.is_false(f) for f in st.pc)
        if any(z3.is_false(f) for f in st.pc):
            return False
        if self.deadline and time.time() > self.deadline:
            raise Budget("symbolic execution time budget exceeded")
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 100)
        for f in st.pc:
            if not _has_quant(f):
                s.add(f)
        r = s.check()
        self.feas_time += time.time() - t0
        return r != z3.unsat

    def split(self, st, cond):
        """-> [(state, bool)] feasible branches"""
        if z3.is_true(cond):
            return [(st, True)]
        if z3.is_false(cond):
            return [(st, False)]
        c = z3.simplify(cond) if _small(cond) else cond
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        a, b = st.copy(), st
        a.assume(cond)
        b.assume(z3.Not(cond))
        out = []
        if self.feasible(a):
            out.append((a, True))
        if self.feasible(b):
            out.append((b, False))
        self.paths += 1
        if self.paths > self.MAX_PATHS:
            raise Budget("path budget exceeded")
        return out

    def rv(self, v, st):
        if isinstance(v, ViewSpec):
            return self.view(st, v.cid, v.key)
        if isinstance(v, PT):
            return PT([self.rv(x, st) for x in v.items])
        return v

    def spec_domain(self, it, ctx):
        var, dom, el = super().spec_domain(it, ctx)
        return var, dom, (el if var is None else self.rv(el, ctx.st))

    # writes -------------------------------------------------------------
    def wr_cell(self, st, loc, sv):
        if self.recording is not None:
            r = st.root(loc.cid)
            self.recording.add(("cell", r))
        st.write(loc.cid, sv)

    def wr_field(self, st, oid, f, v):
        if self.recording is not None:
            self.recording.add(("field", oid, f))
        st.ver += 1
        st.heap[(oid, f)] = v

    def set_local(self, st, name, v):
        decl = self.cur.locals.get(name) if self.cur else None
        if decl and isinstance(v, (SV, PT)) :
            v = self.coerce(v, self.w.tenv.parse(decl), st, spec=True)
            if v.ty.mutable:
                v = st.new_cell(v)
        elif decl and isinstance(v, Loc) and isinstance(st.read(v.cid).ty, EmptyTy):
            st.cells[v.cid] = ("val", self.coerce(st.read(v.cid), self.w.tenv.parse(decl), st))
        fid = st.fid
        # nonlocal handling: only current frame
        if self.recording is not None:
            self.recording.add(("local", fid, name))
        st.ver += 1
        st.frames[fid][1][name] = v

    # ------------------------------------------------------------------
    # expression evaluation (code mode): list of (state, Val|Raise)
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__, e)
        return m(e, st)

    def then(self, rs, f):
        out = []
        for st, v in rs:
            if isinstance(v, Raise):
                out.append((st, v))
            else:
                out.extend(f(st, v))
        return out

    def ev_list(self, es, st):
        rs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in rs:
                if isinstance(vs, Raise):
                    nxt.append((s, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s):
                        if isinstance(v, Raise):
                            nxt.append((s2, v))
                        elif isinstance(v, PT):
                            nxt.append((s2, vs + v.items))
                        else:
                            it = self.iterable(v, s2)
                            if isinstance(it, IConc):
                                nxt.append((s2, vs + it.items))
                            else:
                                nxt.append((s2, vs + [StarV(v)]))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, v if isinstance(v, Raise) else vs + [v]))
            rs = nxt
        return rs

    def e_Constant(self, e, st):
        if e.value is None:
            return [(st, none())]
        if isinstance(e.value, bool):
            return [(st, B(e.value))]
        if isinstance(e.value, int):
            return [(st, I(e.value))]
        if isinstance(e.value, str):
            return [(st, self.strconst(e.value))]
        if isinstance(e.value, float):
            return [(st, SV(OPAQUE, fresh(OPAQUE, "flt")))]
        raise Unsupported("constant", e)

    def e_JoinedStr(self, e, st):
        return [(st, SV(STR, fresh(STR, "fstr")))]

    def e_Name(self, e, st):
        v = st.lookup(e.id)
        if v is not None:
            return [(st, v)]
        return [(st, self.global_name(e.id, st, e))]

    def global_name(self, name, st, e):
        mod = st.minfo()[0]
        if name in self.cur.assume_globals:
            g = self.cur.assume_globals[name]
            key = ("glob", name)
            if key not in st.heap:
                ty = self.w.tenv.parse(g)
                st.heap[key] = SV(ty, z3.Const("glob_" + name, ty.sort()))
            return st.heap[key]
        r = self.w.resolve_import(mod, name)
        if r:
            if r[0] == "class":
                nm = r[1].name
                ty = self.w.tenv.named.get(nm)
                return TypeV(ty=ty, ci=r[1], name=nm)
            if r[0] == "func":
                return FnV("func", fi=r[1])
            if r[0] == "ext":
                return ModV(r[1])
            if r[0] == "mod":
                v = ModV(r[1].name)
                v.mi = r[1]
                return v
            if r[0] == "const":
                cm, cexpr = r[1]
                s2 = St()
                s2.frames[0] = (None, {}, (cm, None))
                s2.fid = 0
                s2.heap = {}
                rs = self.ev(cexpr, s2)
                if len(rs) == 1 and isinstance(rs[0][1], (SV, PT, TypeV)):
                    return rs[0][1]
                raise Unsupported("module constant " + name, e)
        if name in ("int", "bool", "str", "list", "dict", "set", "tuple", "frozenset", "bytes",
                    "deque", "type", "object", "float"):
            return TypeV(ty={"int": INT, "bool": BOOL, "str": STR}.get(name), name=name)
        return FnV("builtin", name=name)

    def e_Attribute(self, e, st):
        def f(s, b):
            return self.get_attr(s, b, e.attr, e)

        return self.then(self.ev(e.value, st), f)

    def get_attr(self, s, b, attr, e):
        if isinstance(b, SV) and isinstance(b.ty, Opt):
            none_b = b.ty.is_none(b.t)
            out = []
            for s2, isn in self.split(s, none_b):
                if isn:
                    out.append((s2, Raise("AttributeError", e)))
                else:
                    out.extend(self.get_attr(s2, SV(b.ty.t, b.ty.val(b.t)), attr, e))
            return out
        if isinstance(b, ModV) and getattr(b, "mi", None) is not None:
            r = self.w.resolve_import(b.mi, attr)
            if r and r[0] == "func":
                return [(s, FnV("func", fi=r[1]))]
            if r and r[0] == "class":
                return [(s, TypeV(ty=self.w.tenv.named.get(r[1].name), ci=r[1], name=r[1].name))]
            raise Unsupported(f"{b.name}.{attr}", e)
        if isinstance(b, ModV):
            return [(s, ModV(b.name + "." + attr))]
        if isinstance(b, Obj):
            v = s.heap.get((b.oid, attr))
            if v is not None:
                return [(s, v)]
            ab = self.w.contracts.get(f"{b.rec}.{attr}")
            if ab:
                if ab.note == "property":
                    return self.call_contract(s, ab, None, [b], {}, e)
                return [(s, FnV("method", con=ab, fi=None, self_=b))]
            rd = self.w.records[b.rec]
            if attr in rd.ghost:
                raise Unsupported("ghost field read in code", e)
            ci = self.obj_class(s, b)
            if ci is not None:
                fi = self.w.find_method(ci, attr)
                if fi is not None:
                    if fi.is_property:
                        return self.call_func(s, fi, [b], {}, e)
                    if fi.is_static:
                        return [(s, FnV("func", fi=fi))]
                    return [(s, FnV("method", con=None, fi=fi, self_=b))]
                c = self.w.find_const(ci, attr)
                if c is not None:
                    s2 = s.copy()
                    s2.fid = s2.new_frame(None, (c[0].module, c[0]))
                    rs = self.ev(c[1], s2)
                    if len(rs) == 1:
                        return [(s, rs[0][1])]
                if attr == "get" and self.w.find_method(ci, "__getitem__") and any(
                        b_ in ("Mapping", "MutableMapping") for c_ in self.w.mro(ci) for b_ in c_.bases):
                    return [(s, FnV("mapping_get", self_=b))]
            if attr == "__class__":
                return [(s, TypeV(ci=ci, name=ci.name if ci else b.rec))]
            return [(s, Raise("AttributeError", e))]
        if isinstance(b, TypeV):
            if b.ci is not None:
                fi = self.w.find_method(b.ci, attr)
                if fi is not None:
                    return [(s, FnV("func", fi=fi))]
                c = self.w.find_const(b.ci, attr)
                if c is not None:
                    if any(x in ("Enum", "IntEnum") for x in b.ci.bases):
                        return [(s, self.strconst(f"{b.ci.name}.{attr}"))]
                    s2 = s.copy()
                    s2.fid = s2.new_frame(None, (c[0].module, c[0]))
                    rs = self.ev(c[1], s2)
                    if len(rs) == 1 and isinstance(rs[0][1], (SV, PT)):
                        return [(s, rs[0][1])]
            if b.ty is not None and (b.ty.name, "cls." + attr) in self.w.attrs:
                return [(s, FnV("clsattr", ty=b.ty, attr=attr))]
            return [(s, FnV("typeattr", t=b, attr=attr))]
        b2 = s.deref(b)
        if isinstance(b2, SV):
            if isinstance(b2.ty, NT):
                i = b2.ty.fidx(attr)
                if i is not None:
                    return [(s, SV(b2.ty.fields[i][1], b2.ty.get(b2.t, i)))]
                if b2.ty.cls:
                    ci = self.w.classinfo(b2.ty.cls)
                    fi = self.w.find_method(ci, attr) if ci else None
                    if fi is not None and fi.is_property:
                        return self.call_func(s, fi, [b2], {}, e)
                    if fi is not None:
                        return [(s, FnV("method", con=None, fi=fi, self_=b2))]
            if (b2.ty.name, attr) in self.w.attrs:
                f, r, a, raises = self.w.attrs[(b2.ty.name, attr)]
                if (b2.ty.name, attr) not in self.w.umethods:
                    if raises:
                        return self.attr_result(s, f(b2.t), r, raises, [b2.t], e)
                    return [(s, SV(r, f(b2.t)))]
            return [(s, FnV("meth", recv=b, attr=attr))]
        if isinstance(b2, (PT, ISeq, ISet, IConc, RefList)):
            return [(s, FnV("meth", recv=b, attr=attr))]
        if isinstance(b2, SuperV):
            fi = self.w.find_method_after(b2.ci, b2.after, attr)
            if fi is None:
                return [(s, FnV("noop"))]
            if fi.is_property:
                return self.call_func(s, fi, [b2.obj], {}, e)
            return [(s, FnV("method", con=None, fi=fi, self_=b2.obj))]
        raise Unsupported(f"attribute {attr} of {b}", e)

    def obj_class(self, s, b):
        src = self.w.records[b.rec].src
        return self.w.classinfo(src) if src else None

    def e_Subscript(self, e, st):
        def f(s, vs):
            b, k = vs
            return self.get_item(s, b, k, e)

        if isinstance(e.slice, ast.Slice):
            return self.e_slice(e, st)
        if isinstance(e.value, ast.Name) and e.value.id[:1].isupper():
            rs = self.ev(e.value, st)
            if len(rs) == 1 and isinstance(rs[0][1], TypeV) and rs[0][1].ci is not None:
                return rs  # a generic class with its type arguments is the class
        return self.then(self.ev_list([e.value, e.slice], st), f)

    def e_slice(self, e, st):
        sl = e.slice
        if sl.step is not None:
            raise Unsupported("slice step", e)
        parts = [e.value] + [x for x in (sl.lower, sl.upper) if x is not None]

        def f(s, vs):
            b = s.deref(vs[0])
            rest = vs[1:]
            if isinstance(b, PT):
                lo = hi = None
                k = 0
                if sl.lower is not None:
                    lo = z3.simplify(rest[k].t).as_long()
                    k += 1
                if sl.upper is not None:
                    hi = z3.simplify(rest[k].t).as_long()
                return [(s, PT(b.items[lo:hi]))]
            if not isinstance(b, SV) or not isinstance(b.ty, (Seq, ITup)):
                raise Unsupported("slice", e)
            if isinstance(b.ty, ITup):
                self.use_type(b.ty)
            if isinstance(b.ty, ITup) and sl.upper is None and isinstance(sl.lower, ast.Constant) and sl.lower.value == 1:
                return [(s, SV(b.ty, self.consfns(b.ty)[0](b.t)))]
            n = b.ty.len(b.t)

            def norm(x):
                x = z3.If(x < 0, x + n, x)
                return z3.If(x < 0, 0, z3.If(x > n, n, x))

            lo = z3.IntVal(0)
            hi = n
            k = 0
            if sl.lower is not None:
                lo = norm(self.coerce(rest[k], INT, s).t)
                k += 1
            if sl.upper is not None:
                hi = norm(self.coerce(rest[k], INT, s).t)
            m = z3.If(hi - lo > 0, hi - lo, 0)
            i = z3.Int("sl_i")
            if getattr(self.w, "name_slices", False) and isinstance(b.ty, ITup):
                t, l0 = fresh(b.ty, "slice"), fresh(INT, "lo")
                s.assume(l0 == lo, b.ty.len(t) == m)
                s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.ty.len(t)), b.ty.at(t, i) == b.ty.at(b.t, l0 + i)), patterns=[b.ty.at(t, i)]))
                s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.ty.len(b.t), l0 <= i, i < l0 + b.ty.len(t)), b.ty.at(t, i - l0) == b.ty.at(b.t, i)), patterns=[b.ty.at(b.t, i)]))
                return [(s, SV(b.ty, t))]
            t = b.ty.mk(m, z3.Lambda([i], b.ty.at(b.t, lo + i)))
            v = SV(b.ty, t)
            return [(s, s.new_cell(v) if b.ty.mutable else v)]

        return self.then(self.ev_list(parts, st), f)

    def get_item(self, s, b, k, e):
        if isinstance(b, Obj):
            ci = self.obj_class(s, b)
            con = self.w.contracts.get(f"{b.rec}.__getitem__")
            if con:
                return self.call_contract(s, con, None, [b, k], {}, e)
            fi = self.w.find_method(ci, "__getitem__") if ci else None
            if fi:
                return self.call_func(s, fi, [b, k], {}, e)
            raise Unsupported("subscript of object", e)
        bv = s.deref(b)
        if isinstance(bv, PT):
            i = z3.simplify(self.coerce(k, INT, s).t)
            if not z3.is_int_value(i):
                raise Unsupported("symbolic index of tuple", e)
            j = i.as_long()
            if -len(bv.items) <= j < len(bv.items):
                return [(s, bv.items[j])]
            return [(s, Raise("IndexError", e))]
        if isinstance(bv, (ISeq,)):
            return [(s, bv.at(s, k.t))]
        if not isinstance(bv, SV):
            raise Unsupported(f"subscript of {bv}", e)
        ty = bv.ty
        if isinstance(ty, Opt):
            return self.get_item(s, self.coerce(bv, ty.t, s), k, e)
        if isinstance(ty, EmptyTy):
            if ty.kind in ("ddict",):
                raise Unsupported("untyped defaultdict", e)
            return [(s, Raise("KeyError" if ty.kind in ("dict",) else "IndexError", e))]
        if isinstance(ty, NT):
            i = z3.simplify(self.coerce(k, INT, s).t)
            j = i.as_long()
            if j < 0:
                j += len(ty.fields)
            return [(s, SV(ty.fields[j][1], ty.get(bv.t, j)))]
        if isinstance(ty, (Seq, ITup)):
            if isinstance(ty, ITup):
                self.use_type(ty)
            i = self.coerce(k, INT, s).t
            n = ty.len(bv.t)
            out = []
            inb = z3.And(0 <= i, i < n)
            for s2, ok in self.split(s, inb):
                if ok:
                    out.append((s2, self.elem_val(s2, b, bv, i)))
                    continue
                for s3, neg in self.split(s2, z3.And(i < 0, i + n >= 0)):
                    if neg:
                        out.append((s3, self.elem_val(s3, b, bv, i + n)))
                    else:
                        out.append((s3, Raise("IndexError", e)))
            return out
        if isinstance(ty, DictT):
            kk = self.coerce(k, ty.k, s).t
            out = []
            for s2, ok in self.split(s, sel(ty.dom(bv.t), kk)):
                if ok:
                    out.append((s2, self.elem_val(s2, b, bv, kk)))
                elif ty.kind == "counter":
                    out.append((s2, I(0)))
                elif ty.kind == "ddict":
                    if not isinstance(b, Loc):
                        raise Unsupported("defaultdict value", e)
                    cur = s2.read(b.cid)
                    new = SV(ty, ty.mk(z3.Store(ty.dom(cur.t), kk, z3.BoolVal(True)),
                                       z3.Store(ty.val(cur.t), kk, default_term(ty.v))))
                    self.wr_cell(s2, b, new)
                    out.append((s2, self.elem_val(s2, b, new, kk)))
                else:
                    out.append((s2, Raise("KeyError", e)))
            return out
        if isinstance(ty, U) and (ty.name, "__getitem__") in self.w.attrs:
            f, r, a, raises = self.w.attrs[(ty.name, "__getitem__")]
            return [(s, SV(r, f(bv.t, self.coerce(k, a[0], s).t)))]
        raise Unsupported(f"subscript of {ty}", e)

    def elem_val(self, s, b, bv, key):
        et = bv.ty.t if isinstance(bv.ty, (Seq, ITup)) else bv.ty.v
        if et.mutable and isinstance(b, Loc):
            return self.view(s, b.cid, key)
        return elem(bv, key)

    def e_Tuple(self, e, st):
        return self.then(self.ev_list(e.elts, st), lambda s, vs: [(s, self.mk_tuple(s, vs))])

    def mk_tuple(self, s, vs):
        if not any(isinstance(v, StarV) for v in vs):
            return PT(vs)
        acc = None
        for v in vs:
            x = self.to_itup(s, v.v) if isinstance(v, StarV) else None
            if x is None:
                t = self.type_of(v, s)
                x = self.coerce(PT([v]), ITup(t), s)
            acc = x if acc is None else self.concat(acc, x, s)
        return acc

    def e_List(self, e, st):
        if self.w.literals and ast.unparse(e) in self.w.literals:
            # a list that is never changed here, taken as one value
            fn, _, r = self.w.ghostfns[self.w.literals[ast.unparse(e)]]
            return [(st, SV(r, fn()))]
        def f(s, vs):
            return [(s, self.mk_list(s, vs))]

        return self.then(self.ev_list(e.elts, st), f)

    def mk_list(self, s, vs):
        if not vs:
            return s.new_cell(SV(EmptyTy("list"), None))
        if any(isinstance(v, StarV) for v in vs):
            raise Unsupported("starred list")
        ts = [self.type_of(v, s) for v in vs]
        if any(t is None or isinstance(t, (Cls, EmptyTy)) for t in ts):
            return PT(vs)  # concrete list of objects (treated as fixed sequence)
        if all(isinstance(v, Loc) for v in vs) and any(self.reachable(s, v.cid) for v in vs):
            if all(isinstance(t, Seq) and t == ts[0] for t in ts):
                return s.new_cell(RefList(ts[0], vs))
            raise Unsupported("list of references")
        ty = ts[0]
        for t in ts[1:]:
            if t != ty:
                if ty == NONE:
                    ty = Opt(t)
                elif t == NONE:
                    ty = Opt(ty)
                elif isinstance(ty, Opt) or isinstance(t, Opt):
                    ty = ty if isinstance(ty, Opt) else t
                else:
                    return PT(vs)
        sv = self.seqlit([self.coerce(v, ty, s).t for v in vs], Seq(ty))
        return s.new_cell(sv)

    def e_Set(self, e, st):
        def f(s, vs):
            ty = self.type_of(vs[0], s)
            t = SetT(ty).empty()
            for v in vs:
                t = z3.Store(t, self.coerce(v, ty, s).t, z3.BoolVal(True))
            return [(s, s.new_cell(SV(SetT(ty), t)))]

        return self.then(self.ev_list(e.elts, st), f)

    def e_Dict(self, e, st):
        if not e.keys:
            return [(st, st.new_cell(SV(EmptyTy("dict"), None)))]
        if any(k is None for k in e.keys[1:]):
            raise Unsupported("dict unpacking", e)
        star = [e.values[0]] if e.keys[0] is None else []
        keys, values = e.keys[len(star):], e.values[len(star):]
        n = len(keys)

        exp = self.expect

        def f(s, vs):
            ks, xs = vs[len(star):len(star) + n], vs[len(star) + n:]
            if star:
                d = s.read(vs[0].cid) if isinstance(vs[0], Loc) else vs[0]
                if isinstance(d, SV) and isinstance(d.ty, EmptyTy) and not n:
                    return [(s, s.new_cell(d))]
                if not isinstance(d, SV) or not isinstance(d.ty, DictT) or d.ty.kind != "dict":
                    raise Unsupported("dict unpacking", e)
                ty, dom, val = d.ty, d.ty.dom(d.t), d.ty.val(d.t)
            else:
                kt, vt = self.type_of(ks[0], s), self.type_of(xs[0], s)
                if isinstance(vt, EmptyTy) and isinstance(exp, DictT):
                    kt, vt = exp.k, exp.v
                if kt is None or vt is None or isinstance(vt, (Cls, EmptyTy)):
                    raise Unsupported("dict literal", e)
                ty = DictT(kt, vt)
                dom, val = ty.dom(ty.empty()), ty.val(ty.empty())
            kt, vt = ty.k, ty.v
            for k, x in zip(ks, xs):
                kk = self.coerce(k, kt, s).t
                dom = z3.Store(dom, kk, z3.BoolVal(True))
                val = z3.Store(val, kk, self.coerce(x, vt, s).t)
            return [(s, s.new_cell(SV(ty, ty.mk(dom, val))))]

        return self.then(self.ev_list(star + list(keys) + list(values), st), f)

    def e_UnaryOp(self, e, st):
        def f(s, v):
            if isinstance(e.op, ast.Not):
                return [(s, B(z3.Not(self.truth(v, s))))]
            if isinstance(e.op, ast.USub):
                return [(s, I(-self.coerce(v, INT, s).t))]
            raise Unsupported("unary", e)

        return self.then(self.ev(e.operand, st), f)

    def e_BoolOp(self, e, st):
        """Short circuit; merges back when the rest is pure and boolean."""
        is_and = isinstance(e.op, ast.And)

        def go(s, es):
            if len(es) == 1:
                return self.ev(es[0], s)

            def f(s1, v):
                t = self.truth(v, s1)
                if z3.is_true(t) or z3.is_false(t):
                    if z3.is_true(t) == is_and:
                        return go(s1, es[1:])
                    return [(s1, v)]
                snap_ver, npc = s1.ver, len(s1.pc)
                # try pure merge
                tr = s1.copy()
                tr.assume(t if is_and else z3.Not(t))
                tver = tr.ver
                nobs = len(self.obs)
                if not self.feasible(tr):
                    return [(s1, v)]
                rs = go(tr, es[1:])
                vb = isinstance(v, SV) and v.ty == BOOL
                if len(rs) == 1 and not isinstance(rs[0][1], Raise) and rs[0][0].ver == tver:
                    s2, v2 = rs[0]
                    if len(s2.pc) == npc + 1 or True:
                        extra = s2.pc[npc + 1:]
                        for x in extra:
                            s1.assume(z3.Implies(t if is_and else z3.Not(t), x))
                        v2d = s2.deref(v2)
                        if vb and isinstance(v2d, SV) and v2d.ty == BOOL:
                            return [(s1, B(mkand([t, v2d.t]) if is_and else mkor([t, v2d.t])))]
                        try:
                            t2 = self.truth(v2d, s2)
                            # value may be non-boolean; only truth matters if types differ
                            m = self.ite(t, v2d, s1.deref(v), s1) if is_and else self.ite(t, s1.deref(v), v2d, s1)
                            return [(s1, m)]
                        except Unsupported:
                            return [(s1, B(mkand([t, t2]) if is_and else mkor([t, t2])))]
                s1.assume(z3.Not(t) if is_and else t)
                out = list(rs)
                if self.feasible(s1):
                    out.append((s1, v))
                return out

            return self.then(self.ev(es[0], s), f)

        return go(st, e.values)

    def e_BinOp(self, e, st):
        def f(s, vs):
            a, b = vs
            x = s.deref(a)
            if isinstance(e.op, ast.Div) and isinstance(x, SV) and isinstance(s.deref(b), SV) and x.ty in (INT, OPAQUE) and s.deref(b).ty == INT:
                # a float: some opaque value
                return [(s2, Raise("ZeroDivisionError", e) if z else SV(OPAQUE, fresh(OPAQUE, "flt"))) for s2, z in self.split(s, s.deref(b).t == 0)]
            if isinstance(e.op, (ast.FloorDiv, ast.Mod)):
                y = s.deref(b)
                if isinstance(y, SV) and y.ty == INT:
                    out = []
                    for s2, z in self.split(s, y.t == 0):
                        if z:
                            out.append((s2, Raise("ZeroDivisionError", e)))
                        else:
                            out.append((s2, self.binop(e.op, a, b, s2, e)))
                    return out
            if isinstance(e.op, ast.Mult) and isinstance(s.deref(a), SV) and isinstance(s.deref(a).ty, Seq):
                return [(s, s.new_cell(self.repeat(s.deref(a), self.coerce(b, INT, s).t)))]
            if isinstance(e.op, ast.Mult) and isinstance(s.deref(a), PT):
                x = s.deref(a)
                n = z3.simplify(self.coerce(b, INT, s).t)
                if z3.is_int_value(n):
                    return [(s, PT(x.items * n.as_long()))]
                if len(x.items) == 1:
                    ty = ITup(self.type_of(x.items[0], s))
                    self.use_type(ty)
                    m = z3.If(n > 0, n, 0)
                    return [(s, SV(ty, ty.mk(m, z3.K(z3.IntSort(), self.coerce(x.items[0], ty.t, s).t))))]
                raise Unsupported("tuple repeat", e)
            r = self.binop(e.op, a, b, s, e)
            if isinstance(r, SV) and r.ty.mutable:
                r = s.new_cell(r)
            return [(s, r)]

        return self.then(self.ev_list([e.left, e.right], st), f)

    def repeat(self, sv, n):
        i = z3.Int("rp_i")
        ln = sv.ty.len(sv.t)
        if z3.is_int_value(z3.simplify(ln)) and z3.simplify(ln).as_long() == 1:
            arr = z3.K(z3.IntSort(), sv.ty.at(sv.t, z3.IntVal(0)))
            return SV(sv.ty, sv.ty.mk(z3.If(n > 0, n, 0), arr))
        raise Unsupported("list repeat")

    def e_Compare(self, e, st):
        def f(s, vs):
            outs = []

            def go(s, k):
                if k == len(e.ops):
                    return [(s, [])]
                op, a, b = e.ops[k], vs[k], vs[k + 1]
                if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, Obj):
                    rs = self.call_method(s, b, "__contains__", [a], {}, e)

                    def g(s2, v):
                        t = self.truth(v, s2)
                        return [(s2, [z3.Not(t) if isinstance(op, ast.NotIn) else t])]

                    return self.then(rs, g)
                if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, Obj) and not (isinstance(b, Obj) and b.oid == a.oid):
                    rs = self.call_method(s, a, "__eq__", [b], {}, e)

                    def g2(s2, v):
                        t = self.truth(v, s2)
                        return [(s2, [z3.Not(t) if isinstance(op, ast.NotEq) else t])]

                    return self.then(rs, g2)
                return [(s, [self.compare(op, a, b, s, e)])]

            rs = [(s, [])]
            for k in range(len(e.ops)):
                nxt = []
                for s1, acc in rs:
                    if isinstance(acc, Raise):
                        nxt.append((s1, acc))
                        continue
                    for s2, c in go(s1, k):
                        nxt.append((s2, c if isinstance(c, Raise) else acc + c))
                rs = nxt
            return [(s2, c if isinstance(c, Raise) else B(mkand(c))) for s2, c in rs]

        return self.then(self.ev_list([e.left] + e.comparators, st), f)

    def e_IfExp(self, e, st):
        def f(s, v):
            out = []
            for s2, b in self.split(s, self.truth(v, s)):
                out.extend(self.ev(e.body if b else e.orelse, s2))
            return out

        return self.then(self.ev(e.test, st), f)

    def e_Lambda(self, e, st):
        return [(st, FnV("closure", args=e.args, body=[ast.Return(value=e.body)], fid=st.fid,
                         name="<lambda>", gen=False))]

    def e_NamedExpr(self, e, st):
        def f(s, v):
            self.set_local(s, e.target.id, v)
            return [(s, v)]

        return self.then(self.ev(e.value, st), f)

    def e_Starred(self, e, st):
        raise Unsupported("starred expression", e)

    def e_Yield(self, e, st):
        def f(s, v):
            self.emit(s, v)
            return [(s, none())]

        if e.value is None:
            raise Unsupported("bare yield", e)
        return self.then(self.ev(e.value, st), f)

    def emit(self, s, v):
        cid = s.ycid
        cur = s.read(cid)
        if isinstance(cur.ty, EmptyTy):
            cur = SV(Seq(self.type_of(v, s)), Seq(self.type_of(v, s)).empty())
        x = self.coerce(v, cur.ty.t, s)
        n = cur.ty.len(cur.t)
        self.wr_cell(s, Loc(cid), SV(cur.ty, cur.ty.mk(n + 1, z3.Store(cur.ty.arr(cur.t), n, x.t))))
        self.has_fact(s, cur.ty, s.read(cid).t, lambda y, has: z3.Or(has(cur.t, y), y == x.t), cur.t)

    def e_YieldFrom(self, e, st):
        def f(s, v):
            it = self.iterable(v, s)
            if isinstance(it, IConc):
                for x in it.items:
                    self.emit(s, x)
                return [(s, none())]
            cid = s.ycid
            cur = s.read(cid)
            seq = self.as_seqval(s, it, cur.ty.t if not isinstance(cur.ty, EmptyTy) else None)
            if isinstance(cur.ty, EmptyTy):
                cur = SV(seq.ty, seq.ty.empty())
            if seq.ty.name in self.w.has_types:
                seq = SV(seq.ty, self.named(s, seq.t))
                self.has_image(s, it, seq)
            res = self.concat_simpl(cur, seq, s)
            if seq.ty.name in self.w.has_types:
                res = SV(res.ty, self.named(s, res.t))
                if not res.t.eq(seq.t):
                    self.has_fact(s, res.ty, res.t, lambda y, has: z3.Or(has(cur.t, y), has(seq.t, y)), cur.t, seq.t)
            self.wr_cell(s, Loc(cid), res)
            return [(s, none())]

        return self.then(self.ev(e.value, st), f)

    def has_image(self, s, it, seq):
        """members of an unfiltered comprehension over a sequence: the images of its members"""
        if not (isinstance(it, Comp) and it.nofilter and isinstance(it.elem, SV) and getattr(it, "src_at", None) is not None):
            return
        sty, src, v = it.src_at
        if sty.name not in self.w.has_types:
            return
        x = z3.Const(f"hi!{nid()}", sty.t.sort())
        body = z3.substitute(it.elem.t, (sty.at(src, v), x))
        if occurs(v, body):
            return
        s.assume(z3.ForAll([x], z3.Implies(self.hasfn(sty)(src, x), self.hasfn(seq.ty)(seq.t, body)), patterns=[self.hasfn(sty)(src, x)]))

    def concat_simpl(self, a, b, s):
        la = z3.simplify(a.ty.len(a.t))
        if z3.is_int_value(la) and la.as_long() == 0:
            return b
        lb = z3.simplify(b.ty.len(b.t))
        if z3.is_int_value(lb):
            arr, n = a.ty.arr(a.t), a.ty.len(a.t)
            for j in range(lb.as_long()):
                arr = z3.Store(arr, n + j, b.ty.at(b.t, z3.IntVal(j)))
            return SV(a.ty, a.ty.mk(n + lb, arr))
        return self.concat(a, b, s)

    # comprehensions -------------------------------------------------------
    def e_GeneratorExp(self, e, st):
        return self.comp(e, st)

    def e_ListComp(self, e, st):
        return self.then(self.comp(e, st), lambda s, c: self.to_list(s, c, e))

    def e_SetComp(self, e, st):
        return self.then(self.comp(e, st), lambda s, c: self.to_set(s, c, e))

    def e_DictComp(self, e, st):
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()),
                             generators=e.generators)
        ast.copy_location(g, e)

        def f(s, c):
            return self.comp_to_dict(s, c, e)

        return self.then(self.comp(g, st), f)

    def comp_to_dict(self, s, c, e):
        if isinstance(c, IConc):
            kt = self.type_of(c.items[0].items[0], s) if c.items else None
            if kt is None:
                return [(s, s.new_cell(SV(EmptyTy("dict"), None)))]
            vt = self.type_of(c.items[0].items[1], s)
            if isinstance(vt, EmptyTy) and isinstance(self.expect, DictT):
                vt = self.expect.v
            if any(isinstance(it.items[1], Loc) and self.reachable(s, it.items[1].cid) for it in c.items):
                raise Unsupported("container stored in two places", e)
            ty = DictT(kt, vt)
            d, v = ty.dom(ty.empty()), ty.val(ty.empty())
            for it in c.items:
                k = self.coerce(it.items[0], kt, s).t
                d = z3.Store(d, k, z3.BoolVal(True))
                v = z3.Store(v, k, self.coerce(it.items[1], vt, s).t)
            return [(s, s.new_cell(SV(ty, ty.mk(d, v))))]
        k, x = [s.deref(y) for y in c.elem.items]
        kt, vt = self.type_of(k, s), self.type_of(x, s)
        ty = DictT(kt, vt)
        kt_, xt = self.coerce(k, kt, s).t, self.coerce(x, vt, s).t
        r = fresh(ty, "dcomp")
        y = z3.Const(f"dk!{nid()}", kt.sort())
        s.assume(z3.ForAll([y], sel(ty.dom(r), y) == z3.Exists(c.vars, z3.And(c.dom, kt_ == y))))
        if len(c.vars) == 1 and kt_.eq(c.vars[0]):
            s.assume(z3.ForAll(c.vars, z3.Implies(c.dom, sel(ty.val(r), kt_) == xt)))
        elif len(c.vars) == 1 and c.iseq_n is not None and z3.is_int(c.vars[0]):
            # last occurrence wins
            i = c.vars[0]
            j = z3.Int(f"dj!{nid()}")
            later = z3.Exists([j], z3.And(j > i, z3.substitute(c.dom, (i, j)),
                                          z3.substitute(kt_, (i, j)) == kt_))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(c.dom, z3.Not(later)), sel(ty.val(r), kt_) == xt)))
        else:
            s.assume(z3.ForAll([y], z3.Implies(sel(ty.dom(r), y), z3.Exists(
                c.vars, z3.And(c.dom, kt_ == y, sel(ty.val(r), y) == xt)))))
        return [(s, s.new_cell(SV(ty, r)))]

    def comp(self, e, st):
        """-> [(st, Comp|IConc|Raise)]; element must be pure (single feasible path)."""
        if self.comp_effects is not None:
            return self._comp(e, st, 0, [], [])
        self.comp_effects = []
        try:
            rs = self._comp(e, st, 0, [], [])
            effects = self.comp_effects
        finally:
            self.comp_effects = None
        if isinstance(e, ast.GeneratorExp):
            for s, v in rs:
                if isinstance(v, Comp):
                    v.takes = [(con, names) for con, names, _ in effects]
        done = set()
        for con, names, _ in effects:
            if (con.target, names["self"].oid) in done:
                continue
            done.add((con.target, names["self"].oid))
            for s, v in rs:
                old = s.copy()
                s.ver += 1
                self.havoc_modifies(s, con, names)
                ctx = SCtx(self, s, old, {"self": names["self"]}, {"self": names["self"]})
                for lab, ex in con.repeat:
                    s.assume(self.spec_bool(ex, ctx))
                if con.use_inv and con.keep_inv:
                    for lab, ex in self.inv_exprs(names["self"]):
                        s.assume(self.spec_bool(ex, ctx))
        if not isinstance(e, ast.GeneratorExp):
            # every element has been taken: what each call establishes holds of all of them
            for con, names, dom in effects:
                if dom is None:
                    continue
                for s, v in rs:
                    for lab, ex in con.repeat_each:
                        ctx = SCtx(self, s, None, names)
                        s.assume(z3.ForAll(dom[0], z3.Implies(dom[1], self.spec_bool(ex, ctx))))
        return rs

    def _comp(self, e, st, gi, vars_, doms):
        if gi == 0:
            def f(s, itv):
                return self._comp_gen(e, s, 0, [], [], itv, None)
            return self.then(self.ev(e.generators[0].iter, st), f)

    def _comp_gen(self, e, s, gi, vars_, doms, itv, scope):
        itv = self.iter_any(itv, s, e)
        g = e.generators[gi]
        if isinstance(itv, ISeq) and len(e.generators) == 1:
            n = z3.simplify(itv.n(s))
            if z3.is_int_value(n) and n.as_long() <= 4:
                itv = IConc([self.rv(itv.at(s, z3.IntVal(i)), s) for i in range(n.as_long())])
        if isinstance(itv, IConc) and len(e.generators) == 1:
            out = [(s, [])]
            for x in itv.items:
                nxt = []
                for s1, acc in out:
                    if isinstance(acc, Raise):
                        nxt.append((s1, acc))
                        continue
                    nxt.extend(self._comp_conc_item(e, g, s1, x, acc))
                out = nxt
            return [(s1, acc if isinstance(acc, Raise) else IConc(acc)) for s1, acc in out]
        if isinstance(itv, IConc):
            itv = self.conc_to_seq(itv, s)
        # symbolic single element
        tr = s.copy()
        tr.fid = tr.new_frame(s.fid, s.minfo())
        iseq_n = None
        if isinstance(itv, Comp):
            # nested lazily: reuse vars
            vs = [z3.Const(f"c!{nid()}", v.sort()) for v in itv.vars]
            dom = z3.substitute(itv.dom, *zip(itv.vars, vs))
            el = itv.elem
            for a, b in zip(itv.vars, vs):
                el = subst_val(el, a, b)
            newv = vs
            if itv.nofilter:
                iseq_n = itv.iseq_n
            for con, names in getattr(itv, "takes", []):
                for a, b in zip(itv.vars, vs):
                    names = {k: subst_val(x, a, b) for k, x in names.items()}
                self.comp_effects.append((con, names, (vs, dom) if len(vars_) == 0 else None))
        elif isinstance(itv, ISeq):
            i = z3.Int(f"c!{nid()}")
            iseq_n = itv.n(tr)
            dom = z3.And(0 <= i, i < iseq_n)
            el = self.rv(itv.at(tr, i), tr)
            newv = [i]
            if itv.takes is not None:
                for con, names in itv.takes(i):
                    self.comp_effects.append((con, names, ([i], dom) if len(vars_) == 0 else None))
        elif isinstance(itv, ISet):
            x = z3.Const(f"c!{nid()}", itv.kty.sort())
            dom = itv.member(x)
            el = self.rv(itv.mk(x), tr)
            newv = [x]
        else:
            raise Unsupported("comprehension iterable", e)
        tr.assume(dom)
        ver0 = tr.ver
        self.bind_target(tr, g.target, el, e)
        tr.ver = ver0
        doms2 = list(doms) + [dom]
        npc = len(tr.pc)
        fresh0 = fresh_mark()
        pending = [tr]
        # filters
        for c in g.ifs:
            nxt = []
            for t in pending:
                rs = self.ev(c, t)
                if len(rs) != 1 or isinstance(rs[0][1], Raise) or rs[0][0].ver != ver0:
                    return self._comp_fail(e, s, rs, ver0)
                t2, v = rs[0]
                cond = self.truth(v, t2)
                doms2.append(cond)
                t2.assume(cond)
                nxt.append(t2)
            pending = nxt
        tr = pending[0]
        if gi + 1 < len(e.generators):
            rs = self.ev(e.generators[gi + 1].iter, tr)
            if len(rs) != 1 or isinstance(rs[0][1], Raise):
                return self._comp_fail(e, s, rs, ver0)
            out = []
            for t3, r in self._comp_gen(e, rs[0][0], gi + 1, vars_ + newv, doms2, rs[0][1], None):
                if isinstance(r, Raise):
                    return self._comp_fail(e, s, [(t3, r)], ver0)
                return [(s, r)]
        tr0 = tr.copy() if id(e) in self.eager else tr
        rs = self.ev(e.elt, tr)
        good = [(t, v) for t, v in rs if not isinstance(v, Raise)]
        bad = [(t, v) for t, v in rs if isinstance(v, Raise)]
        allv = vars_ + newv
        if any(t.ver != ver0 for t, v in rs):
            # an element may change the entry it was given, in a comprehension consumed at once: the other
            # entries are then unknown, and so is the container afterwards
            tr = tr0
            roots = self._own_entry(tr, rs, newv) if id(e) in self.eager and gi == 0 and len(e.generators) == 1 and isinstance(itv, ISeq) else None
            if roots is None:
                raise Unsupported("comprehension element with side effects", e)
            for cid in roots:
                sv = tr.read(cid)
                other = fresh(sv.ty, "mix")
                k = z3.Int(f"mx!{nid()}")
                tr.cells[cid] = ("val", SV(sv.ty, sv.ty.mk(sv.ty.len(sv.t), z3.Lambda([k], z3.If(k == newv[0], sv.ty.at(sv.t, newv[0]), sv.ty.at(other, k))))))
                after = fresh(sv.ty, "mixed")
                s.assume(*wf(sv.ty, after))
                s.assume(sv.ty.len(after) == sv.ty.len(sv.t))
                self.wr_cell(s, Loc(cid), SV(sv.ty, after))
            rs = self.ev(e.elt, tr)
            good = [(t, v) for t, v in rs if not isinstance(v, Raise)]
            bad = [(t, v) for t, v in rs if isinstance(v, Raise)]
        for t, v in bad:
            # the raise must be impossible (no handler reasoning for comprehensions)
            self.need(t, z3.BoolVal(False), f"no {v.exc} in comprehension", "noraise", e)
        if not good:
            return [(s, IConc([]))]
        base, elemref = len(s.pc), None
        # merge multiple good paths with ite on their path conditions
        if len(good) == 1:
            t, v = good[0]
            if isinstance(v, Loc) and t.cells[v.cid][0] == "view" and len(allv) == 1 and t.cells[v.cid][2].eq(newv[0]):
                elemref = (t.cells[v.cid][1], newv[0])
            v = t.deref(v) if isinstance(v, Loc) else v
            val = self.freeze(v, t)
            facts = t.pc[npc:]
        else:
            val = None
            facts = []
            for t, v in reversed(good):
                fz = self.freeze(v, t)
                cond = mkand(t.pc[npc:])
                val = fz if val is None else self.ite(cond, fz, val, t)
        # facts learned while evaluating (callee results): guard by domain, quantify
        facts = [f for f in facts if not any(f.eq(d) for d in doms2)]
        if len(good) == 1 and facts:
            sk = self._skolems(facts, val, fresh0)
            if sk:
                fs = {}
                for c in sk:
                    f = z3.Function(f"sk!{nid()}", *[v.sort() for v in allv], c.sort())
                    fs[c] = f(*allv)
                pairs = [(c, x) for c, x in fs.items()]
                facts = [z3.substitute(f, *pairs) for f in facts]
                for c, x in pairs:
                    val = subst_val(val, c, x)
            s.assume(z3.ForAll(allv, z3.Implies(mkand(doms2), mkand(facts))))
        nofilter = not g.ifs and len(e.generators) == 1
        if len(allv) == 1 and len(g.ifs) == 1 and len(doms2) == 2 and iseq_n is not None and z3.is_int(allv[0]):
            # all positions but one: again a sequence, with the later positions moved up
            v, k = allv[0], self._all_but(doms2[1], allv[0])
            if k is not None and z3.simplify(doms2[0]).eq(z3.simplify(z3.And(0 <= v, v < iseq_n))):
                u = z3.Int(f"c!{nid()}")
                n2 = iseq_n - z3.If(z3.And(0 <= k, k < iseq_n), 1, 0)
                val = subst_val(val, v, z3.If(z3.And(0 <= k, k <= u), u + 1, u))
                return [(s, Comp([u], z3.And(0 <= u, u < n2), val, s, n2, True))]
        c = Comp(allv, mkand(doms2), val, s, iseq_n if len(allv) == 1 else None, nofilter)
        if isinstance(itv, ISeq) and nofilter and isinstance(itv.src, (Loc, SV)):
            b = s.deref(itv.src)
            if isinstance(b, SV) and isinstance(b.ty, Seq) and el.t.eq(b.ty.at(b.t, newv[0])):
                c.src_at = (b.ty, b.t, newv[0])
        c.elemref = elemref
        return [(s, c)]

    eager = ()

    def _own_entry(self, tr, rs, newv):
        """containers of which evaluating the element changed the entry at the current position only, or None"""
        roots = set()
        for t, v in rs:
            if any(t.heap.get(k) is not x for k, x in tr.heap.items()) or len(t.heap) != len(tr.heap):
                return None
            for c, d in tr.cells.items():
                d2 = t.cells.get(c)
                if d2 is d or d[0] == "view":
                    continue
                a, b = d[1], d2[1]
                if not isinstance(a.ty, Seq) or not a.ty.t.mutable:
                    return None
                if a.t.eq(b.t):
                    continue
                k = z3.Int(f"oe!{nid()}")
                if not self.entails(t, z3.And(a.ty.len(a.t) == a.ty.len(b.t), z3.ForAll([k], z3.Implies(k != newv[0], a.ty.at(a.t, k) == a.ty.at(b.t, k))))):
                    return None
                roots.add(c)
        return roots

    def _all_but(self, cond, v):
        """k when the condition is v != k"""
        cond = z3.simplify(cond)
        if z3.is_not(cond) and z3.is_eq(cond.arg(0)):
            a, b = cond.arg(0).children()
            if b.eq(v):
                a, b = b, a
            if a.eq(v) and not _mentions(b, v):
                return b
        return None

    def _skolems(self, facts, val, after):
        seen = {}

        def walk(t):
            stack = [t]
            vis = set()
            while stack:
                x = stack.pop()
                if x.get_id() in vis:
                    continue
                vis.add(x.get_id())
                if z3.is_quantifier(x):
                    stack.append(x.body())
                    continue
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = x.decl().name()
                    if "~" in n and int(n.rsplit("~", 1)[1]) >= after:
                        seen[n] = x
                elif z3.is_app(x):
                    stack.extend(x.children())

        for f in facts:
            walk(f)
        return list(seen.values())

    def _comp_fail(self, e, s, rs, ver0):
        raise Unsupported("comprehension with branching filter", e)

    def _comp_conc_item(self, e, g, s1, x, acc):
        s2 = s1.copy()
        old = s2.fid
        s2.fid = s2.new_frame(old, s2.minfo())
        self.bind_target(s2, g.target, x, e)
        rs = [(s2, True)]
        for c in g.ifs:
            nxt = []
            for s3, ok in rs:
                if ok is not True:
                    nxt.append((s3, ok))
                    continue
                for s4, v in self.ev(c, s3):
                    if isinstance(v, Raise):
                        nxt.append((s4, v))
                        continue
                    for s5, b in self.split(s4, self.truth(v, s4)):
                        nxt.append((s5, b))
            rs = nxt
        out = []
        for s3, ok in rs:
            if ok is True:
                for s4, v in self.ev(e.elt, s3):
                    s4.fid = old
                    out.append((s4, v if isinstance(v, Raise) else acc + [v]))
            else:
                s3.fid = old
                out.append((s3, ok if isinstance(ok, Raise) else acc))
        return out

    def freeze(self, v, st):
        """Turn pointers in v into values."""
        if isinstance(v, Loc):
            return st.read(v.cid)
        if isinstance(v, PT):
            return PT([self.freeze(x, st) for x in v.items])
        if isinstance(v, Obj):
            raise Unsupported("objects inside comprehension")
        return v

    def iter_any(self, v, s, e):
        if isinstance(v, Obj):
            rs = self.call_method(s, v, "__iter__", [], {}, e)
            if len(rs) != 1 or isinstance(rs[0][1], Raise):
                raise Unsupported("object iteration", e)
            return self.iterable(rs[0][1], s)
        return self.iterable(v, s)

    # conversions of iterables ------------------------------------------------
    def as_seqval(self, s, it, ty=None):
        """ISeq/Comp(no filter)/... -> SV Seq; adds facts for unordered sources."""
        if isinstance(it, Comp):
            if it.nofilter and it.iseq_n is not None:
                el = it.elem
                if isinstance(el, PT):
                    t = ty or self.type_of(el, s)
                    el = self.coerce(el, t, s, spec=True)
                elif ty is not None:
                    el = self.coerce(el, ty, s, spec=True)
                return SV(Seq(el.ty), Seq(el.ty).mk(it.iseq_n, z3.Lambda(it.vars, el.t)))
            t = ty or self.type_of(it.elem, s)
            el = self.coerce(it.elem, t, s, spec=True)
            r = fresh(Seq(t), "fl")
            sty = Seq(t)
            i = z3.Int(f"fl_i{nid()}")
            y = z3.Const(f"fl_y{nid()}", t.sort())
            s.assume(sty.len(r) >= 0)
            if len(it.vars) == 1 and it.iseq_n is not None and z3.is_int(it.vars[0]):
                # a subsequence: src/dst relate positions of the result and of the source, in order
                src = z3.Function(f"src!{nid()}", z3.IntSort(), z3.IntSort())
                dst = z3.Function(f"dst!{nid()}", z3.IntSort(), z3.IntSort())
                v = it.vars[0]
                sub = lambda x, k: z3.substitute(x, (v, k))
                j = z3.Int(f"fl_j{nid()}")
                inr = lambda k: z3.And(0 <= k, k < sty.len(r))
                s.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(sub(it.dom, src(i)), sty.at(r, i) == sub(el.t, src(i)),
                                                                  dst(src(i)) == i)), patterns=[sty.at(r, i)]))
                s.assume(z3.ForAll([v], z3.Implies(it.dom, z3.And(inr(dst(v)), src(dst(v)) == v, sty.at(r, dst(v)) == el.t))))
                s.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), src(i) < src(j)),
                                   patterns=[z3.MultiPattern(src(i), src(j))]))
                s.assume(sty.len(r) <= it.iseq_n)
                return SV(sty, r)
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sty.len(r)),
                                               z3.Exists(it.vars, z3.And(it.dom, sty.at(r, i) == el.t)))))
            s.assume(z3.ForAll(it.vars, z3.Implies(it.dom, z3.Exists([i], z3.And(
                0 <= i, i < sty.len(r), sty.at(r, i) == el.t)))))
            if len(it.vars) == 1 and it.iseq_n is not None:
                s.assume(sty.len(r) <= it.iseq_n)
            return SV(sty, r)
        if isinstance(it, ISeq):
            n = it.n(s)
            i = z3.Int(f"ls_i{nid()}")
            el = self.rv(it.at(s, i), s)
            el = self.freeze(el, s)
            t = ty or self.type_of(el, s)
            el = self.coerce(el, t, s, spec=True)
            nn = z3.simplify(n)
            if z3.is_int_value(nn) and nn.as_long() <= 6:
                return self.seqlit([z3.substitute(el.t, (i, z3.IntVal(k))) for k in range(nn.as_long())], Seq(t))
            sty = Seq(t)
            if el.t.decl().kind() == z3.Z3_OP_SELECT and el.t.arg(1).eq(i) and not _mentions(el.t.arg(0), i):
                return SV(sty, sty.mk(n, el.t.arg(0)))
            return SV(sty, sty.mk(n, z3.Lambda([i], el.t)))
        if isinstance(it, ISet):
            x = z3.Const(f"st_x{nid()}", it.kty.sort())
            el = self.freeze(self.rv(it.mk(x), s), s)
            t = ty or self.type_of(el, s)
            el = self.coerce(el, t, s, spec=True)
            sty = Seq(t)
            r = fresh(sty, "enum")
            idx = z3.Function(f"idx!{nid()}", it.kty.sort(), z3.IntSort())
            key = z3.Function(f"key!{nid()}", z3.IntSort(), it.kty.sort())
            i = z3.Int(f"en_i{nid()}")
            s.assume(sty.len(r) >= 0)
            # bijection between indices and members
            s.assume(z3.ForAll([x], z3.Implies(it.member(x), z3.And(
                0 <= idx(x), idx(x) < sty.len(r), key(idx(x)) == x, sty.at(r, idx(x)) == el.t)),
                patterns=[idx(x)] if False else []))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sty.len(r)), z3.And(
                it.member(key(i)), idx(key(i)) == i,
                sty.at(r, i) == z3.substitute(el.t, (x, key(i)))))))
            mem = it.member(x)
            base = None
            if z3.is_app(mem) and mem.decl().kind() == z3.Z3_OP_SELECT and mem.arg(1).eq(x):
                base = mem.arg(0)
                s.assume(sty.len(r) == self.card(SetT(it.kty), base, s))
            return SV(sty, r)
        if isinstance(it, IConc):
            if not it.items:
                return SV(Seq(ty), Seq(ty).empty()) if ty else SV(EmptyTy("list"), None)
            t = ty or self.type_of(it.items[0], s)
            return self.seqlit([self.coerce(x, t, s).t for x in it.items], Seq(t))
        raise Unsupported("sequence conversion")

    def to_list(self, s, v, e, ty=None):
        it = self.iter_any(v, s, e)
        if isinstance(it, ISet) and it.src is not None and ty is None:
            el = it.mk(z3.Const("probe", it.kty.sort()))
            if isinstance(el, ViewSpec) or isinstance(el, PT) and any(isinstance(y, ViewSpec) for y in el.items):
                # list(d.items()) of nested containers: snapshot of keys with live views
                return [(s, ISet(it.kty, it.member, it.mk, src=it.src, live=None))]
        if isinstance(it, IConc) and any(isinstance(s.deref(x), (Obj, FnV)) for x in it.items):
            return [(s, PT(it.items))]
        sv = self.as_seqval(s, it, ty)
        if isinstance(it, ISeq) and isinstance(it.src, SV) and isinstance(it.src.ty, ITup):
            sv.src = it.src
        return [(s, s.new_cell(sv))]

    def to_itup(self, s, v):
        v2 = s.deref(v)
        if isinstance(v2, SV) and isinstance(v2.ty, ITup):
            return v2
        if isinstance(v2, SV) and v2.src is not None and isinstance(v2.src.ty, ITup):
            return v2.src
        it = self.iterable(v, s)
        if isinstance(it, Comp) and it.nofilter and isinstance(self.expect, (Seq, ITup)):
            el = s.deref(it.elem)
            if isinstance(el, SV) and isinstance(el.ty, EmptyTy):
                return self.as_seqval(s, it, self.expect.t)  # tuple of fresh empty containers
        sv = self.as_seqval(s, it)
        if isinstance(sv.ty, EmptyTy):
            raise Unsupported("empty tuple of unknown type")
        ty = ITup(sv.ty.t)
        self.use_type(ty)
        return SV(ty, ty.mk(sv.ty.len(sv.t), sv.ty.arr(sv.t)))

    def to_set(self, s, v, e):
        it = self.iter_any(v, s, e)
        if isinstance(it, IConc):
            if not it.items:
                return [(s, s.new_cell(SV(EmptyTy("set"), None)))]
            ty = self.type_of(it.items[0], s)
            t = SetT(ty).empty()
            for x in it.items:
                t = z3.Store(t, self.coerce(x, ty, s).t, z3.BoolVal(True))
            return [(s, s.new_cell(SV(SetT(ty), t)))]
        if isinstance(it, ISet):
            x = z3.Const("set_x", it.kty.sort())
            el = it.mk(x)
            if isinstance(el, SV) and el.t.eq(x):
                m = it.member(x)
                if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_SELECT and m.arg(1).eq(x):
                    return [(s, s.new_cell(SV(SetT(it.kty), m.arg(0))))]
                return [(s, s.new_cell(SV(SetT(it.kty), z3.Lambda([x], m))))]
        if isinstance(it, ISeq):
            i = z3.Int(f"se_i{nid()}")
            el = self.freeze(self.rv(it.at(s, i), s), s)
            vars_, dom = [i], z3.And(0 <= i, i < it.n(s))
        elif isinstance(it, ISet):
            x = z3.Const(f"se_x{nid()}", it.kty.sort())
            el = self.freeze(self.rv(it.mk(x), s), s)
            vars_, dom = [x], it.member(x)
        elif isinstance(it, Comp):
            vars_, dom, el = it.vars, it.dom, it.elem
        else:
            raise Unsupported("set()", e)
        ty = self.type_of(el, s)
        el = self.coerce(el, ty, s, spec=True)
        r = fresh(SetT(ty), "setof")
        y = z3.Const(f"se_y{nid()}", ty.sort())
        s.assume(z3.ForAll(vars_, z3.Implies(dom, sel(r, el.t))))
        s.assume(z3.ForAll([y], z3.Implies(sel(r, y), z3.Exists(vars_, z3.And(dom, el.t == y)))))
        n = it.n(s) if isinstance(it, ISeq) else it.iseq_n if isinstance(it, Comp) and it.nofilter else None
        if n is not None and len(vars_) == 1 and z3.is_int(vars_[0]):
            # as many as there are positions only if the elements are pairwise different
            a, b = z3.Int(f"se_a{nid()}"), z3.Int(f"se_b{nid()}")
            ea, eb = z3.substitute(el.t, (vars_[0], a)), z3.substitute(el.t, (vars_[0], b))
            c = self.card(SetT(ty), r, s)
            s.assume(c <= n, z3.ForAll([a, b], z3.Implies(z3.And(c == n, 0 <= a, a < b, b < n), ea != eb)))
        return [(s, s.new_cell(SV(SetT(ty), r)))]

    # targets -----------------------------------------------------------------
    def bind_target(self, s, target, v, e):
        """Bind for comprehension/for targets (names and tuples only)."""
        if isinstance(target, ast.Name):
            self.set_local(s, target.id, v)
            return
        if isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(v, Loc):
                v = s.read(v.cid)
            for t, x in zip(target.elts, self.untuple(v, len(target.elts))):
                self.bind_target(s, t, x, e)
            return
        raise Unsupported("target", e)
