"""Typing, equality, arithmetic, iteration over symbolic values."""
import ast

import z3

from .spec import mkand, mkor
from .ty import *
from .vals import *
from .world import Unsupported

_card_fns = {}


class Ops:
    def strconst(self, s):
        if s not in self.strs:
            self.strs[s] = z3.Const(f"str!{len(self.strs)}", STR.sort())
        return SV(STR, self.strs[s])

    # coercion ------------------------------------------------------------
    def coerce(self, v, ty, st, spec=False):
        """Value of v at type ty (SV). Narrowing of opt/union emits an obligation in code mode."""
        if isinstance(v, Loc):
            v = st.read(v.cid)
        if isinstance(v, Comp):
            raise Unsupported("comprehension used as value")
        if isinstance(v, FnV) and v.kind == "method" and isinstance(ty, U) and isinstance(v.self_, Obj):
            # a bound method handed over as an opaque function: the object's ghost field bound_<method>
            nm = "bound_" + (v.fi.name if v.fi is not None else "?")
            if self.w.records[v.self_.rec].ghost.get(nm) == ty.name:
                return st.heap[(v.self_.oid, nm)]
        if isinstance(v, ModV) and isinstance(ty, U) and not spec:
            return SV(ty, z3.Const("ext:" + v.name, ty.sort()))  # something imported, handed on: one opaque value
        if isinstance(v, SV):
            if v.ty == ty:
                return v
            if v.ty == INT and isinstance(ty, U) and ty.name + "_of_int" in self.w.ghostfns:
                return SV(ty, self.w.ghostfns[ty.name + "_of_int"][0](v.t))
            if isinstance(v.ty, EmptyTy):
                if isinstance(ty, (Seq, SetT, DictT)):
                    return SV(ty, ty.empty())
                if isinstance(ty, ITup):
                    return self.itup([], ty)
                if isinstance(ty, Opt):
                    return SV(ty, ty.some(self.coerce(v, ty.t, st, spec).t))
            if isinstance(ty, Opt):
                if v.ty == NONE:
                    return SV(ty, ty.none())
                return SV(ty, ty.some(self.coerce(v, ty.t, st, spec).t))
            if isinstance(ty, Union):
                k = ty.idx(v.ty)
                if k is not None:
                    return SV(ty, ty.inj(k, v.t))
                for k, t in enumerate(ty.ts):
                    try:
                        return SV(ty, ty.inj(k, self.coerce(v, t, st, spec).t))
                    except Unsupported:
                        continue
            if isinstance(v.ty, Opt):
                if not spec:
                    self.need(st, z3.Not(v.ty.is_none(v.t)), "value is not None", "type")
                return self.coerce(SV(v.ty.t, v.ty.val(v.t)), ty, st, spec)
            if isinstance(v.ty, Union):
                k = v.ty.idx(ty)
                if k is not None:
                    if not spec:
                        self.need(st, v.ty.is_k(k, v.t), f"value is a {ty}", "type")
                    return SV(ty, v.ty.out(k, v.t))
            if ty == INT and v.ty == BOOL:
                return SV(INT, z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
            if isinstance(ty, Seq) and isinstance(v.ty, Seq) and v.ty.t == NONE:
                pass
            if isinstance(ty, DictT) and isinstance(v.ty, DictT) and ty.k == v.ty.k and ty.v == v.ty.v:
                return SV(ty, ty.mk(v.ty.dom(v.t), v.ty.val(v.t)))
            if ty == OPAQUE:
                return SV(OPAQUE, fresh(OPAQUE, "opq"))
            if isinstance(v.ty, NT) and isinstance(ty, NT) and len(v.ty.fields) == len(ty.fields):
                parts = [SV(t, v.ty.get(v.t, i)) for i, (_, t) in enumerate(v.ty.fields)]
                return self.coerce(PT(parts), ty, st, spec)
            if isinstance(v.ty, NT) and isinstance(ty, ITup) and v.ty.name.startswith("tuple["):
                return self.coerce(PT([SV(t, v.ty.get(v.t, i)) for i, (_, t) in enumerate(v.ty.fields)]), ty, st, spec)
            if isinstance(v.ty, Seq) and isinstance(ty, Seq):
                i = z3.Int("cv_i")
                el = self.coerce(SV(v.ty.t, v.ty.at(v.t, i)), ty.t, st, spec=True)
                return SV(ty, ty.mk(v.ty.len(v.t), z3.Lambda([i], el.t)))
        if isinstance(v, PT):
            if isinstance(ty, NT) and len(v.items) == len(ty.fields):
                return SV(ty, ty.mk(*[self.coerce(x, t, st, spec).t
                                      for x, (_, t) in zip(v.items, ty.fields)]))
            if isinstance(ty, ITup):
                return self.itup([self.coerce(x, ty.t, st, spec).t for x in v.items], ty)
            if isinstance(ty, Seq):
                return self.seqlit([self.coerce(x, ty.t, st, spec).t for x in v.items], ty)
            if isinstance(ty, (Opt, Union)):
                sub = [ty.t] if isinstance(ty, Opt) else ty.ts
                for k, t in enumerate(sub):
                    try:
                        x = self.coerce(v, t, st, spec).t
                        return SV(ty, ty.some(x) if isinstance(ty, Opt) else ty.inj(k, x))
                    except Unsupported:
                        pass
        if ty == OPAQUE:
            return SV(OPAQUE, fresh(OPAQUE, "opq"))
        if isinstance(v, TypeV):
            raise Unsupported(f"type object used as {ty}")
        raise Unsupported(f"cannot use {v} as {ty}")

    def itup(self, terms, ty):
        self.use_type(ty)
        arr = z3.K(z3.IntSort(), default_term(ty.t))
        for i, t in enumerate(terms):
            arr = z3.Store(arr, i, t)
        return SV(ty, ty.mk(z3.IntVal(len(terms)), arr))

    def seqlit(self, terms, ty):
        arr = z3.K(z3.IntSort(), default_term(ty.t))
        for i, t in enumerate(terms):
            arr = z3.Store(arr, i, t)
        return SV(ty, ty.mk(z3.IntVal(len(terms)), arr))

    def use_type(self, ty):
        if isinstance(ty, ITup) and ty.name not in self.axiom_types:
            self.axiom_types.add(ty.name)
            self.ax.extend(ty.axioms())

    def type_of(self, v, st):
        v = st.deref(v)
        if isinstance(v, SV):
            return v.ty
        if isinstance(v, PT):
            ts = [self.type_of(x, st) for x in v.items]
            for t in ts:
                if t is None:
                    return None
            return TupT(ts)
        if isinstance(v, Obj):
            return Cls(v.rec)
        return None

    def type_test(self, v, ty):
        if isinstance(v, Obj):
            return z3.BoolVal(isinstance(ty, Cls) and ty.name == v.rec)
        if isinstance(v, PT):
            return z3.BoolVal(isinstance(ty, (NT, ITup)))
        if isinstance(v.ty, Union):
            k = v.ty.idx(ty)
            alts = [v.ty.is_k(k, v.t)] if k is not None else []
            if ty == INT and v.ty.idx(BOOL) is not None:
                alts.append(v.ty.is_k(v.ty.idx(BOOL), v.t))
            return mkor(alts)
        if isinstance(v.ty, Opt):
            return z3.And(z3.Not(v.ty.is_none(v.t)), self.type_test(SV(v.ty.t, v.ty.val(v.t)), ty))
        if (v.ty.name, "isa_" + ty.name) in self.w.attrs:
            return self.w.attrs[(v.ty.name, "isa_" + ty.name)][0](v.t)
        return z3.BoolVal(v.ty == ty or (ty == INT and v.ty == BOOL))

    # truth / compare -----------------------------------------------------
    def truth(self, v, st):
        v = st.deref(v)
        if isinstance(v, PT):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, (Obj, FnV, TypeV)):
            return z3.BoolVal(True)
        if isinstance(v, SV):
            ty = v.ty
            if ty == BOOL:
                return v.t
            if ty == INT:
                return v.t != 0
            if ty == NONE:
                return z3.BoolVal(False)
            if isinstance(ty, EmptyTy):
                return z3.BoolVal(False)
            if isinstance(ty, Opt):
                inner = self.truth(SV(ty.t, ty.val(v.t)), st)
                return z3.And(z3.Not(ty.is_none(v.t)), inner)
            if isinstance(ty, Seq):
                return ty.len(v.t) > 0
            if isinstance(ty, ITup):
                self.use_type(ty)
                return ty.len(v.t) > 0
            if isinstance(ty, SetT):
                return v.t != ty.empty()
            if isinstance(ty, DictT):
                return ty.dom(v.t) != z3.K(ty.k.sort(), z3.BoolVal(False))
            if isinstance(ty, NT):
                return z3.BoolVal(len(ty.fields) > 0)
            if ty == OPAQUE or ty == STR:
                return z3.Const(f"opqb!{nid()}", z3.BoolSort())
            if isinstance(ty, U):
                return z3.BoolVal(True)
        raise Unsupported(f"truth of {v}")

    def eq(self, a, b, st, spec=False):
        a, b = st.deref(a), st.deref(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj) and isinstance(b, Obj):
                if a.oid == b.oid:
                    return z3.BoolVal(True)
                raise Unsupported("equality of two objects")
            return z3.BoolVal(False)
        if isinstance(a, SV) and isinstance(b, SV) and a.ty == STR and b.ty == STR:
            lits = [x for x in self.strs.values() if x.eq(a.t) or x.eq(b.t)]
            if len(lits) == 2:
                return z3.BoolVal(False)  # two different literals
        for u, v in ((a, b), (b, a)):
            if isinstance(u, SV) and isinstance(v, SV) and v.ty == INT and isinstance(u.ty, U) and u.ty.name + "_of_int" in self.w.ghostfns:
                return u.t == self.w.ghostfns[u.ty.name + "_of_int"][0](v.t)
        if isinstance(a, TypeV) or isinstance(b, TypeV):
            if isinstance(a, TypeV) and isinstance(b, TypeV):
                return z3.BoolVal((a.ci and b.ci and a.ci.name == b.ci.name) or (a.ty is not None and a.ty == b.ty))
            raise Unsupported("type equality")
        if isinstance(a, PT) and isinstance(b, PT):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return mkand([self.eq(x, y, st, spec) for x, y in zip(a.items, b.items)])
        if isinstance(a, PT):
            a, b = b, a
        if isinstance(b, PT):
            if isinstance(a.ty, (ITup,)):
                self.use_type(a.ty)
                return mkand([a.ty.len(a.t) == len(b.items)] + [
                    self.eq(SV(a.ty.t, a.ty.at(a.t, z3.IntVal(i))), x, st, spec)
                    for i, x in enumerate(b.items)])
            if isinstance(a.ty, (Seq, SetT, DictT, EmptyTy)):
                return z3.BoolVal(False)  # tuple never equals a list
            if a.ty == NONE:
                return z3.BoolVal(False)
            return a.t == self.coerce(b, a.ty, st, spec=True).t
        if a.ty == b.ty:
            if isinstance(a.ty, Seq):
                i = z3.Int(f"eq_i{nid()}")
                return z3.And(
                    a.ty.len(a.t) == b.ty.len(b.t),
                    z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.ty.len(a.t)),
                                              a.ty.at(a.t, i) == a.ty.at(b.t, i))))
            if isinstance(a.ty, DictT):
                k = z3.Const(f"eq_k{nid()}", a.ty.k.sort())
                return z3.And(
                    a.ty.dom(a.t) == a.ty.dom(b.t),
                    z3.ForAll([k], z3.Implies(sel(a.ty.dom(a.t), k),
                                              sel(a.ty.val(a.t), k) == sel(a.ty.val(b.t), k))))
            if isinstance(a.ty, ITup):
                self.use_type(a.ty)
            return a.t == b.t
        if isinstance(a.ty, EmptyTy) or isinstance(b.ty, EmptyTy):
            if isinstance(a.ty, EmptyTy):
                a, b = b, a
            if isinstance(a.ty, (Seq, SetT, DictT)):
                return z3.Not(self.truth(a, st))
            return z3.BoolVal(isinstance(a.ty, EmptyTy) and a.ty.kind == b.ty.kind)
        if a.ty == NONE or b.ty == NONE:
            x = b if a.ty == NONE else a
            if isinstance(x.ty, Opt):
                return x.ty.is_none(x.t)
            if isinstance(x.ty, Union) and x.ty.idx(NONE) is not None:
                return x.ty.is_k(x.ty.idx(NONE), x.t)
            return z3.BoolVal(False)
        if isinstance(a.ty, Opt) or isinstance(a.ty, Union):
            return a.t == self.coerce(b, a.ty, st, spec=True).t
        if isinstance(b.ty, Opt) or isinstance(b.ty, Union):
            return b.t == self.coerce(a, b.ty, st, spec=True).t
        if a.ty in (INT, BOOL) and b.ty in (INT, BOOL):
            return self.coerce(a, INT, st).t == self.coerce(b, INT, st).t
        if isinstance(a.ty, (Seq, SetT, DictT)) != isinstance(b.ty, (Seq, SetT, DictT)):
            return z3.BoolVal(False)
        if isinstance(a.ty, DictT) and isinstance(b.ty, DictT):
            return self.eq(a, self.coerce(b, a.ty, st, spec=True), st)
        raise Unsupported(f"equality of {a.ty} and {b.ty}")

    def lt(self, a, b, st):
        """strict order on ints / bools / tuples of them"""
        a, b = st.deref(a), st.deref(b)
        if isinstance(a, SV) and isinstance(a.ty, NT):
            a = PT(self.untuple(a, len(a.ty.fields)))
        if isinstance(b, SV) and isinstance(b.ty, NT):
            b = PT(self.untuple(b, len(b.ty.fields)))
        if isinstance(a, PT) and isinstance(b, PT):
            res = z3.BoolVal(len(a.items) < len(b.items))
            for x, y in reversed(list(zip(a.items, b.items))):
                res = mkor([self.lt(x, y, st), mkand([self.eq(x, y, st), res])])
            return res
        if isinstance(a, SV) and a.ty == OPAQUE or isinstance(b, SV) and b.ty == OPAQUE:
            return z3.Const(f"opqb!{nid()}", z3.BoolSort())
        if isinstance(a, SV) and isinstance(a.ty, ITup):
            f = z3.Function("lex_" + a.ty._id(), a.ty.sort(), a.ty.sort(), z3.BoolSort())
            return f(a.t, b.t)
        return self.coerce(a, INT, st).t < self.coerce(b, INT, st).t

    def compare(self, op, a, b, st, node, spec=False):
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.eq(a, b, st, spec)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return z3.Not(self.eq(a, b, st, spec))
        if isinstance(op, ast.In):
            return self.contains(a, b, st, spec)
        if isinstance(op, ast.NotIn):
            return z3.Not(self.contains(a, b, st, spec))
        da, db = st.deref(a), st.deref(b)
        if isinstance(da, SV) and isinstance(da.ty, SetT) and isinstance(db, SV) and isinstance(db.ty, SetT):
            x = z3.Const(f"ss!{nid()}", da.ty.t.sort())
            sub = z3.ForAll([x], z3.Implies(sel(da.t, x), sel(db.t, x)))
            sup = z3.ForAll([x], z3.Implies(sel(db.t, x), sel(da.t, x)))
            if isinstance(op, ast.LtE):
                return sub
            if isinstance(op, ast.GtE):
                return sup
            if isinstance(op, ast.Lt):
                return z3.And(sub, da.t != db.t)
            return z3.And(sup, da.t != db.t)
        if spec:
            a, b = self.strip_opt(da), self.strip_opt(db)
        if isinstance(op, ast.Lt):
            return self.lt(a, b, st)
        if isinstance(op, ast.Gt):
            return self.lt(b, a, st)
        if isinstance(op, ast.LtE):
            return self.le(a, b, st)
        if isinstance(op, ast.GtE):
            return self.le(b, a, st)
        raise Unsupported("comparison", node)

    def le(self, a, b, st):
        a, b = st.deref(a), st.deref(b)
        if isinstance(a, SV) and isinstance(b, SV) and a.ty in (INT, BOOL) and b.ty in (INT, BOOL):
            return self.coerce(a, INT, st).t <= self.coerce(b, INT, st).t
        if isinstance(a, SV) and isinstance(a.ty, Opt):
            return self.le(self.coerce(a, a.ty.t, st), b, st)
        if isinstance(b, SV) and isinstance(b.ty, Opt):
            return self.le(a, self.coerce(b, b.ty.t, st), st)
        if isinstance(a, SV) and isinstance(a.ty, ITup):
            return z3.Not(self.lt(b, a, st))
        return mkor([self.lt(a, b, st), self.eq(a, b, st)])

    def contains(self, x, c, st, spec=False):
        c = st.deref(c)
        if isinstance(c, SV) and isinstance(c.ty, Opt):
            c = self.coerce(c, c.ty.t, st, spec)
        if isinstance(c, SV):
            ty = c.ty
            if isinstance(ty, EmptyTy):
                return z3.BoolVal(False)
            if isinstance(ty, SetT):
                k = self.try_coerce(x, ty.t, st)
                return z3.BoolVal(False) if k is None else sel(c.t, k)
            if isinstance(ty, DictT):
                k = self.try_coerce(x, ty.k, st)
                return z3.BoolVal(False) if k is None else sel(ty.dom(c.t), k)
            if isinstance(ty, (Seq, ITup)):
                if isinstance(ty, ITup):
                    self.use_type(ty)
                i = z3.Int(f"in_i{nid()}")
                return z3.Exists([i], z3.And(0 <= i, i < ty.len(c.t),
                                             self.eq(SV(ty.t, ty.at(c.t, i)), x, st, spec)))
            if isinstance(ty, NT):
                return mkor([self.eq(x, p, st, spec) for p in self.untuple(c, len(ty.fields))])
        if isinstance(c, PT):
            return mkor([self.eq(x, y, st, spec) for y in c.items])
        if isinstance(c, IConc):
            return mkor([self.eq(x, y, st, spec) for y in c.items])
        if isinstance(c, ISeq):
            i = z3.Int(f"in_i{nid()}")
            return z3.Exists([i], z3.And(0 <= i, i < c.n(st), self.eq(c.at(st, i), x, st, spec)))
        if isinstance(c, ISet):
            k = z3.Const(f"in_k{nid()}", c.kty.sort())
            return z3.Exists([k], z3.And(c.member(k), self.eq(c.mk(k), x, st, spec)))
        if isinstance(c, Comp):
            return z3.Exists(c.vars, z3.And(c.dom, self.eq(c.elem, x, st, spec)))
        raise Unsupported(f"membership in {c}")

    def try_coerce(self, x, ty, st):
        try:
            return self.coerce(x, ty, st, spec=True).t
        except Unsupported:
            tx = self.type_of(x, st)
            if tx is None:
                raise
            if isinstance(tx, (Opt, Union)) or isinstance(ty, (Opt, Union)):
                raise
            return None

    def ite(self, c, a, b, st):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        a, b = st.deref(a), st.deref(b)
        if isinstance(a, PT) and isinstance(b, PT) and len(a.items) == len(b.items):
            return PT([self.ite(c, x, y, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, SV) and isinstance(b, SV):
            if a.ty == b.ty:
                return SV(a.ty, z3.If(c, a.t, b.t))
            if isinstance(b.ty, Opt) and b.ty.t == a.ty and c.eq(b.ty.is_none(b.t)):
                return SV(a.ty, z3.If(c, a.t, b.ty.val(b.t)))
            if isinstance(a.ty, Opt) and a.ty.t == b.ty and c.eq(z3.Not(a.ty.is_none(a.t))):
                return SV(b.ty, z3.If(c, a.ty.val(a.t), b.t))
            if a.ty == NONE:
                t = b.ty if isinstance(b.ty, Opt) else Opt(b.ty)
            elif b.ty == NONE:
                t = a.ty if isinstance(a.ty, Opt) else Opt(a.ty)
            elif isinstance(a.ty, Opt) or isinstance(a.ty, U) and b.ty == INT:
                t = a.ty
            else:
                t = b.ty
            return SV(t, z3.If(c, self.coerce(a, t, st, True).t, self.coerce(b, t, st, True).t))
        ta, tb = self.type_of(a, st), self.type_of(b, st)
        t = ta if isinstance(ta, (ITup, Opt)) else tb
        if t is not None:
            return SV(t, z3.If(c, self.coerce(a, t, st, True).t, self.coerce(b, t, st, True).t))
        raise Unsupported("conditional value")

    # arithmetic ----------------------------------------------------------
    def binop_attr(self, op, a, b, st):
        """operators of an uninterpreted type declared with w.attr(T, '__add__', T, args=(T,)); ints through T_of_int"""
        nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.FloorDiv: "__floordiv__", ast.Mod: "__mod__",
              ast.Div: "__truediv__", ast.Pow: "__pow__"}.get(type(op))
        for v in (a, b):
            if isinstance(v, SV) and (v.ty.name, nm) in self.w.attrs:
                f, r, at, _ = self.w.attrs[(v.ty.name, nm)]
                lit = self.w.ghostfns.get(v.ty.name + "_of_int")
                ts = []
                for x, t in ((a, v.ty), (b, at[0])):
                    if isinstance(x, SV) and x.ty == INT and t == v.ty and lit is not None:
                        ts.append(lit[0](x.t))
                    else:
                        ts.append(self.coerce(x, t, st).t)
                return SV(r, f(*ts))
        return None

    def binop(self, op, a, b, st, node):
        a, b = st.deref(a), st.deref(b)
        if isinstance(a, SV) and isinstance(a.ty, Opt):
            a = self.coerce(a, a.ty.t, st)
        if isinstance(b, SV) and isinstance(b.ty, Opt):
            b = self.coerce(b, b.ty.t, st)
        if isinstance(a, PT) and isinstance(b, PT) and isinstance(op, ast.Add):
            return PT(a.items + b.items)
        if isinstance(op, ast.Add) and (self._seqlike(a) or self._seqlike(b)):
            return self.concat(a, b, st)
        u = self.binop_attr(op, a, b, st)
        if u is not None:
            return u
        if isinstance(a, SV) and isinstance(b, SV):
            if isinstance(a.ty, SetT) and isinstance(b.ty, SetT):
                x = z3.Const(f"sx!{nid()}", a.ty.t.sort())
                if isinstance(op, ast.BitOr):
                    return SV(a.ty, z3.Lambda([x], z3.Or(sel(a.t, x), sel(b.t, x))))
                if isinstance(op, ast.BitAnd):
                    return SV(a.ty, z3.Lambda([x], z3.And(sel(a.t, x), sel(b.t, x))))
                if isinstance(op, ast.Sub):
                    return SV(a.ty, z3.Lambda([x], z3.And(sel(a.t, x), z3.Not(sel(b.t, x)))))
            if OPAQUE in (a.ty, b.ty) or STR in (a.ty, b.ty):
                t = STR if STR in (a.ty, b.ty) else OPAQUE
                return SV(t, fresh(t, "opq"))
            x, y = self.coerce(a, INT, st).t, self.coerce(b, INT, st).t
            if isinstance(op, ast.Add):
                return I(x + y)
            if isinstance(op, ast.Sub):
                return I(x - y)
            if isinstance(op, ast.Mult):
                return I(x * y)
            if isinstance(op, ast.FloorDiv):
                if z3.is_int_value(y) and y.as_long() > 0:
                    return I(x / y)
                return I(z3.If(y > 0, x / y, (-x) / (-y)))
            if isinstance(op, ast.Mod):
                if z3.is_int_value(y) and y.as_long() > 0:
                    return I(x % y)
        raise Unsupported(f"operator {type(op).__name__} on {a},{b}", node)

    def _seqlike(self, v):
        return isinstance(v, SV) and isinstance(v.ty, (Seq, ITup))

    def concat(self, a, b, st):
        ta, tb = self.type_of(a, st), self.type_of(b, st)
        ty = ta if isinstance(ta, (Seq, ITup)) else tb
        a0 = a if isinstance(a, PT) else None
        if self._seqlike(a) and self._seqlike(b) and type(ta) is type(tb) and NONE in (ta.t, tb.t) and ta.t != tb.t:
            t = tb.t if ta.t == NONE else ta.t
            ty = type(ta)(t if isinstance(t, Opt) else Opt(t))
            self.use_type(ty)
            a, b = self._elems_as(a, ty, st), self._elems_as(b, ty, st)
        for x, y in ((a, b), (b, a)):
            if self._seqlike(x) and x.ty.t == NONE and isinstance(y, PT) and y.items:
                t = self.type_of(y.items[0], st)
                ty = type(x.ty)(t if isinstance(t, Opt) or t == NONE else Opt(t))
                self.use_type(ty)
        a, b = (self._elems_as(x, ty, st) if self._seqlike(x) and x.ty.t == NONE else x for x in (a, b))
        a, b = self.coerce(a, ty, st), self.coerce(b, ty, st)
        if isinstance(ty, ITup):
            self.use_type(ty)
        if isinstance(ty, ITup) and a0 is not None and len(a0.items) == 1 and not isinstance(b, PT):
            return SV(ty, self.consfns(ty)[1](ty.at(a.t, z3.IntVal(0)) if not isinstance(a0.items[0], SV) else self.coerce(a0.items[0], ty.t, st).t, b.t))
        i = z3.Int("cc_i")
        n = ty.len(a.t)
        if getattr(self.w, "name_slices", False) and isinstance(ty, ITup) and z3.is_const(a.t) and z3.is_const(b.t):
            c = fresh(ty, "concat")
            st.assume(ty.len(c) == n + ty.len(b.t))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.len(c)), ty.at(c, i) == z3.If(i < n, ty.at(a.t, i), ty.at(b.t, i - n))), patterns=[ty.at(c, i)]))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), ty.at(c, i) == ty.at(a.t, i)), patterns=[ty.at(a.t, i)]))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.len(b.t)), ty.at(c, n + i) == ty.at(b.t, i)), patterns=[ty.at(b.t, i)]))
            return SV(ty, c)
        arr = z3.Lambda([i], z3.If(i < n, ty.at(a.t, i), ty.at(b.t, i - n)))
        return SV(ty, ty.mk(n + ty.len(b.t), arr))

    def _elems_as(self, v, ty, st):
        """the same sequence with its entries as values of a wider type (None and x as optional x)"""
        if v.ty == ty:
            return v
        self.use_type(v.ty)
        i = z3.Int("ea_i")
        return SV(ty, ty.mk(v.ty.len(v.t), z3.Lambda([i], self.coerce(SV(v.ty.t, v.ty.at(v.t, i)), ty.t, st).t)))

    def consfns(self, ty):
        """(tl, cons) of an immutable tuple type: t[1:] and (x,) + t"""
        nm = ty.t._id()
        S = ty.sort()
        tl = z3.Function("tl_" + nm, S, S)
        cons = z3.Function("cons_" + nm, ty.t.sort(), S, S)
        if "cons_" + nm not in self.axiom_types:
            self.axiom_types.add("cons_" + nm)
            self.use_type(ty)
            t, x, i = z3.Const("cn_t", S), z3.Const("cn_x", ty.t.sort()), z3.Int("cn_i")
            z = z3.IntVal(0)
            self.ax += [
                z3.ForAll([t], ty.len(tl(t)) == z3.If(ty.len(t) > 0, ty.len(t) - 1, 0), patterns=[tl(t)]),
                z3.ForAll([t, i], z3.Implies(z3.And(0 <= i, i + 1 < ty.len(t)), ty.at(tl(t), i) == ty.at(t, i + 1)), patterns=[ty.at(tl(t), i)]),
                z3.ForAll([t, x], z3.And(ty.len(cons(x, t)) == ty.len(t) + 1, ty.at(cons(x, t), z) == x, tl(cons(x, t)) == t), patterns=[cons(x, t)]),
                z3.ForAll([t, x, i], z3.Implies(z3.And(1 <= i, i <= ty.len(t)), ty.at(cons(x, t), i) == ty.at(t, i - 1)), patterns=[ty.at(cons(x, t), i)]),
                z3.ForAll([t], z3.Implies(ty.len(t) > 0, cons(ty.at(t, z), tl(t)) == t), patterns=[tl(t)]),
            ]
        return tl, cons

    def length(self, v, st):
        if isinstance(v, PT):
            return z3.IntVal(len(v.items))
        if isinstance(v, IConc):
            return z3.IntVal(len(v.items))
        if isinstance(v, ISeq):
            return v.n(st)
        if isinstance(v, SV):
            ty = v.ty
            if isinstance(ty, Opt):
                return self.length(SV(ty.t, ty.val(v.t)), st)
            if isinstance(ty, EmptyTy):
                return z3.IntVal(0)
            if isinstance(ty, Seq):
                return ty.len(v.t)
            if isinstance(ty, ITup):
                self.use_type(ty)
                return ty.len(v.t)
            if isinstance(ty, NT):
                return z3.IntVal(len(ty.fields))
            if isinstance(ty, SetT):
                return self.card(ty, v.t, st)
            if isinstance(ty, DictT):
                return self.card(SetT(ty.k), ty.dom(v.t), st)
        raise Unsupported(f"len of {v}")

    def card(self, ty, t, st=None):
        """number of elements; st given: t is the value of a Python container, hence finite"""
        s = ty.t.sort()
        nm = ty.t._id()
        if nm not in _card_fns:
            _card_fns[nm] = z3.Function("card_" + nm, ty.sort(), z3.IntSort())
        f = _card_fns[nm]
        fin = self.finfn(ty)
        if ("card", nm) not in self.axiom_types:
            self.axiom_types.add(("card", nm))
            S = z3.Const("cd_S", ty.sort())
            x = z3.Const("cd_x", s)
            self.ax += [
                z3.ForAll([S], z3.Implies(fin(S), f(S) >= 0), patterns=[f(S)]),
                f(ty.empty()) == 0,
                z3.ForAll([S], z3.Implies(z3.And(fin(S), f(S) == 0), S == ty.empty()), patterns=[f(S)]),
                z3.ForAll([S, x], f(z3.Store(S, x, z3.BoolVal(True))) == f(S) + z3.If(S[x], 0, 1),
                          patterns=[f(z3.Store(S, x, z3.BoolVal(True)))]),
                z3.ForAll([S, x], f(z3.Store(S, x, z3.BoolVal(False))) == f(S) - z3.If(S[x], 1, 0),
                          patterns=[f(z3.Store(S, x, z3.BoolVal(False)))]),
            ]
        if st is not None:
            st.assume(fin(t))
        return f(t)

    def finfn(self, ty):
        nm = "finite_" + ty.t._id()
        fin = z3.Function(nm, ty.sort(), z3.BoolSort())
        if nm not in self.axiom_types:
            self.axiom_types.add(nm)
            S, x, b = z3.Const("fi_S", ty.sort()), z3.Const("fi_x", ty.t.sort()), z3.Bool("fi_b")
            self.ax += [fin(ty.empty()),
                        z3.ForAll([S, x, b], fin(z3.Store(S, x, b)) == fin(S), patterns=[fin(z3.Store(S, x, b))])]
        return fin

    def indexof(self, ty, t, x):
        """some position of x in the sequence t, when it has one"""
        nm = "indexof_" + ty._id()
        f = z3.Function(nm, ty.sort(), ty.t.sort(), z3.IntSort())
        if nm not in self.axiom_types:
            self.axiom_types.add(nm)
            S, y = z3.Const("io_s", ty.sort()), z3.Const("io_x", ty.t.sort())
            m, k = z3.Int("io_m"), f(S, y)
            self.ax.append(z3.ForAll([S, y], z3.Implies(
                z3.Exists([m], z3.And(0 <= m, m < ty.len(S), ty.at(S, m) == y)),
                z3.And(0 <= k, k < ty.len(S), ty.at(S, k) == y)), patterns=[k]))
        return f(t, x)

    def hasfn(self, ty):
        """some position of the sequence holds the element"""
        nm = "has_" + ty._id()
        f = z3.Function(nm, ty.sort(), ty.t.sort(), z3.BoolSort())
        if nm not in self.axiom_types:
            self.axiom_types.add(nm)
            S, y = z3.Const("ha_s", ty.sort()), z3.Const("ha_x", ty.t.sort())
            self.ax.append(z3.ForAll([S, y], z3.Implies(f(S, y), ty.len(S) > 0), patterns=[f(S, y)]))
        return f

    def hposfn(self, ty):
        """position of an element that the sequence has"""
        f, has = z3.Function("hpos_" + ty._id(), ty.sort(), ty.t.sort(), z3.IntSort()), self.hasfn(ty)
        if "hpos_" + ty._id() not in self.axiom_types:
            self.axiom_types.add("hpos_" + ty._id())
            S, y = z3.Const("ha_s", ty.sort()), z3.Const("ha_x", ty.t.sort())
            self.ax.append(z3.ForAll([S, y], z3.Implies(has(S, y), z3.And(0 <= f(S, y), f(S, y) < ty.len(S), ty.at(S, f(S, y)) == y)), patterns=[has(S, y)]))
        return f

    # iteration -----------------------------------------------------------
    def iterable(self, v, st):
        if isinstance(v, (ISeq, ISet, IConc, Comp)):
            return v
        if isinstance(v, PT):
            return IConc(v.items)
        if isinstance(v, Loc):
            ty = st.read(v.cid).ty
            if isinstance(ty, EmptyTy):
                return IConc([])
            if isinstance(ty, Seq):
                cid = v.cid
                if ty.t.mutable:
                    return ISeq(lambda s: ty.len(s.read(cid).t),
                                lambda s, i: self.view(s, cid, i), src=v)
                return ISeq(lambda s: ty.len(s.read(cid).t),
                            lambda s, i: SV(ty.t, ty.at(s.read(cid).t, i)), src=v)
            if isinstance(ty, SetT):
                t = st.read(v.cid).t
                return ISet(ty.t, lambda x: sel(t, x), lambda x: SV(ty.t, x), src=v,
                            live=(v.cid, t))
            if isinstance(ty, DictT):
                t = ty.dom(st.read(v.cid).t)
                return ISet(ty.k, lambda x: sel(t, x), lambda x: SV(ty.k, x), src=v,
                            live=(v.cid, t))
        if isinstance(v, SV):
            ty = v.ty
            if isinstance(ty, Opt):
                return self.iterable(self.coerce(v, ty.t, st), st)
            if isinstance(ty, EmptyTy):
                return IConc([])
            if isinstance(ty, ITup):
                self.use_type(ty)
                return ISeq(lambda s: ty.len(v.t), lambda s, i: SV(ty.t, ty.at(v.t, i)), src=v)
            if isinstance(ty, Seq):
                return ISeq(lambda s: ty.len(v.t), lambda s, i: SV(ty.t, ty.at(v.t, i)), src=v)
            if isinstance(ty, SetT):
                return ISet(ty.t, lambda x: sel(v.t, x), lambda x: SV(ty.t, x), src=v)
            if isinstance(ty, DictT):
                t = ty.dom(v.t)
                return ISet(ty.k, lambda x: sel(t, x), lambda x: SV(ty.k, x), src=v)
            if isinstance(ty, NT):
                return IConc(self.untuple(v, len(ty.fields)))
            it = self.w.attrs.get((ty.name, "__iter__"))
            if it is not None and isinstance(it[1], ITup) and not it[2] and not it[3]:
                return self.iterable(SV(it[1], it[0](v.t)), st)
        if isinstance(v, Obj):
            raise Unsupported(f"iteration over object {v.rec}")
        raise Unsupported(f"iteration over {v}")

    def dict_iter(self, v, what, loc=None):
        """v: SV of DictT"""
        ty = v.ty
        if isinstance(ty, EmptyTy):
            return IConc([])
        dom, val = ty.dom(v.t), ty.val(v.t)
        live = (loc.cid, dom) if loc is not None else None
        if what == "keys":
            return ISet(ty.k, lambda x: sel(dom, x), lambda x: SV(ty.k, x), src=loc, live=live)
        if loc is not None and ty.v.mutable:
            mkv = ("view", loc.cid)
        else:
            mkv = None
        def mkval(x):
            if mkv:
                return ViewSpec(mkv[1], x, ty.v)
            return SV(ty.v, sel(val, x))
        if what == "values":
            return ISet(ty.k, lambda x: sel(dom, x), lambda x: mkval(x), src=loc, live=live)
        r = ISet(ty.k, lambda x: sel(dom, x), lambda x: PT([SV(ty.k, x), mkval(x)]), src=loc, live=live)
        r.dsrc = (v, what)
        return r

    def view(self, st, cid, key):
        c = nid()
        st.cells[c] = ("view", cid, key)
        return Loc(c)

    def pure_builtin(self, n, args, st, node):
        if n == "len":
            return I(self.length(st.deref(args[0]), st))
        if n == "abs":
            x = self.coerce(args[0], INT, st).t
            return I(z3.If(x >= 0, x, -x))
        if n == "range":
            a = [self.coerce(x, INT, st).t for x in args]
            if len(a) == 1:
                lo, hi = z3.IntVal(0), a[0]
            elif len(a) == 2:
                lo, hi = a
            else:
                lo, hi, step = a
                if not (z3.is_int_value(z3.simplify(step))):
                    raise Unsupported("range step", node)
                s = z3.simplify(step).as_long()
                if s == -1:
                    return ISeq(lambda st_: z3.If(lo - hi > 0, lo - hi, 0), lambda st_, i: I(lo - i))
                if s != 1:
                    raise Unsupported("range step", node)
            zero = z3.is_int_value(lo) and lo.as_long() == 0
            length = hi if zero else hi - lo
            r = ISeq(lambda st_: z3.If(length > 0, length, z3.IntVal(0)) if not z3.is_int_value(z3.simplify(hi - lo))
                        else z3.IntVal(max(0, z3.simplify(hi - lo).as_long())), lambda st_, i: I(lo + i if not zero else i))
            r.bounds = (lo, hi)
            return r
        if n == "enumerate":
            it = self.iterable(args[0], st)
            if isinstance(it, IConc):
                return IConc([PT([I(i), x]) for i, x in enumerate(it.items)])
            if not isinstance(it, ISeq):
                raise Unsupported("enumerate over a set", node)
            return ISeq(it.n, lambda s, i: PT([I(i), it.at(s, i)]), src=it.src)
        if n == "zip":
            its = [self.iterable(a, st) for a in args]
            if all(isinstance(x, IConc) for x in its):
                return IConc([PT(list(t)) for t in zip(*[x.items for x in its])])
            its = [self.conc_to_seq(x, st) if isinstance(x, IConc) else x for x in its]
            its = [self.comp_seq(x, st) if isinstance(x, Comp) else x for x in its]
            if not all(isinstance(x, ISeq) for x in its):
                raise Unsupported("zip over a set", node)

            def n_(s):
                r = its[0].n(s)
                for x in its[1:]:
                    m = x.n(s)
                    r = z3.If(r <= m, r, m)
                return r

            r = ISeq(n_, lambda s, i: PT([x.at(s, i) for x in its]))
            if any(x.takes for x in its):
                r.takes = lambda i: [c for x in its if x.takes for c in x.takes(i)]
            return r
        if n in ("min", "max") and len(args) >= 2:
            r = args[0]
            for x in args[1:]:
                c = self.lt(r, x, st) if n == "max" else self.lt(x, r, st)
                r = self.ite(c, x, r, st)
            return r
        raise Unsupported("builtin " + n, node)

    def conc_to_seq(self, c, st):
        if not c.items:
            return ISeq(lambda s: z3.IntVal(0), lambda s, i: I(0))
        ty = self.type_of(c.items[0], st)
        sv = self.seqlit([self.coerce(x, ty, st).t for x in c.items], Seq(ty))
        return ISeq(lambda s: sv.ty.len(sv.t), lambda s, i: SV(ty, sv.ty.at(sv.t, i)))

    def comp_seq(self, c, st):
        if c.iseq_n is None or not c.nofilter:
            raise Unsupported("filtered comprehension as sequence")
        v = c.vars[0]
        n = c.iseq_n
        elem = c.elem
        if isinstance(elem, Loc) and c.st is not None:
            elem = c.st.deref(elem)
        elif isinstance(elem, Loc):
            raise Unsupported("comprehension of containers as sequence")

        def at(s, i):
            return subst_val(elem, v, i)

        r = ISeq(lambda s: n, at)
        if getattr(c, "takes", None):
            r.takes = lambda i: [(con, {k: subst_val(x, v, i) for k, x in names.items()}) for con, names in c.takes]
        return r


class ViewSpec(Val):
    """A nested container to be turned into a view once the key is bound."""

    def __init__(self, cid, key, ty):
        self.cid, self.key, self.ty = cid, key, ty


def subst_val(v, var, by):
    if isinstance(v, SV):
        return SV(v.ty, z3.substitute(v.t, (var, by)))
    if isinstance(v, PT):
        return PT([subst_val(x, var, by) for x in v.items])
    if isinstance(v, ViewSpec):
        return ViewSpec(v.cid, z3.substitute(v.key, (var, by)), v.ty)
    return v
