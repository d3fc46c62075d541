"""Evaluation of specification expressions (pure, total, single result)."""
import ast

import z3

from .ty import *
from .vals import *
from .world import Unsupported


class SCtx:
    def __init__(self, eng, st, old=None, names=None, old_names=None, rec_self=None):
        self.eng, self.st, self.old = eng, st, old
        self.names = names or {}
        self.old_names = old_names

    def sub(self, extra):
        n = dict(self.names)
        n.update(extra)
        c = SCtx(self.eng, self.st, self.old, n, self.old_names)
        return c


class SpecEval:
    """Mixin for Engine."""

    def spec_bool(self, src, ctx):
        e = ast.parse(src.strip(), mode="eval").body if isinstance(src, str) else src
        return self.truth(self.sev(e, ctx), ctx.st)

    def sval(self, v, ctx):
        """Loc -> value"""
        return ctx.st.deref(v)

    def sev(self, e, ctx):
        m = getattr(self, "s_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("spec expression " + type(e).__name__, e)
        return m(e, ctx)

    def s_Constant(self, e, ctx):
        if e.value is None:
            return none()
        if isinstance(e.value, bool):
            return B(e.value)
        if isinstance(e.value, int):
            return I(e.value)
        if isinstance(e.value, str):
            return self.strconst(e.value)
        raise Unsupported("constant", e)

    def s_Name(self, e, ctx):
        if e.id in ctx.names:
            return ctx.names[e.id]
        if e.id == "_yield" and getattr(ctx.st, "ycid", None) is not None:
            return Loc(ctx.st.ycid)
        v = ctx.st.lookup(e.id)
        if v is None:
            for f in reversed(ctx.st.stack):
                v = ctx.st.lookup(e.id, f)
                if v is not None:
                    break
        if v is None:
            if e.id in self.ghost_env:
                return self.ghost_env[e.id]
            if e.id in ("True", "False"):
                return B(e.id == "True")
            if e.id in getattr(self.cur, "locals", {}) and ctx.st.stack == self.entry.stack and not self.w.tenv.parse(self.cur.locals[e.id]).mutable:
                # a declared local that is not bound yet: any value
                ty = self.w.tenv.parse(self.cur.locals[e.id])
                return SV(ty, fresh(ty, "unbound_" + e.id))
            raise NameMissing(e.id)
        return v

    def s_Attribute(self, e, ctx):
        b = self.sev(e.value, ctx)
        return self.sattr(b, e.attr, ctx, e)

    def sattr(self, b, attr, ctx, e):
        b = self.strip_opt(b)
        if isinstance(b, Obj):
            v = ctx.st.heap.get((b.oid, attr))
            if v is not None:
                return v
            if f"{b.rec}_{attr}" in self.w.macros:
                return self.apply_macro(f"{b.rec}_{attr}", [b], ctx)
            raise NameMissing(f"{b.rec}.{attr}")
        if isinstance(b, SV) and isinstance(b.ty, NT):
            i = b.ty.fidx(attr)
            if i is not None:
                return SV(b.ty.fields[i][1], b.ty.get(b.t, i))
            if f"{b.ty.name}_{attr}" in self.w.macros:
                return self.apply_macro(f"{b.ty.name}_{attr}", [b], ctx)
        if isinstance(b, SV) and (b.ty.name, attr) in self.w.attrs:
            f, r, a, _ = self.w.attrs[(b.ty.name, attr)]
            if not a:
                return SV(r, f(b.t))
            return FnV("attrfn", f=f, r=r, a=a, base=b)
        raise Unsupported(f"spec attribute {attr} of {b}", e)

    def strip_opt(self, v):
        if isinstance(v, SV) and isinstance(v.ty, Opt):
            return SV(v.ty.t, v.ty.val(v.t))
        return v

    def s_Subscript(self, e, ctx):
        b = self.sev(e.value, ctx)
        b = self.strip_opt(self.sval(b, ctx))
        if isinstance(e.slice, ast.Slice):
            raise Unsupported("spec slice", e)
        k = self.sev(e.slice, ctx)
        return self.sindex(b, k, ctx, e)

    def sindex(self, b, k, ctx, e=None):
        if isinstance(b, PT):
            i = z3.simplify(k.t)
            return b.items[i.as_long()]
        if isinstance(b, Obj):
            if f"{b.rec}_item" in self.w.macros:
                return self.apply_macro(f"{b.rec}_item", [b, k], ctx)
        if isinstance(b, Comp):
            raise Unsupported("index of comprehension", e)
        if isinstance(b, ISeq):
            return b.at(ctx.st, k.t)
        if isinstance(b, SV):
            ty = b.ty
            if isinstance(ty, NT):
                i = z3.simplify(k.t)
                if z3.is_int_value(i):
                    j = i.as_long()
                    return SV(ty.fields[j][1], ty.get(b.t, j))
            if isinstance(ty, Seq):
                return SV(ty.t, ty.at(b.t, self.coerce(k, INT, ctx.st, spec=True).t))
            if isinstance(ty, ITup):
                return SV(ty.t, ty.at(b.t, self.coerce(k, INT, ctx.st, spec=True).t))
            if isinstance(ty, DictT):
                kk = self.coerce(k, ty.k, ctx.st, spec=True).t
                v = sel(ty.val(b.t), kk)
                if ty.kind in ("counter", "ddict"):
                    v = z3.If(sel(ty.dom(b.t), kk), v, default_term(ty.v))
                return SV(ty.v, v)
            if isinstance(ty, MapT):
                return SV(ty.v, sel(b.t, self.coerce(k, ty.k, ctx.st, spec=True).t))
        raise Unsupported(f"spec index of {b}", e)

    def s_Tuple(self, e, ctx):
        return PT([self.sev(x, ctx) for x in e.elts])

    def s_UnaryOp(self, e, ctx):
        v = self.sev(e.operand, ctx)
        if isinstance(e.op, ast.Not):
            return B(z3.Not(self.truth(v, ctx.st)))
        if isinstance(e.op, ast.USub):
            return I(-self.coerce(v, INT, ctx.st, spec=True).t)
        raise Unsupported("spec unary", e)

    def s_BoolOp(self, e, ctx):
        vs = []
        for x in e.values:
            b = self.truth(self.sev(x, ctx), ctx.st)
            vs.append(b)
            if isinstance(e.op, ast.And) and z3.is_false(b):
                break
            if isinstance(e.op, ast.Or) and z3.is_true(b):
                break
        return B(mkand(vs) if isinstance(e.op, ast.And) else mkor(vs))

    def s_BinOp(self, e, ctx):
        a = self.strip_opt(self.sval(self.sev(e.left, ctx), ctx))
        b = self.strip_opt(self.sval(self.sev(e.right, ctx), ctx))
        return self.binop(e.op, a, b, ctx.st, e)

    def s_IfExp(self, e, ctx):
        c = self.truth(self.sev(e.test, ctx), ctx.st)
        a, b = self.sev(e.body, ctx), self.sev(e.orelse, ctx)
        return self.ite(c, a, b, ctx.st)

    def s_Compare(self, e, ctx):
        left = self.sev(e.left, ctx)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.sev(r, ctx)
            out.append(self.compare(op, left, right, ctx.st, e, spec=True))
            left = right
        return B(mkand(out))

    def s_Lambda(self, e, ctx):
        return FnV("spec_lambda", node=e, ctx=ctx)

    # quantification ------------------------------------------------------
    def spec_domain(self, it, ctx):
        """iterable value -> (z3 var, domain cond, element Val)"""
        it = self.strip_opt(self.sval(it, ctx))
        st = ctx.st
        if isinstance(it, ISeq) and getattr(it, "bounds", None):
            i = z3.Int(f"q!{nid()}")
            return i, z3.And(it.bounds[0] <= i, i < it.bounds[1]), I(i)
        if isinstance(it, ISeq):
            i = z3.Int(f"q!{nid()}")
            return i, z3.And(0 <= i, i < it.n(st)), it.at(st, i)
        if isinstance(it, ISet):
            x = z3.Const(f"q!{nid()}", it.kty.sort())
            return x, it.member(x), it.mk(x)
        if isinstance(it, Universe):
            x = z3.Const(f"q!{nid()}", it.ty.sort())
            return x, it.cond(x), SV(it.ty, x)
        v = self.iterable(it, st)
        if isinstance(v, (ISeq, ISet)):
            return self.spec_domain(v, ctx)
        if isinstance(v, IConc):
            return None, None, v.items
        raise Unsupported(f"spec iteration over {it}")

    def spec_quant(self, e, ctx, exists):
        """e is GeneratorExp"""
        return self._quant(e.generators, e.elt, ctx, exists)

    def _pat_quant(self, gens, elt, ctx, exists):
        """all(pat(body, (t1, t2), ...) for ... for ...): one quantifier with explicit triggers"""
        vs, conds = [], []
        for g in gens:
            var, dom, el = self.spec_domain(self.sev(g.iter, ctx), ctx)
            ctx = ctx.sub(self.bind_names(g.target, el))
            vs.append(var)
            conds += [dom] + [self.truth(self.sev(c, ctx), ctx.st) for c in g.ifs]
        body = self.truth(self.sev(elt.args[0], ctx), ctx.st)
        pats = []
        for a in elt.args[1:]:
            ts = [self.sval(self.sev(x, ctx), ctx).t for x in (a.elts if isinstance(a, ast.Tuple) else [a])]
            try:
                pats.append(z3.MultiPattern(*ts))
            except z3.Z3Exception:
                return z3.Exists(vs, mkand(conds + [body])) if exists else z3.ForAll(vs, z3.Implies(mkand(conds), body))
        conds = [c for c in conds if not z3.is_true(c)]
        if exists:
            return z3.Exists(vs, mkand(conds + [body]), patterns=pats)
        body = z3.Implies(mkand(conds), body) if conds else body
        if all(_trigger_ok(q) for q in pats):
            try:
                return z3.ForAll(vs, body, patterns=pats)
            except z3.Z3Exception:
                pass
        return z3.ForAll(vs, body)  # not usable as a trigger in this state

    def _quant(self, gens, elt, ctx, exists):
        if gens and isinstance(elt, ast.Call) and isinstance(elt.func, ast.Name) and elt.func.id == "pat":
            return self._pat_quant(gens, elt, ctx, exists)
        if not gens:
            return self.truth(self.sev(elt, ctx), ctx.st)
        g = gens[0]
        var, dom, el = self.spec_domain(self.sev(g.iter, ctx), ctx)
        if var is None:
            parts = []
            for x in el:
                c2 = ctx.sub(self.bind_names(g.target, x))
                conds = [self.truth(self.sev(c, c2), c2.st) for c in g.ifs]
                body = self._quant(gens[1:], elt, c2, exists)
                parts.append(mkand(conds + [body]) if exists else z3.Implies(mkand(conds), body))
            return mkor(parts) if exists else mkand(parts)
        c2 = ctx.sub(self.bind_names(g.target, el))
        conds = [dom] + [self.truth(self.sev(c, c2), c2.st) for c in g.ifs]
        body = self._quant(gens[1:], elt, c2, exists)
        if exists:
            return z3.Exists([var], mkand(conds + [body]))
        # flatten nested foralls
        if z3.is_quantifier(body) and body.is_forall() and body.num_patterns() == 0:
            vs = [z3.Const(f"q!{nid()}", body.var_sort(i)) for i in range(body.num_vars())]
            inner = z3.substitute_vars(body.body(), *reversed(vs))
            return z3.ForAll([var] + vs, z3.Implies(mkand(conds), inner))
        if z3.is_quantifier(body) and body.is_forall():
            vs = [z3.Const(f"q!{nid()}", body.var_sort(i)) for i in range(body.num_vars())]
            inner = z3.substitute_vars(body.body(), *reversed(vs))
            pats = [z3.substitute_vars(body.pattern(i), *reversed(vs)) for i in range(body.num_patterns())]
            pats = [z3.MultiPattern(*p.children()) for p in pats]
            if all(_occurs(var, p) for p in pats):
                cs = [c for c in conds if not z3.is_true(c)]
                return z3.ForAll([var] + vs, z3.Implies(mkand(cs), inner) if cs else inner, patterns=pats)
        return z3.ForAll([var], z3.Implies(mkand(conds), body))

    def bind_names(self, target, val):
        if isinstance(target, ast.Name):
            return {target.id: val}
        if isinstance(target, ast.Tuple):
            out = {}
            parts = self.untuple(val, len(target.elts))
            for t, p in zip(target.elts, parts):
                out.update(self.bind_names(t, p))
            return out
        raise Unsupported("spec target")

    def untuple(self, val, n):
        if isinstance(val, PT):
            if len(val.items) != n:
                raise Unsupported("tuple arity")
            return val.items
        if isinstance(val, SV) and isinstance(val.ty, NT):
            return [SV(t, val.ty.get(val.t, i)) for i, (_, t) in enumerate(val.ty.fields)]
        raise Unsupported(f"cannot unpack {val}")

    def s_Call(self, e, ctx):
        f = e.func
        if isinstance(f, ast.Name):
            n = f.id
            if n in ("all", "any"):
                a = e.args[0]
                if isinstance(a, ast.GeneratorExp):
                    return B(self.spec_quant(a, ctx, n == "any"))
                it = self.sval(self.sev(a, ctx), ctx)
                var, dom, el = self.spec_domain(it, ctx)
                if var is None:
                    bs = [self.truth(x, ctx.st) for x in el]
                    return B(mkand(bs) if n == "all" else mkor(bs))
                b = self.truth(el, ctx.st)
                return B(z3.ForAll([var], z3.Implies(dom, b)) if n == "all"
                         else z3.Exists([var], z3.And(dom, b)))
            if n == "old":
                if ctx.old is None:
                    raise Unsupported("old() without entry state", e)
                names = dict(ctx.names)
                if ctx.old_names:
                    names.update(ctx.old_names)
                c2 = SCtx(self, ctx.old, None, names)
                v = self.sev(e.args[0], c2)
                if isinstance(v, Obj):
                    raise ValueError("old() of an object: say which field is meant")
                return ctx.old.deref(v)
            if n == "implies":
                a = self.truth(self.sev(e.args[0], ctx), ctx.st)
                if z3.is_false(a):
                    return B(True)
                b = self.truth(self.sev(e.args[1], ctx), ctx.st)
                return B(z3.Implies(a, b))
            if n == "iff":
                a = self.truth(self.sev(e.args[0], ctx), ctx.st)
                b = self.truth(self.sev(e.args[1], ctx), ctx.st)
                return B(a == b)
            if n == "ints":
                return Universe(INT, lambda x: z3.BoolVal(True))
            if n == "nats":
                return Universe(INT, lambda x: x >= 0)
            if n == "every":
                ty = self.w.tenv.parse(e.args[0].value)
                return Universe(ty, lambda x: z3.BoolVal(True))
            if n == "setof":
                ty = self.w.tenv.parse(e.args[0].value)
                x = z3.Const(f"so!{nid()}", ty.sort())
                b = self.truth(self.call_spec_lambda(self.sev(e.args[1], ctx), [SV(ty, x)]), ctx.st)
                return SV(SetT(ty), z3.Lambda([x], b))
            if n == "mapof":
                k, v = (self.w.tenv.parse(a.value) for a in e.args[:2])
                x = z3.Const(f"mo!{nid()}", k.sort())
                b = self.coerce(self.call_spec_lambda(self.sev(e.args[2], ctx), [SV(k, x)]), v, ctx.st, spec=True).t
                return SV(MapT(k, v), z3.Lambda([x], b))
            if n == "indexof":
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                return I(self.indexof(v.ty, v.t, self.coerce(self.sev(e.args[1], ctx), v.ty.t, ctx.st, spec=True).t))
            if n == "sorted":
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                if not isinstance(v.ty, ITup):
                    raise ValueError("sorted() of a tuple only")
                return SV(v.ty, self.tsorted(v.ty)(v.t))
            if n == "valof":
                # the value stored at a key (only meaningful together with "key in d")
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                return SV(v.ty.v, sel(v.ty.val(v.t), self.coerce(self.sev(e.args[1], ctx), v.ty.k, ctx.st, spec=True).t))
            if n == "has":
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                self.w.has_types.add(v.ty.name)
                return B(self.hasfn(v.ty)(v.t, self.coerce(self.sev(e.args[1], ctx), v.ty.t, ctx.st, spec=True).t))
            if n == "same":
                a = self.sval(self.sev(e.args[0], ctx), ctx)
                b = self.sval(self.sev(e.args[1], ctx), ctx)
                if isinstance(a, Obj) and isinstance(b, Obj):
                    return B(a.oid == b.oid)
                return B(a.t == self.coerce(b, a.ty, ctx.st, spec=True).t)
            if n == "dom":
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                return SV(SetT(v.ty.k), v.ty.dom(v.t))
            if n == "store":
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                k = self.sev(e.args[1], ctx)
                x = self.sev(e.args[2], ctx)
                if isinstance(v.ty, MapT):
                    return SV(v.ty, z3.Store(v.t, self.coerce(k, v.ty.k, ctx.st, spec=True).t,
                                             self.coerce(x, v.ty.v, ctx.st, spec=True).t))
                if isinstance(v.ty, Seq):
                    return store(v, self.coerce(k, INT, ctx.st, spec=True).t,
                                 self.coerce(x, v.ty.t, ctx.st, spec=True))
                if isinstance(v.ty, DictT):
                    kk = self.coerce(k, v.ty.k, ctx.st, spec=True).t
                    xx = self.coerce(x, v.ty.v, ctx.st, spec=True).t
                    return SV(v.ty, v.ty.mk(z3.Store(v.ty.dom(v.t), kk, z3.BoolVal(True)),
                                            z3.Store(v.ty.val(v.t), kk, xx)))
            if n in ("with_", "without"):
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                k = self.coerce(self.sev(e.args[1], ctx), v.ty.t, ctx.st, spec=True).t
                return SV(v.ty, z3.Store(v.t, k, z3.BoolVal(n == "with_")))
            if n == "mk":
                ty = self.w.tenv.parse(e.args[0].value)
                vals = [self.coerce(self.sev(a, ctx), t, ctx.st, spec=True).t
                        for a, (_, t) in zip(e.args[1:], ty.fields)]
                return SV(ty, ty.mk(*vals))
            if n == "cast":
                ty = self.w.tenv.parse(e.args[0].value)
                return self.coerce(self.sev(e.args[1], ctx), ty, ctx.st, spec=True)
            if n == "isa":
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                ty = self.w.tenv.parse(e.args[1].value)
                return B(self.type_test(v, ty))
            if n == "finite":
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                return B(self.finfn(v.ty)(v.t))
            if n == "card":
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                if isinstance(v.ty, DictT):
                    return I(self.card(SetT(v.ty.k), v.ty.dom(v.t)))
                return I(self.card(v.ty, v.t))
            if n == "tprod":
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                return I(self.prodfn()(self.coerce(v, ITup(INT), ctx.st, spec=True).t))
            if n == "hpos":
                # a position of an element the sequence has
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                return I(self.hposfn(v.ty)(v.t, self.coerce(self.sev(e.args[1], ctx), v.ty.t, ctx.st, spec=True).t))
            if n == "tl":
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                return SV(v.ty, self.consfns(v.ty)[0](v.t))
            if n == "stp":
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                self.sumfn()
                return B(z3.Function("stp", v.ty.sort(), z3.IntSort(), z3.BoolSort())(v.t, self.coerce(self.sev(e.args[1], ctx), INT, ctx.st, spec=True).t))
            if n == "tsum":
                v = self.sval(self.sev(e.args[0], ctx), ctx)
                return I(self.sumfn()(self.coerce(v, ITup(INT), ctx.st, spec=True).t,
                                      self.coerce(self.sev(e.args[1], ctx), INT, ctx.st, spec=True).t))
            if n in self.w.macros:
                return self.apply_macro(n, [self.sev(a, ctx) for a in e.args], ctx)
            if n in self.w.ghostfns:
                fn, tys, r = self.w.ghostfns[n]
                args = [self.coerce(self.sev(a, ctx), t, ctx.st, spec=True).t
                        for a, t in zip(e.args, tys)]
                return SV(r, fn(*args))
            v = ctx.names.get(n)
            if isinstance(v, FnV) and v.kind == "spec_lambda":
                return self.call_spec_lambda(v, [self.sev(a, ctx) for a in e.args])
            if n == "len":
                return I(self.length(self.sval(self.sev(e.args[0], ctx), ctx), ctx.st))
            if n in ("range", "enumerate", "zip", "abs", "min", "max"):
                args = [self.sval(self.sev(a, ctx), ctx) for a in e.args]
                return self.pure_builtin(n, args, ctx.st, e)
            raise NameMissing(n)
        if isinstance(f, ast.Attribute):
            b = self.sev(f.value, ctx)
            args = [self.sev(a, ctx) for a in e.args]
            b2 = self.strip_opt(self.sval(b, ctx))
            if isinstance(b2, Obj) and f"{b2.rec}_{f.attr}" in self.w.macros:
                return self.apply_macro(f"{b2.rec}_{f.attr}", [b2] + args, ctx)
            if isinstance(b2, SV) and (b2.ty.name, f.attr) in self.w.attrs:
                fn, r, tys, _ = self.w.attrs[(b2.ty.name, f.attr)]
                return SV(r, fn(b2.t, *[self.coerce(a, t, ctx.st, spec=True).t
                                        for a, t in zip(args, tys)]))
            if f.attr in ("keys", "items", "values") and isinstance(b2, SV) and isinstance(b2.ty, DictT):
                return self.dict_iter(b2, f.attr)
        raise Unsupported("spec call " + ast.unparse(e), e)

    def call_spec_lambda(self, v, args):
        c2 = v.ctx.sub({a.arg: x for a, x in zip(v.node.args.args, args)})
        return self.sev(v.node.body, c2)

    def apply_macro(self, n, args, ctx):
        ps, body = self.w.macros[n]
        if len(ps) != len(args):
            raise Unsupported(f"macro {n} arity")
        c2 = SCtx(self, ctx.st, ctx.old, dict(zip(ps, args)), dict(zip(ps, args)))
        # old() inside macros refers to the same argument pointers in the entry state
        return self.sev(body, c2)


_NOTRIG = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ,
           z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT}


def _trigger_ok(p):
    stack = list(p) if isinstance(p, list) else list(p.children())
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x) or z3.is_app(x) and x.decl().kind() in _NOTRIG:
            return False
        stack.extend(x.children())
    return True


def _occurs(v, t):
    stack = [t]
    while stack:
        x = stack.pop()
        if x.eq(v):
            return True
        stack.extend(x.children())
    return False


class Universe(Val):
    def __init__(self, ty, cond):
        self.ty, self.cond = ty, cond


class NameMissing(Unsupported):
    def __init__(self, n):
        super().__init__(f"name {n} not found in scope of the specification")


def mkand(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return z3.BoolVal(False)
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def mkor(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return z3.BoolVal(True)
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)
