"""Statements, calls, loops and function verification."""
import ast
import time

import z3

from .engine import *
from .engine import _has_quant, _small
from .engine import EngineCore
from .spec import _occurs, SCtx, NameMissing, _trigger_ok, mkand, mkor
from .ty import *
from .vals import *
from .world import Contract, Unsupported

SKIP_CALLS = ("logger.",)


def _trigger(t, i):
    """the innermost application in t that has i as an argument"""
    if not z3.is_app(t):
        return None
    for c in t.children():
        r = _trigger(c, i)
        if r is not None:
            return r
    if any(c.eq(i) for c in t.children()) and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
        return t
    return None


class Engine(EngineCore):
    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        src = ast.unparse(e.func)
        if src.startswith(SKIP_CALLS):
            self.dropped.add("logger.* calls")
            return [(st, none())]
        if isinstance(e.func, ast.Name) and st.lookup(e.func.id) is None:
            n = e.func.id
            if n in ("tuple", "list") and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
                self.eager = set(self.eager) | {id(e.args[0])}
            if n == "super":
                return self.do_super(st, e)
            if n == "next" and e.args and isinstance(e.args[0], ast.GeneratorExp):
                return self.next_gen(st, e)
            if n == "next" and len(e.args) == 1 and isinstance(e.args[0], ast.Call) and isinstance(e.args[0].func, ast.Attribute):
                # the first item of a generator without effects: next(y for y in generator(...))
                cs = [c for k, c in self.w.contracts.items() if k.split("#")[0].rpartition(".")[2] == e.args[0].func.attr]
                if cs and all(c.yields and not c.modifies and not c.raises and not c.may_raise for c in cs):
                    y = ast.copy_location(ast.Name("_next_y", ast.Load()), e)
                    t = ast.copy_location(ast.Name("_next_y", ast.Store()), e)
                    g = ast.copy_location(ast.GeneratorExp(y, [ast.comprehension(t, e.args[0], [], 0)]), e)
                    return self.next_gen(st, ast.copy_location(ast.Call(e.func, [g], []), e))
            if n == "isinstance":
                return self.do_isinstance(st, e)
            if n == "cast":
                return self.ev(e.args[1], st)
            if n in ("any", "all") and isinstance(e.args[0], ast.GeneratorExp):
                return self.any_all_gen(st, e, n == "any")

        def f(s, fv):
            kws = [k.arg for k in e.keywords]
            if kws.count(None) > 1:
                raise Unsupported("** arguments", e)
            kws = ["**" if k is None else k for k in kws]

            def g(s2, vs):
                args = vs[: len(e.args)] if len(vs) == len(e.args) + len(kws) else None
                if args is None:
                    nk = len(kws)
                    args = vs[: len(vs) - nk]
                kw = dict(zip(kws, vs[len(args):]))
                return self.call_value(s2, fv, args, kw, e)

            return self.then(self.ev_list(list(e.args) + [k.value for k in e.keywords], s), g)

        return self.then(self.ev(e.func, st), f)

    def do_super(self, st, e):
        self_ = None
        fid = st.fid
        while fid is not None:
            p, d, mi = st.frames[fid]
            if mi[1] is not None and "self" in d:
                self_ = d["self"]
                cls = mi[1]
                break
            fid = p
        if self_ is None:
            raise Unsupported("super()", e)
        ci = self.obj_class(st, self_)
        return [(st, SuperV(self_, ci, cls.name))]

    def do_isinstance(self, st, e):
        def f(s, vs):
            v, t = vs
            alts = t.items if isinstance(t, PT) else [t]
            out = []
            for a in alts:
                if isinstance(a, TypeV) and a.ty is not None:
                    dv = s.deref(v)
                    if isinstance(dv, Obj):
                        ci = self.obj_class(s, dv)
                        names = [c.name for c in self.w.mro(ci)] if ci else [dv.rec]
                        out.append(z3.BoolVal(a.name in names or a.ty.name in names))
                    else:
                        out.append(self.type_test(dv, a.ty))
                elif isinstance(a, TypeV) and a.name is not None:
                    dv = s.deref(v)
                    if isinstance(dv, Obj):
                        ci = self.obj_class(s, dv)
                        names = [c.name for c in self.w.mro(ci)] if ci else [dv.rec]
                        out.append(z3.BoolVal(a.name in names))
                    elif isinstance(dv, SV) and (dv.ty.name, "isa_" + a.name) in self.w.attrs:
                        out.append(self.w.attrs[(dv.ty.name, "isa_" + a.name)][0](dv.t))
                    elif isinstance(dv, SV) and a.name in self.w.isinstance_types:
                        out.append(self.type_test(dv, self.w.isinstance_types[a.name]))
                    else:
                        raise Unsupported(f"isinstance {a.name}", e)
                elif isinstance(a, FnV) and a.kind == "builtin":
                    dv = s.deref(v)
                    t2 = self.w.isinstance_types.get(a.name)
                    if t2 is None:
                        raise Unsupported(f"isinstance {a.name}", e)
                    out.append(self.type_test(dv, t2))
                else:
                    raise Unsupported("isinstance", e)
            return [(s, B(mkor(out)))]

        return self.then(self.ev_list(e.args, st), f)

    def any_all_gen(self, st, e, is_any):
        def f(s, c):
            if isinstance(c, IConc):
                ts = [self.truth(x, s) for x in c.items]
                return [(s, B(mkor(ts) if is_any else mkand(ts)))]
            t = self.truth(c.elem, s)
            if is_any:
                return [(s, B(z3.Exists(c.vars, z3.And(c.dom, t))))]
            return [(s, B(z3.ForAll(c.vars, z3.Implies(c.dom, t))))]

        g = e.args[0]
        # short-circuit evaluation: the element may only be evaluated for a prefix; purity makes
        # this irrelevant except for raised errors, which comp() requires to be impossible
        return self.then(self.comp(g, st), f)

    def next_gen(self, st, e):
        """next(<genexp over one indexable iterable>[, default])"""
        g = e.args[0]
        if len(g.generators) != 1:
            raise Unsupported("next over nested generator", e)
        gen = g.generators[0]

        def f(s, itv):
            it = self.iter_any(itv, s, e)
            if isinstance(it, IConc):
                it = self.conc_to_seq(it, s)
            if not isinstance(it, ISeq):
                raise Unsupported("next over unordered iterable", e)
            n = it.n(s)

            def cond_at(s0, i):
                t = s0.copy()
                t.fid = t.new_frame(s0.fid, s0.minfo())
                v0 = t.ver
                self.bind_target(t, gen.target, self.rv(it.at(t, i), t), e)
                v1 = t.ver
                cs = []
                for c in gen.ifs:
                    rs = self.ev(c, t)
                    if len(rs) != 1 or isinstance(rs[0][1], Raise):
                        raise Unsupported("next filter", e)
                    t = rs[0][0]
                    if t.ver != v1:
                        raise Unsupported("next filter with effects", e)
                    cs.append(self.truth(rs[0][1], t))
                return mkand(cs)

            out = []
            i = z3.Int(f"nx_i{nid()}")
            j = z3.Int(f"nx_j~{next_fresh()}")
            none_ = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(cond_at(s, i))))
            s_no = s.copy()
            s_no.assume(none_)
            if self.feasible(s_no):
                if len(e.args) > 1:
                    out.extend(self.ev(e.args[1], s_no))
                else:
                    out.append((s_no, Raise("StopIteration", e)))
            s.assume(0 <= j, j < n, cond_at(s, j),
                     z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < j), z3.Not(cond_at(s, i)))))
            if self.feasible(s):
                old = s.fid
                s.fid = s.new_frame(old, s.minfo())
                self.bind_target(s, gen.target, self.rv(it.at(s, j), s), e)
                for s2, v in self.ev(g.elt, s):
                    s2.fid = old
                    out.append((s2, v))
            return out

        return self.then(self.ev(gen.iter, st), f)

    def call_value(self, s, fv, args, kw, e):
        if isinstance(fv, FnV):
            k = fv.kind
            if k == "noop":
                return [(s, none())]
            if k == "method":
                if fv.con is not None:
                    return self.call_contract(s, fv.con, None, [fv.self_] + args, kw, e)
                return self.call_func(s, fv.fi, [fv.self_] + args, kw, e)
            if k == "func":
                return self.call_func(s, fv.fi, args, kw, e)
            if k == "closure":
                return self.call_closure(s, fv, args, kw, e)
            if k == "builtin":
                return self.call_builtin(s, fv.name, args, kw, e)
            if k == "meth":
                return self.call_meth(s, fv.recv, fv.attr, args, kw, e)
            if k == "typeattr":
                return self.call_typeattr(s, fv.t, fv.attr, args, kw, e)
            if k == "clsattr":
                f, r, a, raises = self.w.attrs[(fv.ty.name, "cls." + fv.attr)]
                ts = [self.coerce(x, t, s).t for x, t in zip(args, a)]
                return self.attr_result(s, f(*([z3.Const("cls0", fv.ty.sort())] + ts)), r, raises, [z3.Const("cls0", fv.ty.sort())] + ts, e)
            if k == "attrfn":
                ts = [self.coerce(x, t, s).t for x, t in zip(args, fv.a)]
                return [(s, SV(fv.r, fv.f(fv.base.t, *ts)))]
        if isinstance(fv, FnV) and fv.kind == "mapping_get":
            # collections.abc.Mapping.get: self[key], default on KeyError
            out = []
            for s2, v in self.call_method(s, fv.self_, "__getitem__", args[:1], {}, e):
                if isinstance(v, Raise) and v.exc == "KeyError":
                    v = args[1] if len(args) > 1 else none()
                out.append((s2, v))
            return out
        if isinstance(fv, TypeV):
            return self.construct(s, fv, args, kw, e)
        if isinstance(fv, ModV):
            return self.call_ext(s, fv.name, args, kw, e)
        if isinstance(fv, Obj):
            return self.call_method(s, fv, "__call__", args, kw, e)
        if isinstance(fv, SV) and (fv.ty.name, "__call__") in self.w.attrs:
            f, r, a, raises = self.w.attrs[(fv.ty.name, "__call__")]
            args = self.named_args((fv.ty.name, "__call__"), args, kw, e)
            ts = [self.coerce(x, t, s).t for x, t in zip(args, a)]
            return self.attr_result(s, f(fv.t, *ts), r, raises, [fv.t] + ts, e)
        raise Unsupported(f"call of {fv}", e)

    def named_args(self, key, args, kw, e):
        """the arguments of an uninterpreted callable, keywords put in their place"""
        if not kw:
            return args
        names = self.w.attr_names.get(key, ())
        rest = names[len(args):]
        if sorted(rest) != sorted(kw):
            raise Unsupported("keyword arguments of " + str(key), e)
        return list(args) + [kw[n] for n in rest]

    def attr_result(self, s, term, r, raises, terms, e):
        out = []
        pre = self.w.attr_pre.get(term.decl().get_id())
        if pre:
            pf = self.w.ghostfns[pre[1]][0]
            self.need(s, pf(*terms[:pf.arity()]), pre[0], "pre", e)
        if raises:
            pred, exc = raises
            f = self.w.ghostfns[pred][0]
            for s2, bad in self.split(s, f(*terms[:f.arity()])):
                if bad:
                    out.append((s2, Raise(exc, e)))
                else:
                    out.append((s2, self.wrap_result(s2, SV(r, term))))
            return out
        return [(s, self.wrap_result(s, SV(r, term)))]

    def wrap_result(self, s, v):
        if v.ty.mutable:
            return s.new_cell(v)
        if isinstance(v.ty, ITup):
            self.use_type(v.ty)
        return v

    def call_method(self, s, obj, name, args, kw, e):
        rs = self.get_attr(s, obj, name, e)

        def f(s2, fv):
            return self.call_value(s2, fv, args, kw, e)

        return self.then(rs, f)

    def call_func(self, s, fi, args, kw, e):
        con = self.contract_for(fi, args)
        if con is not None:
            return self.call_contract(s, con, fi, args, kw, e)
        return self.inline(s, fi, args, kw, e)

    def contract_for(self, fi, args):
        con = self.w.contracts.get(fi.qual)
        if con is None:
            return None
        if fi.qual in self.cur.inline_calls:
            return None
        if con.self_type and args and isinstance(args[0], Obj) and args[0].rec != con.self_type and not fi.is_classmethod:
            # the same function under contract for another class
            vs = [c for k, c in self.w.contracts.items() if k.startswith(fi.qual + "#") and c.self_type == args[0].rec]
            return vs[0] if len(vs) == 1 else None
        return con

    def inline(self, s, fi, args, kw, e):
        if fi.is_abstract and all(isinstance(x, (ast.Expr, ast.Pass)) for x in fi.node.body):
            raise Unsupported(f"abstract method {fi.qual} without a contract", e)
        if fi.name == "_" or self.depth > 12 or s.stack.count(fi.qual) > 1:
            raise Unsupported("recursion without contract: " + fi.qual, e)
        for d in fi.node.decorator_list:
            dn = d
            if isinstance(dn, ast.Call):
                dn = dn.func
            nm = dn.id if isinstance(dn, ast.Name) else getattr(dn, "attr", "?")
            if nm in SKIP_DECOS:
                if nm in ("cssmethodtimer", "cssiteratortimer", "lru_cache", "ensure_specification"):
                    self.dropped.add("@" + nm)
            else:
                raise Unsupported("decorator " + nm, e)
        self.inlined.add(fi.qual)
        fv = FnV("closure", args=fi.node.args, body=fi.node.body, fid=None, name=fi.name,
                 gen=fi.is_gen, minfo=(fi.module, fi.cls), qual=fi.qual)
        return self.call_closure(s, fv, args, kw, e)

    def bind_params(self, s, a, args, kw, e, default_fid):
        self.cur_state = s
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        kw = dict(kw)
        star2 = kw.pop("**", None)
        if star2 is not None:
            if not a.kwarg or any(k not in names and k not in [x.arg for x in a.kwonlyargs] for k in kw):
                raise Unsupported("** arguments", e)
            vals[a.kwarg.arg] = star2
        if any(isinstance(x, StarV) for x in args):
            if not a.vararg or len(args) != len(names) + 1 or not isinstance(args[-1], StarV):
                raise Unsupported("star call", e)
            vals[a.vararg.arg] = self.to_itup(self.cur_state, args.pop().v)
            for n, v in zip(names, args):
                vals[n] = v
            if kw:
                raise Unsupported("star call", e)
            return vals
        for i, n in enumerate(names):
            if i < len(args):
                vals[n] = args[i]
        rest = args[len(names):]
        if a.vararg:
            vals[a.vararg.arg] = PT(rest)
        elif rest:
            raise Unsupported("too many arguments", e)
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            elif a.kwarg:
                pass
            else:
                raise Unsupported("keyword " + k, e)
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    raise Unsupported("missing argument " + n, e)
                vals[n] = ("default", a.defaults[j])
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals:
                vals[x.arg] = ("default", d)
        return vals

    def call_closure(self, s, fv, args, kw, e):
        saved = s.fid
        saved_stack = s.stack
        saved_y = s.ycid
        minfo = getattr(fv, "minfo", None)
        if minfo is None:
            minfo = s.frames[fv.fid][2]
        vals = self.bind_params(s, fv.args, args, kw, e, fv.fid)
        fid = s.new_frame(fv.fid, minfo)
        s.fid = fid
        s.stack = s.stack + (saved,) if not hasattr(fv, "qual") else s.stack + (saved, fv.qual)
        rs0 = [(s, None)]
        for n, v in vals.items():
            if isinstance(v, tuple):
                nxt = []
                for s1, _ in rs0:
                    for s2, dv in self.ev(v[1], s1):
                        s2.frames[fid][1][n] = dv
                        nxt.append((s2, None))
                rs0 = nxt
            else:
                for s1, _ in rs0:
                    s1.frames[fid][1][n] = v
        out = []
        self.depth += 1
        try:
            for s1, _ in rs0:
                if fv.gen:
                    yl = s1.new_cell(SV(EmptyTy("list"), None))
                    s1.ycid = yl.cid
                for s2, oc in self.block(fv.body, s1):
                    s2.fid = saved
                    s2.stack = saved_stack
                    if fv.gen:
                        y = s2.ycid
                        s2.ycid = saved_y
                        if oc is not None and oc[0] == "raise":
                            out.append((s2, oc[1]))
                        else:
                            out.append((s2, Loc(y)))
                        continue
                    if oc is None:
                        out.append((s2, none()))
                    elif oc[0] == "return":
                        out.append((s2, oc[1]))
                    elif oc[0] == "raise":
                        out.append((s2, oc[1]))
                    else:
                        raise Unsupported("stray loop control", e)
        finally:
            self.depth -= 1
        return out

    # contract calls --------------------------------------------------------
    def call_contract(self, s, con, fi, args, kw, e):
        if fi is None:
            fi = self.w.func(con.target)
        self.used_contracts.add(con.target + ("#" + con.variant if con.variant else ""))
        if con.trusted:
            self.assumed.add(f"contract of {con.target}: {con.note or 'trusted'}")
        names = list(con.params)
        vals = {}
        if fi is not None:
            a = fi.node.args
            b = self.bind_params(s, a, args, kw, e, None)
            for n, v in b.items():
                if isinstance(v, tuple):
                    rs = self.ev(v[1], s)
                    v = rs[0][1]
                vals[n] = v
        else:
            allp = (["self"] if args and isinstance(args[0], Obj) and "self" not in names else []) + names
            for n, v in zip(allp, args):
                vals[n] = v
            vals.update({"kwargs" if k == "**" else k: v for k, v in kw.items()})
        # coerce to declared types
        for n, t in con.params.items():
            ty = self.w.tenv.parse(t)
            if n in vals and not isinstance(ty, Cls):
                v = vals[n]
                if ty.mutable and isinstance(v, Loc):
                    if isinstance(s.read(v.cid).ty, EmptyTy):
                        s.cells[v.cid] = ("val", self.coerce(s.read(v.cid), ty, s))
                    continue
                if ty.mutable and isinstance(v, (ISeq, ISet, Comp, IConc, PT)):
                    lst = self.to_list(s, v, e, ty.t if isinstance(ty, Seq) else None)[0][1]
                    vals[n] = lst
                    continue
                if isinstance(ty, ITup) and isinstance(s.deref(v), SV) and isinstance(s.deref(v).ty, Seq):
                    vals[n] = self.to_itup(s, v)
                    continue
                if isinstance(ty, ITup) and isinstance(v, (ISeq, Comp)):
                    vals[n] = self.to_itup(s, v)
                    continue
                vals[n] = self.coerce(v, ty, s)
        ghost = {}
        for g, t in con.ghost.items():
            if g in self.cur.ghost_args.get(con.target, {}):
                ctx = SCtx(self, s, None, dict(self.ghost_env))
                ghost[g] = self.coerce(self.sev(ast.parse(self.cur.ghost_args[con.target][g], mode="eval").body, ctx),
                                       self.w.tenv.parse(t), s, spec=True)
            elif g in self.ghost_env:
                ghost[g] = self.ghost_env[g]
            else:
                raise Unsupported(f"no ghost argument {g} for {con.target}", e)
        names = dict(ghost)
        names.update(vals)
        self_ = vals.get("self")
        ctx = SCtx(self, s, None, names)
        short = con.target.split(".")[-1]
        if con.use_inv and isinstance(self_, Obj) and not con.is_init:
            for lab, ex in self.inv_exprs(self_):
                self.need(s, self.spec_bool(ex, ctx), f"call {short}: invariant {lab}", "pre", e)
        for lab, ex in con.requires:
            self.need(s, self.spec_bool(ex, ctx), f"call {short}: {lab}", "pre", e)
        out = []
        # exceptional outcomes
        for exc, cond in list(con.raises.items()) + list(con.may_raise.items()):
            c = self.spec_bool(cond, ctx)
            iff = exc in con.raises
            s_ex = s.copy()
            s_ex.assume(c)
            if self.feasible(s_ex):
                if con.exc_ensures:
                    old_x = s_ex.copy()
                    self.havoc_modifies(s_ex, con, names)
                    cx = SCtx(self, s_ex, old_x, dict(names, _exc=self.strconst(exc)), names)
                    for lab, ex in con.exc_ensures:
                        s_ex.assume(self.spec_bool(ex, cx))
                    if isinstance(self_, Obj) and con.use_inv:
                        for lab, ex in self.inv_exprs(self_):
                            s_ex.assume(self.spec_bool(ex, cx))
                out.append((s_ex, Raise(exc, e)))
            if iff:
                s.assume(z3.Not(c))
                if not self.feasible(s):
                    return out
        if con.repeat and self.comp_effects is not None:
            # the effect is applied once, after the comprehension
            res = self.sev(ast.parse(con.pure_result, mode="eval").body, ctx)
            self.comp_effects.append((con, names, None))
            return out + [(s, self.coerce(res, self.w.tenv.parse(con.returns), s, spec=True))]
        old = s.copy()
        if con.is_init and isinstance(self_, Obj) and not any(oid == self_.oid for oid, _ in s.heap):
            self.populate(s, self_, "new")
        s.ver += 1 if con.modifies else 0
        self.havoc_modifies(s, con, names)
        ctx = SCtx(self, s, old, names, names)
        if con.yields:
            rty = Seq(self.w.tenv.parse(con.yields))
        elif con.returns:
            rty = self.w.tenv.parse(con.returns)
        else:
            rty = NONE
        if con.pure_result:
            res = self.sev(ast.parse(con.pure_result, mode="eval").body, ctx)
            res = self.coerce(res, rty, s, spec=True) if not isinstance(rty, Cls) else res
            self_res = res
        elif isinstance(rty, Cls):
            self_res = self.new_obj(s, rty.name, f"res_{short}")
        elif rty == NONE:
            self_res = none()
        else:
            t = fresh(rty, f"ret_{short}")
            if isinstance(rty, ITup):
                self.use_type(rty)
            s.assume(*wf(rty, t))
            self_res = SV(rty, t)
        ctx.names = dict(names)
        ctx.names["result"] = self_res
        for g, (t, _) in con.gvars.items():
            # ghost witnesses: some value of their type
            gt = self.w.tenv.parse(t)
            ctx.names.setdefault(g, SV(gt, fresh(gt, "wit_" + g)))
        for lab, ex in con.ensures:
            s.assume(self.spec_bool(ex, ctx))
        if con.use_inv and con.keep_inv and isinstance(self_, Obj):
            if con.modifies or con.is_init:
                for lab, ex in self.inv_exprs(self_):
                    s.assume(self.spec_bool(ex, ctx))
        for exc, cond in con.raises.items():
            pass
        if isinstance(self_res, SV) and self_res.ty.mutable:
            self_res = s.new_cell(self_res)
        if isinstance(self_res, SV) and isinstance(self_res.ty, Opt) and self_res.ty.t.mutable:
            ty, t = self_res.ty, self_res.t
            for s2, isnone in self.split(s, ty.is_none(t)):
                out.append((s2, none() if isnone else s2.new_cell(SV(ty.t, ty.val(t)))))
            return out
        out.append((s, self_res))
        return out

    def inv_exprs(self, obj):
        rd = self.w.records[obj.rec]
        return rd.inv

    def havoc_modifies(self, s, con, names):
        for path in con.modifies:
            if path.startswith("cls.") and not (isinstance(names.get("cls"), Obj) and names["cls"].rec == con.self_type):
                continue  # class attributes are read only by functions verified with them
            ctx = SCtx(self, s, None, names)
            base, _, f = path.rpartition(".")
            if not base:
                v = names[path]
                self.havoc_val(s, v, path)
                continue
            o = self.sev(ast.parse(base, mode="eval").body, ctx)
            if not isinstance(o, Obj):
                raise Unsupported("modifies " + path)
            if f == "*":
                for (oid, fn) in list(s.heap):
                    if oid == o.oid:
                        self.havoc_field(s, o, fn)
            else:
                self.havoc_field(s, o, f)

    def havoc_field(self, s, o, f):
        v = s.heap.get((o.oid, f))
        if isinstance(v, Loc):
            ty = s.read(v.cid).ty
            t = fresh(ty, "hv_" + f)
            s.assume(*wf(ty, t))
            self.wr_cell(s, v, SV(ty, t))
        elif isinstance(v, SV):
            t = fresh(v.ty, "hv_" + f)
            if isinstance(v.ty, ITup):
                self.use_type(v.ty)
            self.wr_field(s, o.oid, f, SV(v.ty, t))
        elif isinstance(v, Obj):
            for (oid, fn) in list(s.heap):
                if oid == v.oid:
                    self.havoc_field(s, v, fn)
        elif v is None:
            raise Unsupported(f"modifies unknown field {f}")

    def havoc_val(self, s, v, nm):
        if isinstance(v, Loc):
            ty = s.read(v.cid).ty
            if isinstance(ty, EmptyTy):
                raise Unsupported("havoc of untyped container")
            t = fresh(ty, "hv_" + nm)
            s.assume(*wf(ty, t))
            self.wr_cell(s, v, SV(ty, t))
        elif isinstance(v, Obj):
            for (oid, fn) in list(s.heap):
                if oid == v.oid:
                    self.havoc_field(s, v, fn)
        else:
            raise Unsupported("modifies " + nm)

    # objects -------------------------------------------------------------------
    def new_obj(self, s, rec, hint, populate=True, alias_root=None):
        oid = nid()
        o = Obj(oid, rec)
        if populate:
            self.populate(s, o, hint)
        return o

    def populate(self, s, o, hint):
        rec, oid = o.rec, o.oid
        if True:
            rd = self.w.records[rec]
            for f, t in list(rd.fields.items()) + list(rd.ghost.items()):
                s.heap[(oid, f)] = self.fresh_field(s, t, f"{hint}.{f}")
            for path, target in rd.alias.items():
                cur = o
                parts = path.split(".")
                for p in parts[:-1]:
                    cur = s.heap[(cur.oid, p)]
                tv = o
                for p in target.split("."):
                    tv = s.heap[(tv.oid, p)]
                s.heap[(cur.oid, parts[-1])] = tv

    def fresh_field(self, s, t, hint):
        if t.startswith("type:"):
            return TypeV(ty=self.w.tenv.parse(t[5:]), name=t[5:])
        if t.startswith("fn:"):
            return TypeV(name=t[3:])
        ty = self.w.tenv.parse(t)
        if isinstance(ty, Cls):
            return self.new_obj(s, ty.name, hint)
        c = fresh(ty, hint)
        s.assume(*wf(ty, c))
        if isinstance(ty, ITup):
            self.use_type(ty)
        if ty.mutable:
            return s.new_cell(SV(ty, c))
        return SV(ty, c)

    def construct(self, s, tv, args, kw, e):
        n = tv.name
        if tv.ty is not None and isinstance(tv.ty, NT):
            vals = list(args)
            for i, (f, t) in enumerate(tv.ty.fields):
                if i >= len(vals):
                    if f in kw:
                        vals.append(kw[f])
                    elif isinstance(t, Opt):
                        vals.append(none())
                    else:
                        raise Unsupported("NamedTuple default", e)
            return [(s, SV(tv.ty, tv.ty.mk(*[self.coerce(v, t, s).t for v, (_, t) in zip(vals, tv.ty.fields)])))]
        if n in ("list", "deque", "tuple", "set", "frozenset", "dict", "int", "bool", "str", "type", "bytes", "float"):
            return self.call_builtin(s, n, args, kw, e)
        if tv.ci is not None:
            # record class?
            rec = None
            for r in self.w.records.values():
                if r.src and r.src[1] == tv.ci.name and r.src[0] == tv.ci.module.name:
                    if rec is None or isinstance(self.expect, Cls) and r.name == self.expect.name:
                        rec = r.name
            if n.endswith("Error") or any("Exception" in b or "Error" in b for b in tv.ci.bases):
                return [(s, FnV("exc", name=n))]
            if rec is not None:
                o = self.new_obj(s, rec, "new", populate=False)
                fi = self.w.find_method(tv.ci, "__init__")
                if fi is None:
                    return [(s, o)]
                rs = self.call_func(s, fi, [o] + args, kw, e)
                return self.then(rs, lambda s2, v: [(s2, o)])
            if tv.ty is not None and (tv.ty.name, "cls.__call__") in self.w.attrs:
                f, r, a, raises = self.w.attrs[(tv.ty.name, "cls.__call__")]
                return [(s, SV(r, f(z3.Const("cls0", tv.ty.sort()), *[self.coerce(x, t, s).t for x, t in zip(args, a)])))]
            cq = self.w.contracts.get(f"{tv.ci.module.name}.{tv.ci.name}()")
            if cq:
                return self.call_contract(s, cq, None, args, kw, e)
        raise Unsupported(f"constructor {n}", e)

    # builtins --------------------------------------------------------------
    def call_builtin(self, s, n, args, kw, e):
        if n in EXC_PARENTS or n in ("Exception",):
            return [(s, FnV("exc", name=n))]
        if n in ("len",):
            if isinstance(args[0], Obj):
                return self.call_method(s, args[0], "__len__", [], {}, e)
            v = s.deref(args[0])
            if isinstance(v, Comp) :
                v = self.as_seqval(s, v)
            return [(s, I(self.length(v, s)))]
        if n in ("range", "enumerate", "abs"):
            if n == "enumerate" and isinstance(args[0], Obj):
                it = self.iter_any(args[0], s, e)
                args = [it]
            return [(s, self.pure_builtin(n, args, s, e))]
        if n == "zip" and len(args) == 1 and isinstance(args[0], StarV):
            return [(s, self.columns(s, args[0].v, e))]
        if n == "zip":
            return [(s, self.pure_builtin(n, [self.iter_any(a, s, e) for a in args], s, e))]
        if n in ("min", "max"):
            return self.min_max(s, n, args, kw, e)
        if n == "sum":
            return self.do_sum(s, args, e)
        if n in ("bool",):
            return [(s, B(self.truth(args[0], s)))]
        if n == "int":
            if not args:
                return [(s, I(0))]
            return [(s, self.coerce(args[0], INT, s))]
        if n in ("str", "repr"):
            return [(s, SV(STR, fresh(STR, "str")))]
        if n in ("list", "deque", "Deque"):
            if not args:
                return [(s, s.new_cell(SV(EmptyTy("list"), None)))]
            return self.to_list(s, args[0], e)
        if n in ("tuple",):
            if not args:
                return [(s, PT([]))]
            v = args[0]
            if isinstance(v, PT):
                return [(s, v)]
            it = self.iter_any(v, s, e)
            if isinstance(it, IConc):
                return [(s, PT(it.items))]
            return [(s, self.to_itup(s, v))]
        if n in ("set", "frozenset"):
            if not args:
                return [(s, s.new_cell(SV(EmptyTy("set"), None)))]
            return self.to_set(s, args[0], e)
        if n == "dict":
            if not args:
                return [(s, s.new_cell(SV(EmptyTy("dict"), None)))]
            v = s.deref(args[0])
            if isinstance(v, SV) and isinstance(v.ty, DictT):
                t = DictT(v.ty.k, v.ty.v)
                return [(s, s.new_cell(SV(t, t.mk(v.ty.dom(v.t), v.ty.val(v.t)))))]
            it = self.iterable(args[0], s)
            if isinstance(it, ISeq):
                i = z3.Int(f"c!{nid()}")
                el = it.at(s, i)
                if not isinstance(el, PT):
                    el = PT(self.untuple(el, 2))
                it = Comp([i], z3.And(0 <= i, i < it.n(s)), el, s, it.n(s), True)
            return self.comp_to_dict(s, it, e)
        if n in ("defaultdict",):
            return [(s, s.new_cell(SV(EmptyTy("ddict"), None)))]
        if n == "Counter":
            if not args:
                return [(s, s.new_cell(SV(EmptyTy("counter"), None)))]
            dv = s.deref(args[0])
            if isinstance(dv, SV) and isinstance(dv.ty, DictT):
                cty = DictT(dv.ty.k, dv.ty.v, "counter")
                return [(s, s.new_cell(SV(cty, cty.mk(dv.ty.dom(dv.t), dv.ty.val(dv.t)))))]
            raise Unsupported("Counter of iterable", e)
        if n == "sorted":
            return self.do_sorted(s, args, kw, e)
        if n == "map":
            f = args[0]
            it = self.iter_any(args[1], s, e)
            return self.do_map(s, f, it, e)
        if n in ("any", "all"):
            it = self.iter_any(args[0], s, e)
            if isinstance(it, IConc):
                ts = [self.truth(x, s) for x in it.items]
                return [(s, B(mkor(ts) if n == "any" else mkand(ts)))]
            if isinstance(it, ISeq):
                i = z3.Int(f"aa!{nid()}")
                t = self.truth(self.rv(it.at(s, i), s), s)
                dom = z3.And(0 <= i, i < it.n(s))
                vs = [i]
            elif isinstance(it, ISet):
                x = z3.Const(f"aa!{nid()}", it.kty.sort())
                t = self.truth(self.rv(it.mk(x), s), s)
                dom, vs = it.member(x), [x]
            else:
                t, dom, vs = self.truth(it.elem, s), it.dom, it.vars
            return [(s, B(z3.Exists(vs, z3.And(dom, t)) if n == "any" else z3.ForAll(vs, z3.Implies(dom, t))))]
        if n == "iter":
            return [(s, self.iter_any(args[0], s, e))]
        if n == "reversed":
            it = self.iterable(args[0], s)
            if isinstance(it, IConc):
                return [(s, IConc(list(reversed(it.items))))]
            return [(s, ISeq(it.n, lambda st_, i: it.at(st_, it.n(st_) - 1 - i)))]
        if n == "isinstance":
            raise Unsupported("isinstance", e)
        if n == "next":
            raise Unsupported("next()", e)
        if n == "hash" or n == "id":
            return [(s, I(fresh(INT, n)))]
        if n == "deepcopy" or n == "copy":
            v = s.deref(args[0])
            return [(s, s.new_cell(v) if v.ty.mutable else v)]
        if n == "type":
            if isinstance(args[0], Obj):
                ci = self.obj_class(s, args[0])
                return [(s, TypeV(ci=ci, name=ci.name))]
        raise Unsupported("builtin " + n, e)

    def columns(self, s, v, e):
        """zip(*rows) of a sequence of tuples: as many columns as the shortest row has entries"""
        rows = self.as_seqval(s, self.iter_any(v, s, e))
        rt = rows.ty.t
        if not isinstance(rt, ITup):
            raise Unsupported("zip(*...) of this", e)
        n, i = z3.Int(f"cols~{next_fresh()}"), z3.Int(f"col!{nid()}")
        ln = lambda k: rt.len(rows.ty.at(rows.t, k))
        m = rows.ty.len(rows.t)
        s.assume(n >= 0, z3.Implies(m == 0, n == 0), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), n <= ln(i))),
                 z3.Implies(m > 0, z3.Exists([i], z3.And(0 <= i, i < m, ln(i) == n))))
        return ISeq(lambda st_: n, lambda st_, j: ISeq(lambda st2: m, lambda st2, k: SV(rt.t, rt.at(rows.ty.at(rows.t, k), j))))

    def cartesian(self, s, v, e):
        """itertools.product(*rows), rows: one items() view per position"""
        c = self.iter_any(v, s, e)
        if not isinstance(c, Comp) or not c.nofilter or not isinstance(c.elem, ISet) or getattr(c.elem, "dsrc", (0, 0))[1] != "items":
            raise Unsupported("itertools.product of this", e)
        dv = c.elem.dsrc[0]
        row = lambda k: z3.substitute(dv.t, (c.vars[0], k))
        ty = self.w.tenv.parse(f"tuple[{dv.ty.k.name},{dv.ty.v.name}]")
        rt = ITup(ty)
        self.use_type(rt)
        st = Seq(rt)
        res = SV(st, fresh(st, "product"))
        s.assume(*wf(st, res.t))
        self.w.has_types.add(st.name)
        has, m = self.hasfn(st), c.iseq_n
        a, b, i = z3.Int(f"pr!{nid()}"), z3.Int(f"pr!{nid()}"), z3.Int(f"pr!{nid()}")
        x = z3.Const(f"pr!{nid()}", rt.sort())

        def ok(t):
            el = rt.at(t, i)
            return z3.And(rt.len(t) == m, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(sel(dv.ty.dom(row(i)), ty.get(el, 0)), sel(dv.ty.val(row(i)), ty.get(el, 0)) == ty.get(el, 1))), patterns=[el]))

        at = lambda k: st.at(res.t, k)
        s.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < st.len(res.t)), ok(at(a))), patterns=[at(a)]))
        s.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < st.len(res.t)), at(a) != at(b)), patterns=[z3.MultiPattern(at(a), at(b))]))
        s.assume(z3.ForAll([x], z3.Implies(ok(x), has(res.t, x)), patterns=[has(res.t, x)]))
        self.assumed.add("itertools.product yields each combination of one entry per argument, once")
        return s.new_cell(res)

    def do_map(self, s, f, it, e):
        if isinstance(it, IConc):
            rs = [(s, [])]
            for x in it.items:
                nxt = []
                for s1, acc in rs:
                    if isinstance(acc, Raise):
                        nxt.append((s1, acc))
                        continue
                    for s2, v in self.call_value(s1, f, [x], {}, e):
                        nxt.append((s2, v if isinstance(v, Raise) else acc + [v]))
                rs = nxt
            return [(s1, v if isinstance(v, Raise) else IConc(v)) for s1, v in rs]
        # as comprehension
        name = f"__map{nid()}"
        fn = f"__mapf{nid()}"
        src = f"__maps{nid()}"
        d = s.frames[s.fid][1]
        d[fn], d[src] = f, it
        g = ast.parse(f"({fn}({name}) for {name} in {src})", mode="eval").body
        ast.copy_location(g, e)
        ast.fix_missing_locations(g)
        return self.comp(g, s)

    def min_max(self, s, n, args, kw, e):
        if len(args) >= 2:
            return [(s, self.pure_builtin(n, args, s, e))]
        if set(kw) - {"default", "key"}:
            raise Unsupported("min/max keywords", e)
        it = self.iter_any(args[0], s, e)
        if isinstance(it, IConc):
            if not it.items:
                if "default" in kw:
                    return [(s, kw["default"])]
                return [(s, Raise("ValueError", e))]
            if "key" in kw:
                raise Unsupported("min/max key", e)
            r = it.items[0]
            for x in it.items[1:]:
                c = self.lt(r, x, s) if n == "max" else self.lt(x, r, s)
                r = self.ite(c, x, r, s)
            return [(s, r)]
        if "key" in kw:
            raise Unsupported("min/max key", e)
        if isinstance(it, ISeq):
            i = z3.Int(f"mm!{nid()}")
            vars_, dom, el = [i], z3.And(0 <= i, i < it.n(s)), self.rv(it.at(s, i), s)
        elif isinstance(it, ISet):
            x = z3.Const(f"mm!{nid()}", it.kty.sort())
            vars_, dom, el = [x], it.member(x), it.mk(x)
        else:
            vars_, dom, el = it.vars, it.dom, it.elem
        elt = self.coerce(el, INT, s).t
        out = []
        empty = z3.ForAll(vars_, z3.Not(dom))
        s_e = s.copy()
        s_e.assume(empty)
        if self.feasible(s_e):
            if "default" in kw:
                out.append((s_e, kw["default"]))
            else:
                out.append((s_e, Raise("ValueError", e)))
        r = z3.Int(f"{n}~{next_fresh()}")
        s.assume(z3.Exists(vars_, z3.And(dom, elt == r)))
        s.assume(z3.ForAll(vars_, z3.Implies(dom, elt <= r if n == "max" else elt >= r)))
        if self.feasible(s):
            out.append((s, I(r)))
        return out

    def do_sum(self, s, args, e):
        it = self.iter_any(args[0], s, e)
        if isinstance(it, IConc):
            r = z3.IntVal(0)
            for x in it.items:
                r = r + self.coerce(x, INT, s).t
            return [(s, I(r))]
        if isinstance(it, ISet):
            raise Unsupported("sum over set", e)
        ty = ITup(INT)
        if isinstance(it, ISeq) and isinstance(it.src, SV) and it.src.ty == ty:
            t = it.src.t
        else:
            sv = self.as_seqval(s, it, INT)
            t = ty.mk(sv.ty.len(sv.t), sv.ty.arr(sv.t))
        self.use_type(ty)
        return [(s, I(self.sumfn()(t, ty.len(t))))]

    def prodfn(self):
        """tprod(t): product of the entries of an int tuple"""
        return z3.Function("tprod", ITup(INT).sort(), z3.IntSort())

    def sumfn(self):
        """tsum(t, n): sum of the first n entries of an int tuple"""
        ty = ITup(INT)
        f = z3.Function("tsum", ty.sort(), z3.IntSort(), z3.IntSort())
        if "tsum" not in self.axiom_types:
            self.axiom_types.add("tsum")
            self.use_type(ty)
            a, n = z3.Const("as_a", ty.sort()), z3.Int("as_n")
            self.ax.append(z3.ForAll([a, n], z3.Implies(n <= 0, f(a, n) == 0), patterns=[f(a, n)]))
            self.ax.append(z3.ForAll([a, n], z3.Implies(n >= 0, f(a, n + 1) == f(a, n) + ty.at(a, n)), patterns=[z3.MultiPattern(f(a, n), ty.at(a, n))]))
            # stp(a, n): always true, asks for the step at n
            st = z3.Function("stp", ty.sort(), z3.IntSort(), z3.BoolSort())
            self.ax.append(z3.ForAll([a, n], z3.And(st(a, n), z3.Implies(n >= 0, f(a, n + 1) == f(a, n) + ty.at(a, n))), patterns=[st(a, n)]))
        return f

    def do_sorted(self, s, args, kw, e):
        it = self.iter_any(args[0], s, e)
        if "key" not in kw and "reverse" not in kw:
            if isinstance(it, ISeq) and isinstance(it.src, SV) and isinstance(it.src.ty, ITup):
                ty = it.src.ty
                f = self.tsorted(ty)
                t = f(it.src.t)
                self.use_type(ty)
                sv = SV(Seq(ty.t), Seq(ty.t).mk(ty.len(t), z3.Lambda([z3.Int("ts_i")], ty.at(t, z3.Int("ts_i")))))
                sv.src = SV(ty, t)
                return [(s, s.new_cell(sv))]
            if isinstance(it, (ISeq, Comp)) and not (isinstance(it, Comp) and not it.nofilter):
                sv0 = self.as_seqval(s, it)
                if sv0.ty.t == INT:
                    ty = ITup(INT)
                    self.use_type(ty)
                    tt = fresh(ty, "unsorted")
                    s.assume(tt == ty.mk(sv0.ty.len(sv0.t), sv0.ty.arr(sv0.t)))
                    t = self.tsorted(ty)(tt)
                    i = z3.Int("ts_i")
                    # every element of the source has a place in the sorted tuple (triggered by the source's own elements)
                    k = z3.Int(f"ts_k{nid()}")
                    el = z3.simplify(sv0.ty.at(sv0.t, k))
                    p = _trigger(el, k)
                    if p is not None:
                        q = z3.Function("tsq_" + ty.t._id(), ty.sort(), z3.IntSort(), z3.IntSort())
                        s.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < sv0.ty.len(sv0.t)), z3.And(
                            0 <= q(tt, k), q(tt, k) < ty.len(t), ty.at(t, q(tt, k)) == el)), patterns=[p]))
                    sv = SV(sv0.ty, sv0.ty.mk(ty.len(t), z3.Lambda([i], ty.at(t, i))))
                    sv.src = SV(ty, t)
                    return [(s, s.new_cell(sv))]
        if isinstance(it, IConc):
            raise Unsupported("sorted of concrete", e)
        sv = self.as_seqval(s, it)
        t = sv.ty
        r = fresh(t, "sorted")
        p = z3.Function(f"perm!{nid()}", z3.IntSort(), z3.IntSort())
        q = z3.Function(f"iperm!{nid()}", z3.IntSort(), z3.IntSort())
        i, j = z3.Int(f"so_i{nid()}"), z3.Int(f"so_j{nid()}")
        n = t.len(sv.t)
        s.assume(t.len(r) == n)
        s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            0 <= p(i), p(i) < n, q(p(i)) == i, t.at(r, i) == t.at(sv.t, p(i))))))
        s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            0 <= q(i), q(i) < n, p(q(i)) == i, t.at(sv.t, i) == t.at(r, q(i))))))

        def key(x):
            if "key" in kw:
                s2 = s.copy()
                rs = self.call_value(s2, kw["key"], [x], {}, e)
                if len(rs) != 1 or isinstance(rs[0][1], Raise):
                    raise Unsupported("sort key", e)
                return rs[0][1]
            return x

        try:
            a, b = key(SV(t.t, t.at(r, i))), key(SV(t.t, t.at(r, j)))
            s.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(self.lt(b, a, s)))))
        except Unsupported:
            pass
        return [(s, s.new_cell(SV(t, r)))]

    def tsorted(self, ty):
        nm = "tsorted_" + ty.t._id()
        f = z3.Function(nm, ty.sort(), ty.sort())
        if nm not in self.axiom_types:
            self.axiom_types.add(nm)
            self.use_type(ty)
            x = z3.Const("tso_x", ty.sort())
            i, j = z3.Ints("tso_i tso_j")
            self.ax.append(z3.ForAll([x], ty.len(f(x)) == ty.len(x), patterns=[f(x)]))
            self.ax.append(z3.ForAll([x], f(f(x)) == f(x), patterns=[f(x)]))
            p = z3.Function("tsp_" + ty.t._id(), ty.sort(), z3.IntSort(), z3.IntSort())
            q = z3.Function("tsq_" + ty.t._id(), ty.sort(), z3.IntSort(), z3.IntSort())
            self.ax.append(z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < ty.len(x)), z3.And(
                0 <= p(x, i), p(x, i) < ty.len(x), q(x, p(x, i)) == i,
                ty.at(f(x), i) == ty.at(x, p(x, i)))), patterns=[ty.at(f(x), i)]))
            self.ax.append(z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < ty.len(x)), z3.And(
                0 <= q(x, i), q(x, i) < ty.len(x), p(x, q(x, i)) == i,
                ty.at(x, i) == ty.at(f(x), q(x, i)))), patterns=[z3.MultiPattern(f(x), ty.at(x, i))]))
            if ty.t == INT:
                self.ax.append(z3.ForAll([x, i, j], z3.Implies(z3.And(0 <= i, i < j, j < ty.len(x)),
                               ty.at(f(x), i) <= ty.at(f(x), j)),
                               patterns=[z3.MultiPattern(ty.at(f(x), i), ty.at(f(x), j))]))
        return f

    def call_ext(self, s, name, args, kw, e):
        if name in self.w.externs:
            return self.call_contract(s, self.w.externs[name], None, args, kw, e)
        if name in ("time.time", "time.perf_counter", "datetime.timedelta"):
            return [(s, SV(OPAQUE, fresh(OPAQUE, "time")))]
        if name in ("itertools.chain",):
            return self.chain(s, args, e)
        if name == "itertools.chain.from_iterable":
            if isinstance(s.deref(args[0]), RefList):
                return [(s, self.chained_refs(s, s.deref(args[0])))]
            vs, dom, el = self.generic(s, self.iter_any(args[0], s, e), e)
            v2, d2, x = self.generic(s, self.iter_any(el, s, e), e)
            return [(s, Comp(vs + v2, z3.And(dom, d2), x, s))]
        if name == "itertools.filterfalse":
            vs, dom, el = self.generic(s, self.iter_any(args[1], s, e), e)
            rs = self.call_value(s.copy(), args[0], [el], {}, e)
            if len(rs) != 1 or isinstance(rs[0][1], Raise):
                raise Unsupported("filterfalse", e)
            return [(s, Comp(vs, z3.And(dom, z3.Not(self.truth(rs[0][1], rs[0][0]))), el, s))]
        if name in ("collections.deque", "typing.Deque"):
            return self.call_builtin(s, "deque", args, kw, e)
        if name in ("collections.defaultdict",):
            return self.call_builtin(s, "defaultdict", args, kw, e)
        if name in ("collections.Counter", "typing.Counter"):
            return self.call_builtin(s, "Counter", args, kw, e)
        if name in ("typing.cast",):
            return [(s, args[1])]
        if name == "itertools.product" and len(args) == 1 and isinstance(args[0], StarV):
            return [(s, self.cartesian(s, args[0].v, e))]
        if name == "itertools.product" and len(args) == 2 and not kw and not any(isinstance(a, StarV) for a in args):
            va, da, ea = self.generic(s, self.iter_any(args[0], s, e), e)
            vb, db, eb = self.generic(s, self.iter_any(args[1], s, e), e)
            return [(s, Comp(va + vb, z3.And(da, db), PT([ea, eb]), s))]
        if name == "functools.reduce" and len(args) == 2 and isinstance(args[0], ModV) and args[0].name == "operator.mul":
            sv = self.as_seqval(s, self.iter_any(args[1], s, e), INT)
            ty = ITup(INT)
            self.use_type(ty)
            t = ty.mk(sv.ty.len(sv.t), sv.ty.arr(sv.t))
            self.assumed.add("functools.reduce(operator.mul, v) is the product of v (tprod), TypeError if v is empty")
            out = []
            for s2, em in self.split(s, ty.len(t) == 0):
                out.append((s2, Raise("TypeError", e) if em else I(self.prodfn()(t))))
            return out
        if name in ("copy.deepcopy", "copy.copy"):
            return self.call_builtin(s, "deepcopy", args, kw, e)
        raise Unsupported("external call " + name, e)

    def generic(self, s, it, e):
        """(variables, domain, element) of an arbitrary element of an iterable"""
        if isinstance(it, Comp):
            return list(it.vars), it.dom, it.elem
        if isinstance(it, ISeq):
            i = z3.Int(f"ge!{nid()}")
            return [i], z3.And(0 <= i, i < it.n(s)), self.freeze(self.rv(it.at(s, i), s), s)
        if isinstance(it, ISet):
            x = z3.Const(f"ge!{nid()}", it.kty.sort())
            return [x], it.member(x), self.freeze(self.rv(it.mk(x), s), s)
        raise Unsupported("elements of this", e)

    def chain(self, s, args, e):
        its = [self.iter_any(a, s, e) for a in args]
        if all(isinstance(x, IConc) for x in its):
            return [(s, IConc([y for x in its for y in x.items]))]
        if all(isinstance(x, (ISet,)) for x in its) and len({x.kty.name for x in its}) == 1:
            # iterates members of both; duplicates possible (keys in both are visited twice)
            kt = its[0].kty
            return [(s, ISet(kt, lambda x: mkor([i.member(x) for i in its]), its[0].mk, src=("chain", its)))]
        seqs = [self.as_seqval(s, x) for x in its]
        seqs = [q for q in seqs if not isinstance(q.ty, EmptyTy)]
        r = seqs[0]
        for q in seqs[1:]:
            ty, a, b = r.ty, self.named(s, r.t), self.named(s, q.t)
            c = fresh(ty, "chain")
            i, n = z3.Int(f"cc_i{nid()}"), ty.len(a)
            s.assume(ty.len(c) == n + ty.len(b))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), ty.at(c, i) == ty.at(a, i)), patterns=[ty.at(a, i)]))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.len(b)), ty.at(c, n + i) == ty.at(b, i)), patterns=[ty.at(b, i)]))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.len(c)), ty.at(c, i) == z3.If(i < n, ty.at(a, i), ty.at(b, i - n))), patterns=[ty.at(c, i)]))
            r = SV(ty, c)
        return [(s, ISeq(lambda st_: r.ty.len(r.t), lambda st_, i: SV(r.ty.t, r.ty.at(r.t, i)), src=r))]

    def call_typeattr(self, s, t, attr, args, kw, e):
        if t.name == "dict" and attr == "fromkeys":
            pass
        if t.ty is not None:
            con = self.w.contracts.get(f"{t.ty.name}.cls.{attr}")
            if con is not None:
                return self.call_contract(s, con, None, args, kw, e)
        raise Unsupported(f"{t.name}.{attr}", e)

    # methods on containers -------------------------------------------------------
    def call_meth(self, s, recv, attr, args, kw, e):
        v = s.deref(recv)
        if isinstance(v, SV) and isinstance(v.ty, U):
            k = (v.ty.name, attr)
            if k in self.w.attrs:
                f, r, a, raises = self.w.attrs[k]
                if len(args) + len(kw) > len(a):
                    raise Unsupported(f"arity of {v.ty}.{attr}", e)
                ts = [self.coerce(x, t, s).t for x, t in zip(list(args) + list(kw.values()), a)]
                for t in a[len(ts):]:
                    ts.append(default_term(t))
                return self.attr_result(s, f(v.t, *ts), r, raises, [v.t] + ts, e)
            con = self.w.contracts.get(f"{v.ty.name}.{attr}")
            if con is not None:
                return self.call_contract(s, con, None, [v] + args, kw, e)
            raise Unsupported(f"method {v.ty}.{attr}", e)
        if isinstance(v, SV) and isinstance(v.ty, Union):
            # dispatch on the alternative that has the attribute
            for k, t in enumerate(v.ty.ts):
                if (t.name, attr) in self.w.attrs:
                    self.need(s, v.ty.is_k(k, v.t), f"value has attribute {attr}", "type", e)
                    return self.call_meth(s, SV(t, v.ty.out(k, v.t)), attr, args, kw, e)
        if isinstance(v, SV) and v.ty == STR:
            return [(s, SV(STR, fresh(STR, "str")))]
        if isinstance(recv, (PT, ISeq, ISet, IConc)):
            if attr in ("index", "count"):
                raise Unsupported(f"tuple.{attr}", e)
        if attr == "__add__" and (isinstance(recv, PT) or isinstance(v, SV) and isinstance(v.ty, (Seq, ITup))):
            return [(s, self.binop(ast.Add(), v, s.deref(args[0]), s, e))]
        if attr == "__getitem__" and len(args) == 1:
            return self.get_item(s, recv, args[0], e)
        if attr == "__contains__" and len(args) == 1 and isinstance(v, SV):
            return [(s, B(self.contains(args[0], v, s)))]
        if isinstance(v, RefList):
            return self.reflist_meth(s, recv, v, attr, args, kw, e)
        if isinstance(v, SV) and isinstance(v.ty, EmptyTy):
            return self.empty_meth(s, recv, v, attr, args, kw, e)
        if isinstance(v, SV) and isinstance(v.ty, (Seq, ITup)):
            return self.seq_meth(s, recv, v, attr, args, kw, e)
        if isinstance(v, SV) and isinstance(v.ty, SetT):
            return self.set_meth(s, recv, v, attr, args, kw, e)
        if isinstance(v, SV) and isinstance(v.ty, DictT):
            return self.dict_meth(s, recv, v, attr, args, kw, e)
        raise Unsupported(f"method {attr} on {v}", e)

    def empty_meth(self, s, recv, v, attr, args, kw, e):
        k = v.ty.kind
        ty = None
        if attr in ("append", "appendleft"):
            t = self.type_of(args[0], s)
            ty = Seq(t) if t is not None and not isinstance(t, Cls) else None
        elif attr == "add":
            ty = SetT(self.type_of(args[0], s))
        elif attr in ("extend",):
            it = self.iter_any(args[0], s, e)
            if isinstance(it, IConc) and not it.items:
                return [(s, none())]
            sv = self.as_seqval(s, it)
            ty = sv.ty
            args = [ISeq(lambda st_: ty.len(sv.t), lambda st_, i: SV(ty.t, ty.at(sv.t, i)))]
        elif attr == "update" and k == "set":
            rs = self.to_set(s, args[0], e)
            ty = s.deref(rs[0][1]).ty
            if isinstance(ty, EmptyTy):
                return [(s, none())]
        elif attr in ("pop", "popleft"):
            return [(s, Raise("IndexError" if k == "list" else "KeyError", e))]
        elif attr == "get":
            return [(s, args[1] if len(args) > 1 else none())]
        elif attr in ("items", "keys", "values"):
            return [(s, IConc([]))]
        elif attr in ("clear", "discard", "sort"):
            return [(s, none())]
        elif attr == "copy":
            return [(s, s.new_cell(v))]
        if ty is None:
            raise Unsupported(f"{attr} on container of unknown type", e)
        s.cells[recv.cid] = ("val", SV(ty, ty.empty()))
        return self.call_meth(s, recv, attr, args, kw, e)

    def detach_views(self, s, cid, key=None, all_=False):
        """Views into container cid whose element is removed/replaced become independent values."""
        for c, d in list(s.cells.items()):
            if d[0] == "view" and d[1] == cid:
                if not self.reachable(s, c):
                    del s.cells[c]
                    continue
                if all_:
                    s.cells[c] = ("val", s.read(c))
                elif key is not None:
                    if d[2].eq(key):
                        s.cells[c] = ("val", s.read(c))
                    elif not self.entails(s, d[2] != key):
                        if self.entails(s, d[2] == key):
                            s.cells[c] = ("val", s.read(c))
                        else:
                            raise Unsupported("possible alias into modified container")

    def reachable(self, s, cid):
        for p, d, m in s.frames.values():
            for v in d.values():
                if self._holds(s, v, cid):
                    return True
        for v in s.heap.values():
            if self._holds(s, v, cid):
                return True
        return False

    def _holds(self, s, v, cid):
        if isinstance(v, Loc):
            c = v.cid
            while True:
                if c == cid:
                    return True
                d = s.cells.get(c)
                if d is None or d[0] != "view":
                    return False
                c = d[1]
        if isinstance(v, PT):
            return any(self._holds(s, x, cid) for x in v.items)
        return False

    def reflist_meth(self, s, recv, v, attr, args, kw, e):
        if attr == "append" and isinstance(args[0], Loc) and self.type_of(args[0], s) == v.ety:
            new = RefList(v.ety, v.items + (args[0],), v.groups) if not v.groups else None
        elif attr == "extend" and isinstance(args[0], Comp) and getattr(args[0], "elemref", None):
            c = args[0]
            cid, key = c.elemref
            if not isinstance(s.read(cid).ty, DictT) or s.read(cid).ty.v != v.ety:
                raise Unsupported("list of references", e)
            new = RefList(v.ety, v.items, v.groups + ((key, c.dom, cid),))
        else:
            new = None
        if new is None:
            raise Unsupported(f"{attr} of a list of references", e)
        self.wr_cell(s, recv, new)
        return [(s, none())]

    def chained_refs(self, s, v):
        """the elements of the lists referred to, in some order"""
        ty = v.ety
        r = fresh(ty, "chained")
        n = nid()
        i, m = z3.Int(f"ch_i{n}"), z3.Int(f"ch_m{n}")
        s.assume(ty.len(r) >= 0)
        if ty.name not in self.w.has_types:
            which, pos = (z3.Function(f"{x}!{n}", z3.IntSort(), z3.IntSort()) for x in ("part", "pos"))
            alts = []
            for j, loc in enumerate(v.items):
                p = s.read(loc.cid).t
                if not z3.is_const(p):
                    c = z3.Const(f"nm~{next_fresh()}", p.sort())
                    s.assume(c == p)
                    p = c
                alts.append(z3.And(which(i) == j, 0 <= pos(i), pos(i) < ty.len(p), ty.at(r, i) == ty.at(p, pos(i))))
                idx = z3.Function(f"at!{nid()}", z3.IntSort(), z3.IntSort())
                s.assume(z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < ty.len(p)), z3.And(0 <= idx(m), idx(m) < ty.len(r), ty.at(r, idx(m)) == ty.at(p, m))),
                                   patterns=[ty.at(p, m)]))
            for j, (key, dom, cid) in enumerate(v.groups):
                d = s.read(cid)
                gk = z3.Function(f"gkey!{nid()}", z3.IntSort(), key.sort())
                lst = lambda k: sel(d.ty.val(d.t), k)
                g = gk(i)
                alts.append(z3.And(which(i) == len(v.items) + j, z3.substitute(dom, (key, g)), 0 <= pos(i), pos(i) < ty.len(lst(g)), ty.at(r, i) == ty.at(lst(g), pos(i))))
                idx = z3.Function(f"at!{nid()}", key.sort(), z3.IntSort(), z3.IntSort())
                k = z3.Const(f"ch_k{nid()}", key.sort())
                s.assume(z3.ForAll([k, m], z3.Implies(z3.And(z3.substitute(dom, (key, k)), 0 <= m, m < ty.len(lst(k))),
                                                      z3.And(0 <= idx(k, m), idx(k, m) < ty.len(r), ty.at(r, idx(k, m)) == ty.at(lst(k), m))),
                                   patterns=[ty.at(lst(k), m)]))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.len(r)), mkor(alts)), patterns=[ty.at(r, i)]))
        else:
            has, y = self.hasfn(ty), z3.Const(f"ch_y{n}", ty.t.sort())
            alts = []
            for loc in v.items:
                p = self.named(s, s.read(loc.cid).t)
                s.assume(z3.ForAll([y], z3.Implies(has(p, y), has(r, y)), patterns=[has(p, y)]))
                alts.append(has(p, y))
            for key, dom, cid in v.groups:
                d = s.read(cid)
                gk = z3.Function(f"gkey!{nid()}", ty.t.sort(), key.sort())
                k = z3.Const(f"ch_k{nid()}", key.sort())
                lst = lambda k: sel(d.ty.val(d.t), k)
                s.assume(z3.ForAll([k, y], z3.Implies(z3.And(z3.substitute(dom, (key, k)), has(lst(k), y)), has(r, y)), patterns=[has(lst(k), y)]))
                alts.append(z3.And(z3.substitute(dom, (key, gk(y))), has(lst(gk(y)), y)))
            s.assume(z3.ForAll([y], z3.Implies(has(r, y), mkor(alts)), patterns=[has(r, y)]))
        it = ISeq(lambda st_: ty.len(r), lambda st_, i_: SV(ty.t, ty.at(r, i_)), src=SV(ty, r))
        it.lazy = [s.root(loc.cid) for loc in v.items] + [s.root(cid) for _, _, cid in v.groups]
        return it

    def entails(self, s, f):
        sol = z3.Solver()
        sol.set("timeout", 200)
        for x in s.pc:
            if not _has_quant(x):
                sol.add(x)
        sol.add(z3.Not(f))
        if sol.check() == z3.unsat:
            return True
        sol = z3.Solver()
        sol.set("timeout", 500)
        for x in s.pc:
            sol.add(x)
        sol.add(z3.Not(f))
        return sol.check() == z3.unsat

    def put_elem(self, s, recv, key, v, ety, e):
        """value v stored as an element; keeps aliasing of a fresh local container."""
        x = self.coerce(v, ety, s)
        if ety.mutable and isinstance(v, Loc):
            d = s.cells[v.cid]
            if d[0] == "view" or any(isinstance(h, Loc) and h.cid == v.cid for h in s.heap.values()):
                if self.recording is None:
                    raise Unsupported("container stored in two places", e)
            else:
                s.cells[v.cid] = ("view", recv.cid, key)
        return x

    def seq_meth(self, s, recv, v, attr, args, kw, e):
        ty = v.ty
        n = ty.len(v.t)
        if attr == "append":
            x = self.coerce(args[0], ty.t, s)
            self.wr_cell(s, recv, SV(ty, ty.mk(n + 1, z3.Store(ty.arr(v.t), n, x.t))))
            self.has_fact(s, ty, s.deref(recv).t, lambda y, has: z3.Or(has(v.t, y), y == x.t), v.t)
            if ty.t.mutable and isinstance(args[0], Loc):
                self.put_elem(s, recv, n, args[0], ty.t, e)
            return [(s, none())]
        if attr in ("pop", "popleft"):
            out = []
            if args:
                idx = z3.simplify(self.coerce(args[0], INT, s).t)
                if not (z3.is_int_value(idx) and idx.as_long() in (0, -1)):
                    raise Unsupported("list.pop(index)", e)
                left = idx.as_long() == 0
            else:
                left = attr == "popleft"
            for s2, ok in self.split(s, n > 0):
                if not ok:
                    out.append((s2, Raise("IndexError", e)))
                    continue
                v2 = s2.deref(recv)
                if left:
                    x = SV(ty.t, ty.at(v2.t, z3.IntVal(0)))
                    i = z3.Int("pl_i")
                    new = ty.mk(n - 1, z3.Lambda([i], sel(ty.arr(v2.t), i + 1)))
                    self.detach_views(s2, recv.cid, all_=True)
                else:
                    x = SV(ty.t, ty.at(v2.t, n - 1))
                    new = ty.mk(n - 1, ty.arr(v2.t))
                if ty.name in self.w.has_types:
                    new = self.named(s2, new)
                self.wr_cell(s2, recv, SV(ty, new))
                if ty.name in self.w.has_types:
                    has = self.hasfn(ty)
                    y = z3.Const(f"hs!{nid()}", ty.t.sort())
                    ov, nv = self.named(s2, v2.t), self.named(s2, new)
                    s2.assume(has(ov, x.t))
                    s2.assume(z3.ForAll([y], z3.Implies(has(ov, y), z3.Or(y == x.t, has(nv, y))), patterns=[has(ov, y)]))
                    s2.assume(z3.ForAll([y], z3.Implies(has(nv, y), has(ov, y)), patterns=[has(nv, y)]))
                out.append((s2, s2.new_cell(x) if ty.t.mutable else x))
            return out
        if attr == "appendleft":
            i = z3.Int("al_i")
            x = self.coerce(args[0], ty.t, s)
            self.detach_views(s, recv.cid, all_=True)
            self.wr_cell(s, recv, SV(ty, ty.mk(n + 1, z3.Lambda([i], z3.If(i == 0, x.t, sel(ty.arr(v.t), i - 1))))))
            return [(s, none())]
        if attr == "extend":
            it = self.iter_any(args[0], s, e)
            if isinstance(it, IConc) and not it.items:
                return [(s, none())]
            if ty.t.mutable and not isinstance(it, (Comp, IConc)):
                raise Unsupported("extend with containers", e)
            sv = self.as_seqval(s, it, ty.t)
            cur = s.deref(recv)
            if not z3.is_int_value(z3.simplify(ty.len(cur.t))) and self.entails(s, ty.len(cur.t) == 0):
                cur = SV(ty, ty.empty())
            res = self.concat_simpl(cur, sv, s)
            if ty.name in self.w.has_types:
                res = SV(ty, self.named(s, res.t))
            self.wr_cell(s, recv, res)
            if ty.name in self.w.has_types:
                src = it.member if isinstance(it, ISet) and it.mk(z3.Const("hp", it.kty.sort())).t.eq(z3.Const("hp", it.kty.sort())) else None
                self.has_fact(s, ty, s.deref(recv).t, lambda y, has: z3.Or(has(cur.t, y), src(y) if src else has(sv.t, y)), cur.t)
            return [(s, none())]
        if attr == "clear":
            self.detach_views(s, recv.cid, all_=True)
            self.wr_cell(s, recv, SV(ty, ty.empty()))
            return [(s, none())]
        if attr == "copy":
            return [(s, s.new_cell(v))]
        if attr == "sort" and not args and not kw:
            rs = self.do_sorted(s, [recv], {}, e)
            s2, nv = rs[0]
            self.wr_cell(s2, recv, s2.deref(nv))
            return [(s2, none())]
        if attr == "index":
            out = []
            i = z3.Int(f"ix!{nid()}")
            x = args[0]
            isin = self.contains(x, recv, s)
            for s2, ok in self.split(s, isin):
                if not ok:
                    out.append((s2, Raise("ValueError", e)))
                    continue
                r = z3.Int(f"index~{next_fresh()}")
                s2.assume(0 <= r, r < n, self.eq(SV(ty.t, ty.at(v.t, r)), x, s2))
                s2.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r), z3.Not(self.eq(SV(ty.t, ty.at(v.t, i)), x, s2)))))
                out.append((s2, I(r)))
            return out
        raise Unsupported(f"list.{attr}", e)

    def has_fact(self, s, ty, new, body, *olds):
        """membership of the new sequence in terms of the old one (true of 'some position holds y')"""
        if ty.name not in self.w.has_types:
            return
        has = self.hasfn(ty)
        y = z3.Const(f"hs!{nid()}", ty.t.sort())
        new, olds = self.named(s, new), [self.named(s, o) for o in olds]
        b = body(y, has)
        for t in [new] + olds:
            s.assume(z3.ForAll([y], has(new, y) == b, patterns=[has(t, y)]))

    def named(self, s, t):
        """a term that may occur in a trigger, equal to t"""
        if z3.is_const(t) or _trigger_ok([t]):
            return t
        c = z3.Const(f"nm~{next_fresh()}", t.sort())
        s.assume(c == t)
        return c

    def set_meth(self, s, recv, v, attr, args, kw, e):
        ty = v.ty
        if attr in ("add", "discard", "remove"):
            x = self.coerce(args[0], ty.t, s).t
            if attr == "remove":
                out = []
                for s2, ok in self.split(s, sel(v.t, x)):
                    if ok:
                        self.wr_cell(s2, recv, SV(ty, z3.Store(s2.deref(recv).t, x, z3.BoolVal(False))))
                        out.append((s2, none()))
                    else:
                        out.append((s2, Raise("KeyError", e)))
                return out
            self.wr_cell(s, recv, SV(ty, z3.Store(v.t, x, z3.BoolVal(attr == "add"))))
            return [(s, none())]
        if attr == "pop":
            out = []
            for s2, ok in self.split(s, v.t != ty.empty()):
                if ok:
                    x = fresh(ty.t, "popped")
                    s2.assume(sel(v.t, x))
                    self.wr_cell(s2, recv, SV(ty, z3.Store(v.t, x, z3.BoolVal(False))))
                    out.append((s2, SV(ty.t, x)))
                else:
                    out.append((s2, Raise("KeyError", e)))
            return out
        if attr == "clear":
            self.wr_cell(s, recv, SV(ty, ty.empty()))
            return [(s, none())]
        if attr == "copy":
            return [(s, s.new_cell(v))]
        if attr in ("update", "union", "intersection", "difference", "difference_update", "issuperset", "issubset", "isdisjoint"):
            if not args:
                return [(s, s.new_cell(v) if attr == "union" else none())]
            rs = self.to_set(s, args[0], e)
            s2, o = rs[0]
            ov = s2.deref(o)
            if isinstance(ov.ty, EmptyTy):
                ov = SV(ty, ty.empty())
            x = z3.Const(f"su!{nid()}", ty.t.sort())
            cur = s2.deref(recv)
            if attr in ("update", "union"):
                r = z3.Lambda([x], z3.Or(sel(cur.t, x), sel(ov.t, x)))
                st_ = _stores_of(ov.t)
                if st_ is not None:
                    r = cur.t
                    for k in st_:
                        r = z3.Store(r, k, z3.BoolVal(True))
                if attr == "update":
                    self.wr_cell(s2, recv, SV(ty, r))
                    return [(s2, none())]
                return [(s2, s2.new_cell(SV(ty, r)))]
            if attr == "intersection":
                return [(s2, s2.new_cell(SV(ty, z3.Lambda([x], z3.And(sel(cur.t, x), sel(ov.t, x))))))]
            if attr in ("difference", "difference_update"):
                r = z3.Lambda([x], z3.And(sel(cur.t, x), z3.Not(sel(ov.t, x))))
                if attr == "difference_update":
                    self.wr_cell(s2, recv, SV(ty, r))
                    return [(s2, none())]
                return [(s2, s2.new_cell(SV(ty, r)))]
            if attr == "issuperset":
                return [(s2, B(z3.ForAll([x], z3.Implies(sel(ov.t, x), sel(cur.t, x)))))]
            if attr == "issubset":
                return [(s2, B(z3.ForAll([x], z3.Implies(sel(cur.t, x), sel(ov.t, x)))))]
            if attr == "isdisjoint":
                return [(s2, B(z3.ForAll([x], z3.Not(z3.And(sel(ov.t, x), sel(cur.t, x))))))]
        raise Unsupported(f"set.{attr}", e)

    def dict_meth(self, s, recv, v, attr, args, kw, e):
        ty = v.ty
        if attr in ("items", "keys", "values"):
            return [(s, self.dict_iter(v, attr, recv if isinstance(recv, Loc) else None))]
        if attr == "get":
            k = self.try_coerce(args[0], ty.k, s)
            d = args[1] if len(args) > 1 else none()
            if k is None:
                return [(s, d)]
            out = []
            if ty.v.mutable:
                for s2, ok in self.split(s, sel(ty.dom(v.t), k)):
                    out.append((s2, self.elem_val(s2, recv, v, k) if ok else d))
                return out
            return [(s, self.ite(sel(ty.dom(v.t), k), SV(ty.v, sel(ty.val(v.t), k)), d, s))]
        if attr == "pop":
            k = self.try_coerce(args[0], ty.k, s)
            out = []
            if k is None:
                return [(s, args[1])] if len(args) > 1 else [(s, Raise("KeyError", e))]
            self.detach_views(s, recv.cid, key=k)
            if len(args) > 1 and not ty.v.mutable:
                val = self.ite(sel(ty.dom(v.t), k), SV(ty.v, sel(ty.val(v.t), k)), args[1], s)
                self.wr_cell(s, recv, SV(ty, ty.mk(z3.Store(ty.dom(v.t), k, z3.BoolVal(False)), ty.val(v.t))))
                return [(s, val)]
            for s2, ok in self.split(s, sel(ty.dom(v.t), k)):
                if ok:
                    x = SV(ty.v, sel(ty.val(v.t), k))
                    self.wr_cell(s2, recv, SV(ty, ty.mk(z3.Store(ty.dom(v.t), k, z3.BoolVal(False)), ty.val(v.t))))
                    out.append((s2, s2.new_cell(x) if ty.v.mutable else x))
                elif len(args) > 1:
                    out.append((s2, args[1]))
                else:
                    out.append((s2, Raise("KeyError", e)))
            return out
        if attr == "clear":
            self.detach_views(s, recv.cid, all_=True)
            self.wr_cell(s, recv, SV(ty, ty.empty()))
            return [(s, none())]
        if attr == "copy":
            return [(s, s.new_cell(v))]
        if attr == "update" and ty.kind == "counter":
            it = self.iter_any(args[0], s, e)
            if isinstance(it, IConc):
                t = v.t
                for x in it.items:
                    k = self.coerce(x, ty.k, s).t
                    cur = z3.If(sel(ty.dom(t), k), sel(ty.val(t), k), z3.IntVal(0))
                    t = ty.mk(z3.Store(ty.dom(t), k, z3.BoolVal(True)), z3.Store(ty.val(t), k, cur + 1))
                self.wr_cell(s, recv, SV(ty, t))
                return [(s, none())]
        if attr == "update":
            o = s.deref(args[0])
            if isinstance(o, SV) and isinstance(o.ty, DictT):
                k = z3.Const(f"du!{nid()}", ty.k.sort())
                dom = z3.Lambda([k], z3.Or(sel(ty.dom(v.t), k), sel(o.ty.dom(o.t), k)))
                val = z3.Lambda([k], z3.If(sel(o.ty.dom(o.t), k), sel(o.ty.val(o.t), k), sel(ty.val(v.t), k)))
                self.wr_cell(s, recv, SV(ty, ty.mk(dom, val)))
                return [(s, none())]
        if attr == "setdefault":
            k = self.coerce(args[0], ty.k, s).t
            out = []
            for s2, ok in self.split(s, sel(ty.dom(v.t), k)):
                if not ok:
                    x = self.coerce(args[1], ty.v, s2)
                    self.wr_cell(s2, recv, SV(ty, ty.mk(z3.Store(ty.dom(v.t), k, z3.BoolVal(True)),
                                                        z3.Store(ty.val(v.t), k, x.t))))
                out.append((s2, self.elem_val(s2, recv, s2.deref(recv), k)))
            return out
        raise Unsupported(f"dict.{attr}", e)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        """-> [(state, None | ('return',v) | ('raise',Raise) | ('break',) | ('continue',))]"""
        cur = [(st, None)]
        for stmt in stmts:
            nxt = []
            for s, oc in cur:
                if oc is not None:
                    nxt.append((s, oc))
                else:
                    nxt.extend(self.stmt(stmt, s))
            cur = nxt
            if not cur:
                break
        return cur

    def stmt(self, n, s):
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(n).__name__, n)
        return m(n, s)

    def lift(self, rs, f):
        out = []
        for s, v in rs:
            if isinstance(v, Raise):
                out.append((s, ("raise", v)))
            else:
                out.extend(f(s, v))
        return out

    def x_Expr(self, n, s):
        if isinstance(n.value, ast.Constant):
            return [(s, None)]
        return self.lift(self.ev(n.value, s), lambda s2, v: [(s2, None)])

    def x_Pass(self, n, s):
        return [(s, None)]

    def x_Import(self, n, s):
        return [(s, None)]

    x_ImportFrom = x_Import
    x_Nonlocal = x_Import
    x_Global = x_Import

    def x_Assign(self, n, s):
        def f(s2, v):
            outs = [(s2, None)]
            for t in n.targets:
                nxt = []
                for s3, oc in outs:
                    if oc is not None:
                        nxt.append((s3, oc))
                    else:
                        nxt.extend(self.assign(t, v, s3))
                outs = nxt
            return outs

        self.expect = self.field_type(n.targets[0], s)
        t0 = n.targets[0]
        if isinstance(n.value, ast.Dict) and isinstance(t0, ast.Subscript) and isinstance(t0.value, ast.Name):
            v0 = s.lookup(t0.value.id)
            v0 = s.deref(v0) if isinstance(v0, Loc) else v0
            if isinstance(v0, SV) and isinstance(v0.ty, DictT) and isinstance(v0.ty.v, DictT):
                self.expect = v0.ty.v
        rs = self.ev(n.value, s)
        self.expect = None
        return self.lift(rs, f)

    def x_AnnAssign(self, n, s):
        if n.value is None:
            return [(s, None)]

        def f(s2, v):
            if isinstance(v, Loc) and isinstance(s2.read(v.cid).ty, EmptyTy):
                ty = self.ann_type(n.annotation, s2.read(v.cid).ty.kind)
                decl = isinstance(n.target, ast.Name) and self.cur.locals.get(n.target.id)
                if ty is not None and not decl:
                    s2.cells[v.cid] = ("val", SV(ty, ty.empty()))
            return self.assign(n.target, v, s2)

        self.expect = self.field_type(n.target, s)
        rs = self.ev(n.value, s)
        self.expect = None
        return self.lift(rs, f)

    def field_type(self, t, s):
        """declared type of an assigned attribute of self, if any"""
        if isinstance(t, ast.Name):
            f = self.cur.locals.get(t.id) if self.cur else None
            return self.w.tenv.parse(f) if f and f.startswith("dict[") else None
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            o = s.lookup(t.value.id)
            if isinstance(o, Obj):
                f = self.w.records[o.rec].fields.get(t.attr)
                return self.w.tenv.parse(f) if f and not f.startswith(("fn:", "type:")) else None
        return None

    def ann_type(self, a, kind):
        """typing annotation -> Ty, only for simple containers."""
        try:
            return self._ann(a, kind)
        except (Unsupported, ValueError, AttributeError, KeyError):
            return None

    def _ann(self, a, kind=None):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            a = ast.parse(a.value, mode="eval").body
        if isinstance(a, ast.Name):
            if a.id in ("int", "bool", "str"):
                return self.w.tenv.named[a.id]
            if a.id == "RuleKey":
                return self.w.tenv.parse("tuple[int,tup[int]]")
            if a.id == "RulesDict":
                return self.w.tenv.parse(("ddict" if kind == "ddict" else "dict") + "[int,set[tup[int]]]")
            if a.id in self.w.tenv.named:
                return self.w.tenv.named[a.id]
            raise Unsupported("annotation")
        if isinstance(a, ast.Subscript):
            h = a.value.id
            args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if h in ("List", "Deque", "list", "Iterator", "Iterable"):
                return Seq(self._ann(args[0]))
            if h in ("Set", "FrozenSet", "set"):
                return SetT(self._ann(args[0]))
            if h in ("Dict", "DefaultDict", "dict", "defaultdict"):
                k = kind if kind in ("ddict", "counter") else "dict"
                return DictT(self._ann(args[0]), self._ann(args[1]), k)
            if h in ("Counter", "CounterType"):
                return DictT(self._ann(args[0]), INT, "counter")
            if h in ("Tuple", "tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ITup(self._ann(args[0]))
                return TupT([self._ann(x) for x in args])
            if h == "Optional":
                return Opt(self._ann(args[0]))
        raise Unsupported("annotation")

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            decl = self.cur.locals.get(t.id)
            if decl and isinstance(v, Loc) and isinstance(s.read(v.cid).ty, Seq) and s.read(v.cid).ty.t == NONE:
                # a list of None is a list of optional values
                ty, cur = self.w.tenv.parse(decl), s.read(v.cid)
                if isinstance(ty, Seq) and isinstance(ty.t, Opt):
                    s.cells[v.cid] = ("val", SV(ty, ty.mk(cur.ty.len(cur.t), z3.K(z3.IntSort(), ty.t.none()))))
            self.set_local(s, t.id, v)
            return [(s, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Loc):
                it = self.iterable(v, s)
                n = z3.simplify(it.n(s)) if isinstance(it, ISeq) else None
                if n is not None and z3.is_int_value(n) and n.as_long() == len(t.elts):
                    v = PT([self.rv(it.at(s, z3.IntVal(i)), s) for i in range(len(t.elts))])
                elif isinstance(it, ISeq):
                    self.need(s, it.n(s) == len(t.elts), "unpacking length", "noraise", t)
                    v = PT([self.rv(it.at(s, z3.IntVal(i)), s) for i in range(len(t.elts))])
            elif isinstance(v, SV) and isinstance(v.ty, ITup):
                self.need(s, v.ty.len(v.t) == len(t.elts), "unpacking length", "noraise", t)
                v = PT([SV(v.ty.t, v.ty.at(v.t, z3.IntVal(i))) for i in range(len(t.elts))])
            elif isinstance(v, IConc):
                v = PT(v.items)
            outs = [(s, None)]
            for tt, x in zip(t.elts, self.untuple(v, len(t.elts))):
                nxt = []
                for s2, oc in outs:
                    nxt.extend(self.assign(tt, x, s2) if oc is None else [(s2, oc)])
                outs = nxt
            return outs
        if isinstance(t, ast.Attribute):
            def f(s2, b):
                if not isinstance(b, Obj):
                    raise Unsupported("attribute assignment", t)
                return self.assign_field(s2, b, t.attr, v, t)

            return self.lift(self.ev(t.value, s), f)
        if isinstance(t, ast.Subscript):
            def g(s2, vs):
                b, k = vs
                return self.set_item(s2, b, k, v, t)

            return self.lift(self.ev_list([t.value, t.slice], s), g)
        raise Unsupported("assignment target", t)

    def assign_field(self, s, b, f, v, node):
        rd = self.w.records[b.rec]
        t = rd.fields.get(f)
        if t is None:
            # unknown attribute: keep as is (not part of the declared state)
            self.wr_field(s, b.oid, f, self.freeze(v, s) if not isinstance(v, (Obj, TypeV, Loc, FnV)) else v)
            return [(s, None)]
        if t.startswith("type:"):
            self.wr_field(s, b.oid, f, v)
            return [(s, None)]
        if t.startswith("fn:"):
            if not (isinstance(v, TypeV) and v.name == t[3:]):
                raise Unsupported(f"{f} is not the builtin {t[3:]}", node)
            self.wr_field(s, b.oid, f, v)
            return [(s, None)]
        ty = self.w.tenv.parse(t)
        if isinstance(ty, Cls):
            if not isinstance(v, Obj) or v.rec != ty.name:
                raise Unsupported("object field", node)
            self.wr_field(s, b.oid, f, v)
            return [(s, None)]
        if ty.mutable and isinstance(v, Loc):
            cur = s.read(v.cid)
            if cur.ty != ty:
                s.cells[v.cid] = ("val", self.coerce(cur, ty, s)) if s.cells[v.cid][0] == "val" else s.cells[v.cid]
            if s.cells[v.cid][0] == "view":
                raise Unsupported("field aliasing a nested container", node)
            self.wr_field(s, b.oid, f, v)
            return [(s, None)]
        if ty.mutable and isinstance(v, (Comp, ISeq, ISet, IConc, PT)):
            it = v if not isinstance(v, PT) else IConc(v.items)
            sv = self.as_seqval(s, it, ty.t if isinstance(ty, Seq) else None)
            self.wr_field(s, b.oid, f, s.new_cell(sv))
            return [(s, None)]
        if ty.mutable:
            x = self.coerce(self.tuple_as_seq(v, ty, s), ty, s)
            self.wr_field(s, b.oid, f, s.new_cell(x))
            return [(s, None)]
        if isinstance(ty, ITup) and isinstance(s.deref(v), SV) and isinstance(s.deref(v).ty, Seq):
            v = self.to_itup(s, v)
        self.wr_field(s, b.oid, f, self.coerce(v, ty, s))
        return [(s, None)]

    def tuple_as_seq(self, v, ty, s):
        if isinstance(v, SV) and isinstance(v.ty, ITup) and isinstance(ty, Seq):
            i = z3.Int("tq_i")
            return SV(Seq(v.ty.t), Seq(v.ty.t).mk(v.ty.len(v.t), z3.Lambda([i], v.ty.at(v.t, i))))
        return v

    def set_item(self, s, b, k, v, node):
        if isinstance(b, Obj):
            return self.lift(self.call_method(s, b, "__setitem__", [k, v], {}, node), lambda s2, r: [(s2, None)])
        bv = s.deref(b)
        if isinstance(bv, SV) and isinstance(bv.ty, EmptyTy):
            kt, vt = self.type_of(k, s), self.type_of(v, s)
            if bv.ty.kind == "list":
                return [(s, ("raise", Raise("IndexError", node)))]
            ty = DictT(kt, vt, bv.ty.kind)
            s.cells[b.cid] = ("val", SV(ty, ty.empty()))
            bv = s.deref(b)
        ty = bv.ty
        if isinstance(ty, DictT):
            kk = self.coerce(k, ty.k, s).t
            if ty.v.mutable:
                self.detach_views(s, b.cid, key=kk)
            x = self.coerce(v, ty.v, s)
            bv = s.deref(b)
            self.wr_cell(s, b, SV(ty, ty.mk(z3.Store(ty.dom(bv.t), kk, z3.BoolVal(True)),
                                            z3.Store(ty.val(bv.t), kk, x.t))))
            if ty.v.mutable and isinstance(v, Loc):
                self.put_elem(s, b, kk, v, ty.v, node)
            return [(s, None)]
        if isinstance(ty, Seq):
            i = self.coerce(k, INT, s).t
            n = ty.len(bv.t)
            out = []
            for s2, ok in self.split(s, z3.And(0 <= i, i < n)):
                if ok:
                    idx = i
                else:
                    idx = i + n
                    sp = self.split(s2, z3.And(i < 0, i + n >= 0))
                    good = None
                    for s3, neg in sp:
                        if neg:
                            good = s3
                        else:
                            out.append((s3, ("raise", Raise("IndexError", node))))
                    if good is None:
                        continue
                    s2 = good
                if ty.t.mutable:
                    self.detach_views(s2, b.cid, key=idx)
                x = self.coerce(v, ty.t, s2)
                cur = s2.deref(b)
                self.wr_cell(s2, b, store(cur, idx, x))
                if ty.t.mutable and isinstance(v, Loc):
                    self.put_elem(s2, b, idx, v, ty.t, node)
                out.append((s2, None))
            return out
        raise Unsupported(f"item assignment on {ty}", node)

    def x_AugAssign(self, n, s):
        t = n.target
        if isinstance(t, ast.Name):
            cur = ast.Name(id=t.id, ctx=ast.Load())
            return self.aug(n, s, lambda s2: self.ev(ast.copy_location(cur, n), s2),
                            lambda s2, v: self.assign(t, v, s2))
        if isinstance(t, ast.Attribute):
            def f(s2, b):
                return self.aug(n, s2, lambda s3: self.get_attr(s3, b, t.attr, n),
                                lambda s3, v: self.assign_field(s3, b, t.attr, v, n))

            return self.lift(self.ev(t.value, s), f)
        if isinstance(t, ast.Subscript):
            def g(s2, vs):
                b, k = vs
                return self.aug(n, s2, lambda s3: self.get_item(s3, b, k, n),
                                lambda s3, v: self.set_item(s3, b, k, v, n))

            return self.lift(self.ev_list([t.value, t.slice], s), g)
        raise Unsupported("augmented assignment", n)

    def aug(self, n, s, get, put):
        def f(s2, cur):
            def g(s3, v):
                if isinstance(cur, Loc):
                    cv = s3.deref(cur)
                    if isinstance(n.op, ast.Add) and isinstance(cv, SV) and isinstance(cv.ty, (Seq, EmptyTy)):
                        return self.lift(self.call_meth(s3, cur, "extend", [v], {}, n), lambda s4, r: [(s4, None)])
                    if isinstance(n.op, ast.BitOr):
                        return self.lift(self.call_meth(s3, cur, "update", [v], {}, n), lambda s4, r: [(s4, None)])
                    if isinstance(n.op, ast.Sub):
                        return self.lift(self.call_meth(s3, cur, "difference_update", [v], {}, n), lambda s4, r: [(s4, None)])
                r = self.binop(n.op, cur, v, s3, n)
                if isinstance(r, SV) and r.ty.mutable:
                    r = s3.new_cell(r)
                return put(s3, r)

            return self.lift(self.ev(n.value, s2), g)

        return self.lift(get(s), f)

    def x_If(self, n, s):
        def f(s2, v):
            out = []
            for s3, b in self.split(s2, self.truth(v, s2)):
                out.extend(self.block(n.body if b else n.orelse, s3))
            return out

        return self.lift(self.ev(n.test, s), f)

    def x_Return(self, n, s):
        if n.value is None:
            return [(s, ("return", none()))]
        out = []
        for s2, v in self.ev(n.value, s):
            if not isinstance(v, Raise) and self.cur.at_return and s2.fid == self.root_fid:
                r = v
                if isinstance(r, Comp):
                    r = self.as_seqval(s2, r)
                if not isinstance(r, Loc) and self.cur.returns:
                    r = self.coerce(r, self.w.tenv.parse(self.cur.returns), s2, spec=True)
                for ex in self.cur.at_return:
                    self.need(s2, self.spec_bool(ex, self.lctx(s2, {"result": r})), f"return {str(ex)[:60]}", "hint", n)
            out.append((s2, ("raise", v) if isinstance(v, Raise) else ("return", v)))
        return out

    def x_Assert(self, n, s):
        def f(s2, v):
            out = []
            for s3, b in self.split(s2, self.truth(v, s2)):
                out.append((s3, None if b else ("raise", Raise("AssertionError", n))))
            return out

        return self.lift(self.ev(n.test, s), f)

    def x_Raise(self, n, s):
        if n.exc is None:
            ex = s.lookup("$exc")
            return [(s, ("raise", Raise(ex.name if ex else "Exception", n)))]
        x = n.exc
        nm = None
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
            o = s.lookup(x.func.value.id)
            ci = self.obj_class(s, o) if isinstance(o, Obj) else None
            fi = self.w.find_method(ci, x.func.attr) if ci else None
            ret = getattr(fi.node, "returns", None) if fi else None
            if isinstance(ret, ast.Name) and ret.id in EXC_PARENTS:
                # a method that builds the exception (its class from the declared return type)
                self.assumed.add(f"{x.func.attr} returns an instance of {ret.id} (its annotation)")
                return self.lift(self.ev(x, s), lambda s2, v: [(s2, ("raise", Raise(ret.id, n)))])
        if isinstance(x, ast.Call):
            x = x.func
        if isinstance(x, ast.Name):
            v = s.lookup(x.id)
            nm = v.name if isinstance(v, FnV) and v.kind == "exc" else x.id
        if nm is None:
            raise Unsupported("raise", n)
        return [(s, ("raise", Raise(nm, n)))]

    def x_Break(self, n, s):
        return [(s, ("break",))]

    def x_Continue(self, n, s):
        return [(s, ("continue",))]

    def x_FunctionDef(self, n, s):
        from .world import _is_gen
        self.set_local(s, n.name, FnV("closure", args=n.args, body=n.body, fid=s.fid, name=n.name,
                                      gen=_is_gen(n)))
        return [(s, None)]

    def x_Delete(self, n, s):
        outs = [(s, None)]
        for t in n.targets:
            nxt = []
            for s2, oc in outs:
                if isinstance(t, ast.Subscript):
                    def g(s3, vs):
                        b, k = vs
                        v = s3.deref(b)
                        if isinstance(v, SV) and isinstance(v.ty, DictT):
                            return self.lift(self.dict_meth(s3, b, v, "pop", [k], {}, n), lambda s4, r: [(s4, None)])
                        raise Unsupported("del", n)

                    nxt.extend(self.lift(self.ev_list([t.value, t.slice], s2), g))
                elif isinstance(t, ast.Name):
                    s2.frames[s2.fid][1].pop(t.id, None)
                    nxt.append((s2, None))
                else:
                    raise Unsupported("del", n)
            outs = nxt
        return outs

    def x_Try(self, n, s):
        if n.finalbody:
            raise Unsupported("finally", n)
        out = []
        for s2, oc in self.block(n.body, s):
            if oc is not None and oc[0] == "raise":
                exc = oc[1].exc
                done = False
                for h in n.handlers:
                    if self.matches(exc, h.type, s2):
                        if h.name:
                            s2.frames[s2.fid][1][h.name] = FnV("exc", name=exc)
                        s2.frames[s2.fid][1]["$exc"] = FnV("exc", name=exc)
                        out.extend(self.block(h.body, s2))
                        done = True
                        break
                if not done:
                    out.append((s2, oc))
            elif oc is None and n.orelse:
                out.extend(self.block(n.orelse, s2))
            else:
                out.append((s2, oc))
        return out

    def matches(self, exc, t, s):
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            return any(self.matches(exc, x, s) for x in t.elts)
        nm = t.id if isinstance(t, ast.Name) else t.attr
        if nm == exc or nm in EXC_PARENTS.get(exc, ("Exception",)) or nm == "BaseException":
            return True
        return False

    def x_With(self, n, s):
        raise Unsupported("with", n)

    # ------------------------------------------------------------------ loops
    def loop_id(self, n, s):
        key = (tuple(x for x in s.stack if isinstance(x, str)), n.lineno, n.col_offset)
        if key not in self.loop_keys:
            # textual order inside the verified function; loops of inlined helpers follow by first use
            self.loop_keys[key] = len(self.loop_keys)
        return self.loop_keys[key]

    def loop_spec(self, k):
        sp = self._loop_spec(k)
        sp.setdefault("inv", [])
        return sp

    def _loop_spec(self, k):
        sp = self.cur.loops.get(k)
        if sp is None:
            return {"inv": []}
        if isinstance(sp, (list, tuple)):
            return {"inv": list(sp)}
        return sp

    def x_While(self, n, s):
        return self.loop_else(n, self.leave(n, self.loop(n, s, None)))

    def loop_else(self, n, outs):
        """the else block of a loop that was not left by break"""
        if not n.orelse:
            return outs
        res = []
        for s, oc in outs:
            if oc is None:
                res.extend(self.block(n.orelse, s))
            else:
                res.append((s, None if oc[0] == "broke" else oc))
        return res

    def x_For(self, n, s):
        broke = ("broke",) if n.orelse else None

        def f(s2, itv):
            if isinstance(itv, Obj):
                rs = self.call_method(s2, itv, "__iter__", [], {}, n)
                if len(rs) == 1 and isinstance(rs[0][1], Obj):
                    return self.for_iterator(n, rs[0][0], rs[0][1])
            it = self.iter_any(itv, s2, n)
            if isinstance(it, Comp):
                it = self.comp_as_iter(s2, it)
            if isinstance(it, ISeq):
                ln = z3.simplify(it.n(s2))
                if z3.is_int_value(ln) and ln.as_long() <= 4 and not self.live_dep(it, s2):
                    it = IConc([self.rv(it.at(s2, z3.IntVal(i)), s2) for i in range(ln.as_long())])
            if isinstance(it, IConc):
                self.loop_id(n, s2)
                outs = [(s2, None)]
                for x in it.items:
                    nxt = []
                    for s3, oc in outs:
                        if oc is not None:
                            nxt.append((s3, oc))
                            continue
                        for s4, oc2 in self.assign(n.target, x, s3):
                            if oc2 is not None:
                                nxt.append((s4, oc2))
                                continue
                            for s5, oc3 in self.block(n.body, s4):
                                if oc3 is not None and oc3[0] == "continue":
                                    oc3 = None
                                nxt.append((s5, oc3))
                    outs = nxt
                return [(s3, broke if oc is not None and oc[0] == "break" else oc) for s3, oc in outs]
            return self.loop(n, s2, it)

        x = n.iter
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "sorted") and len(x.args) == 1 \
                and not x.keywords and isinstance(x.args[0], (ast.Name, ast.Attribute)) and s.lookup(x.func.id) is None:
            # the elements of a set, each once, in an order that is not relied upon
            def g(s2, v):
                sv = s2.deref(v) if isinstance(v, Loc) else v
                if isinstance(sv, SV) and isinstance(sv.ty, SetT):
                    t, ty = sv.t, sv.ty
                    return f(s2, ISet(ty.t, lambda y: sel(t, y), lambda y: SV(ty.t, y)))
                return self.lift(self.call_builtin(s2, x.func.id, [v], {}, x), f)
            return self.loop_else(n, self.leave(n, self.lift(self.ev(x.args[0], s), g)))
        return self.loop_else(n, self.leave(n, self.lift(self.ev(n.iter, s), f)))

    def for_iterator(self, n, s, obj):
        """a for loop over an object that is its own iterator: next() until StopIteration, as a while loop"""
        k = self.loop_id(n, s)
        it, more = f"_itobj{k}", f"_more{k}"
        b = s.frames[s.fid][1]
        b[it] = obj
        b[more] = B(True)
        src = f"while {more}:\n    try:\n        _nx{k} = {it}.__next__()\n    except StopIteration:\n        {more} = False\n        continue\n"
        w = ast.parse(src).body[0]
        for x in ast.walk(w):
            if hasattr(x, "lineno"):
                x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = n.lineno, n.col_offset, n.lineno, n.col_offset
        asg = ast.copy_location(ast.Assign(targets=[n.target], value=ast.copy_location(ast.Name(f"_nx{k}", ast.Load()), n), type_comment=None), n)
        w.body = w.body + [asg] + n.body
        w.orelse = n.orelse
        return self.loop(w, s, None)

    def leave(self, n, outs):
        """ghost updates made when a loop is left normally"""
        for s, oc in outs:
            if oc is None or oc[0] == "broke":
                for g, ex in self.loop_spec(self.loop_id(n, s)).get("leave", []):
                    self.set_gvar(s, g, ex, self.lctx(s, dict(self.ghost_env)))
        return outs

    def live_dep(self, it, s):
        return False

    def comp_as_iter(self, s, c):
        if c.nofilter and c.iseq_n is not None:
            v = c.vars[0]
            return ISeq(lambda st_: c.iseq_n, lambda st_, i: subst_val(c.elem, v, i))
        if len(c.vars) == 1:
            v = c.vars[0]
            if isinstance(c.elem, SV) and c.elem.t.eq(v):
                return ISet(c.elem.ty, lambda x: z3.substitute(c.dom, (v, x)), lambda x: SV(c.elem.ty, x))
        sv = self.as_seqval(s, c)
        return ISeq(lambda st_: sv.ty.len(sv.t), lambda st_, i: SV(sv.ty.t, sv.ty.at(sv.t, i)))

    def loop(self, n, s, it):
        k = self.loop_id(n, s)
        sp = self.loop_spec(k)
        invs = [(x if isinstance(x, tuple) else (f"inv{i}", x)) for i, x in enumerate(sp["inv"])]
        inv_body_only = sp.get("auto", [])
        fid = s.fid
        iname, sname = f"_i{k}", f"_seen{k}"
        lowtag = "loop%d" % k
        # entry snapshot names for loop-relative old: `_at{k}(x)` not provided; ghosts via let
        lets = sp.get("let", {})
        base_names = dict(self.ghost_env)
        entry = self.entry
        for nm, ex in lets.items():
            ctx = self.lctx(s, dict(base_names))
            v = self.sev(ast.parse(ex, mode="eval").body, ctx)
            base_names[nm] = s.deref(v)
        if it is not None and isinstance(it, ISet):
            mem0 = it.member
            kty = it.kty
            x0 = z3.Const(f"lp_x{nid()}", kty.sort())
            base_names[f"_dom{k}"] = SV(SetT(kty), _set_of(mem0, kty))

        if isinstance(it, ISeq) and isinstance(it.src, (Loc, SV)):
            sq = s.deref(it.src)
            if isinstance(sq, SV) and isinstance(sq.ty, (Seq, ITup)):
                base_names[f"_seq{k}"] = sq

        def names(**kw):
            d = dict(base_names)
            d.update(kw)
            return d

        def inv_terms(st, nm):
            ctx = self.lctx(st, nm)
            return [(lab, self.spec_bool(ex, ctx)) for lab, ex in invs]

        ghosts = sp.get("ghost", {})
        gnames = {}
        for g, (t, init, upd) in ghosts.items():
            ctx = self.lctx(s, dict(base_names))
            gnames[g] = self.coerce(self.sev(ast.parse(init, mode="eval").body, ctx),
                                    self.w.tenv.parse(t), s, spec=True)
        for g, ex in sp.get("enter", []):
            self.set_gvar(s, g, ex, self.lctx(s, names(**gnames)))
        # 1. entry
        nm0 = names(**gnames)
        if isinstance(it, ISeq):
            nm0[iname] = I(0)
        if isinstance(it, ISet):
            nm0[sname] = SV(SetT(kty), SetT(kty).empty())
        for lab, t in inv_terms(s, nm0):
            self.need(s, t, f"{lowtag} {lab} holds on entry", "loop-init", n)
        # 2. find writes
        rn = names(**gnames)
        rn.update({x: v for x, v in nm0.items() if x not in rn})
        if isinstance(it, ISet):
            rn[f"_it{k}"] = SV(kty, fresh(kty, "rec"))
        self.loop_stack.append((k, rn))
        try:
            writes = self.record_writes(n, s, it)
        finally:
            self.loop_stack.pop()
        if any(("cell", c) in writes for c in getattr(it, "lazy", ())):
            raise Unsupported("lists changed while they are chained", n)
        # 3. havoc
        h = s
        for wr in writes:
            if wr[0] == "cell" and wr[1] in h.cells:
                sv = h.read(wr[1])
                if isinstance(sv, RefList):
                    raise Unsupported("list of references changed in a loop", n)
                if isinstance(sv.ty, EmptyTy):
                    ty = self.loop_cell_types.get(wr[1])
                    if ty is None:
                        raise Unsupported("container of unknown type modified in a loop", n)
                    sv = SV(ty, ty.empty())
                t = fresh(sv.ty, "lp")
                h.assume(*wf(sv.ty, t))
                if isinstance(sv.ty, ITup):
                    self.use_type(sv.ty)
                h.cells[wr[1]] = ("val", SV(sv.ty, t))
            elif wr[0] == "field":
                v = h.heap.get((wr[1], wr[2]))
                if isinstance(v, SV):
                    h.heap[(wr[1], wr[2])] = SV(v.ty, fresh(v.ty, "lp_" + wr[2]))
                elif isinstance(v, Loc):
                    sv = h.read(v.cid)
                    t = fresh(sv.ty, "lp_" + wr[2])
                    h.assume(*wf(sv.ty, t))
                    h.heap[(wr[1], wr[2])] = h.new_cell(SV(sv.ty, t))
                elif v is not None:
                    raise Unsupported(f"object field {wr[2]} rebound in a loop", n)
            elif wr[0] == "local":
                f, nm = wr[1], wr[2]
                if f in h.frames and nm in h.frames[f][1]:
                    h.frames[f][1][nm] = self.havoc_local(h, h.frames[f][1][nm], nm, n)
                elif f in h.frames and nm in self.cur.locals and not self.w.tenv.parse(self.cur.locals[nm]).mutable:
                    # bound in the loop only: some value of its type afterwards
                    h.frames[f][1][nm] = self.havoc_local(h, None, nm, n)
                    self.assumed.add(f"{self.cur_name}: {nm} is bound when read after the loop")
        h.ver += 1
        hnames = names()
        for g, (t, init, upd) in ghosts.items():
            hnames[g] = SV(self.w.tenv.parse(t), fresh(self.w.tenv.parse(t), "gh_" + g))
        if isinstance(it, ISeq):
            i = z3.Int(f"{iname}~{next_fresh()}")
            hnames[iname] = I(i)
            h.assume(0 <= i, i <= it.n(h))
        if isinstance(it, ISet):
            seen = fresh(SetT(kty), "seen")
            hnames[sname] = SV(SetT(kty), seen)
            x = z3.Const(f"sn_x{nid()}", kty.sort())
            h.assume(z3.ForAll([x], z3.Implies(sel(seen, x), it.member(x)), patterns=[seen[x]]))
        for lab, t in inv_terms(h, hnames):
            h.assume(t)
        for ex in sp.get("assume", []):
            self.assumed.add(f"loop assumption in {self.cur_name}: {ex}")
            h.assume(self.spec_bool(ex, self.lctx(h, hnames)))
        out = []
        # 4. body
        b = h.copy()
        body_in = []
        if it is None:
            for s3, v in self.ev(n.test, b):
                if isinstance(v, Raise):
                    out.append((s3, ("raise", v)))
                    continue
                for s4, t in self.split(s3, self.truth(v, s3)):
                    if t:
                        body_in.append(s4)
                    else:
                        out.append((s4, None))
        elif isinstance(it, ISeq):
            done = h.copy()
            done.assume(i >= it.n(done))
            if self.feasible(done):
                out.append((done, None))
            b.assume(i < it.n(b))
            if self.feasible(b):
                el = self.rv(it.at(b, i), b)
                for s3, oc in self.assign(n.target, el, b):
                    body_in.append(s3)
        else:
            done = h.copy()
            x = z3.Const(f"dn_x{nid()}", kty.sort())
            dset = _set_of(it.member, kty)
            done.assume(z3.ForAll([x], it.member(x) == sel(seen, x)))
            if z3.is_const(dset) or z3.is_app(dset):
                done.assume(seen == dset)
            if self.feasible(done):
                out.append((done, None))
            cur = fresh(kty, "it")
            if isinstance(kty, ITup):
                self.use_type(kty)
            hnames[f"_it{k}"] = SV(kty, cur)
            b.assume(it.member(cur), z3.Not(sel(seen, cur)))
            if self.feasible(b):
                el = it.mk(cur)
                if it.live is None and it.src is not None and isinstance(it.src, Loc):
                    # snapshot of a container: nested value must still be the one at this key
                    if _has_view(el):
                        sv = b.read(it.src.cid)
                        self.need(b, sel(sv.ty.dom(sv.t), cur), f"{lowtag}: key still present", "noraise", n)
                el = self.rv(el, b)
                for s3, oc in self.assign(n.target, el, b):
                    body_in.append(s3)
        self.loop_stack.append((k, hnames))
        try:
            for s3 in body_in:
                ventry = s3.ver
                measure = self.sval(self.sev(ast.parse(sp["decr"], mode="eval").body, self.lctx(h, hnames)), self.lctx(h, hnames)).t if sp.get("decr") else None
                for ex in sp.get("start", []):
                    self.need(s3, self.spec_bool(ex, self.lctx(s3, hnames)), f"{lowtag} start {str(ex)[:60]}", "hint", n)
                for s4, oc in self.block(n.body, s3):
                    self.frozen_ok(s4, n)
                    if oc is not None and oc[0] in ("return", "raise"):
                        out.append((s4, oc))
                        continue
                    if oc is not None and oc[0] == "break":
                        s4.frames[fid] = s4.frames[fid]
                        out.append((s4, ("broke",) if n.orelse else None))
                        continue
                    # continue / normal: invariant preserved
                    nm = dict(hnames)
                    for g, (t, init, upd) in ghosts.items():
                        ctx = self.lctx(s4, dict(nm))
                        nm[g] = self.coerce(self.sev(ast.parse(upd, mode="eval").body, ctx),
                                            self.w.tenv.parse(t), s4, spec=True)
                    if isinstance(it, ISeq):
                        nm[iname] = I(i + 1)
                        nm["_prev" + iname] = I(i)
                    if isinstance(it, ISet):
                        nm[sname] = SV(SetT(kty), z3.Store(seen, cur, z3.BoolVal(True)))
                        if it.live is not None:
                            lc, t0 = it.live
                            if lc in s4.cells:
                                sv = s4.read(lc)
                                nowdom = sv.ty.dom(sv.t) if isinstance(sv.ty, DictT) else sv.t
                                if not nowdom.eq(t0):
                                    self.need(s4, nowdom == t0, f"{lowtag}: container not resized while iterated", "noraise", n)
                    for g, ex in sp.get("step", []):
                        self.set_gvar(s4, g, ex, self.lctx(s4, nm))
                    for ex in sp.get("hint", []):
                        # lemma instances / asserted stepping stones
                        t = self.spec_bool(ex, self.lctx(s4, nm))
                        self.need(s4, t, f"{lowtag} hint", "hint", n)
                    for lab, t in inv_terms(s4, nm):
                        self.need(s4, t, f"{lowtag} {lab} preserved", "loop-pres", n)
                    if measure is not None:
                        m2 = self.sval(self.sev(ast.parse(sp["decr"], mode="eval").body, self.lctx(s4, nm)), self.lctx(s4, nm)).t
                        self.need(s4, z3.And(m2 < measure, measure >= 0), f"{lowtag} terminates", "loop-pres", n)
        finally:
            self.loop_stack.pop()
        if sp.get("after"):
            for s5, oc in out:
                if oc is None or oc[0] == "broke":
                    for ex in sp["after"]:
                        if isinstance(ex, tuple):
                            self.lemma(s5, ex, self.lctx(s5, hnames), f"{lowtag} exit", n)
                        else:
                            self.need(s5, self.spec_bool(ex, self.lctx(s5, hnames)), f"{lowtag} exit {str(ex)[:60]}", "hint", n)
        return out

    def set_gvar(self, st, g, ex, ctx):
        if "." in g:
            base, _, f = g.rpartition(".")
            o = self.sev(ast.parse(base, mode="eval").body, ctx)
            t = self.w.tenv.parse(self.w.records[o.rec].ghost[f])
            v = self.coerce(self.sev(ast.parse(ex, mode="eval").body, ctx), t, st, spec=True)
            if self.recording is not None:
                self.recording.add(("field", o.oid, f))
            st.heap[(o.oid, f)] = st.new_cell(v) if t.mutable else v
            return
        ty = self.w.tenv.parse(self.cur.gvars[g][0])
        v = self.coerce(self.sev(ast.parse(ex, mode="eval").body, ctx), ty, st, spec=True)
        if self.recording is not None:
            self.recording.add(("local", self.root_fid, g))
        st.frames[self.root_fid][1][g] = st.new_cell(v) if ty.mutable else v

    def lctx(self, st, nm):
        full = {}
        for _, d in self.loop_stack:
            full.update(d)
        full.update(nm)
        return SCtx(self, st, self.entry, full, self.entry_names)

    def havoc_local(self, h, v, nm, n):
        decl = self.cur.locals.get(nm)
        if decl in self.w.records and (v is None or isinstance(v, Obj) and v.rec == decl):
            # some object of this record type, perhaps one already known: nothing may be written to any of them from here on
            o = self.new_obj(h, decl, "lp_" + nm)
            if self.cur.use_inv:
                h.assume(*[self.spec_bool(ex, SCtx(self, h, None, {"self": o})) for _, ex in self.inv_exprs(o)])
            rd = self.w.records[decl]
            fs = list(rd.fields) + list(rd.ghost)
            self.frozen.append({k: (x, h.cells.get(x.cid) if isinstance(x, Loc) else None) for k, x in h.heap.items() if k[1] in fs})
            return o
        if decl:
            ty = self.w.tenv.parse(decl)
            t = fresh(ty, "lp_" + nm)
            h.assume(*wf(ty, t))
            if isinstance(ty, ITup):
                self.use_type(ty)
            return h.new_cell(SV(ty, t)) if ty.mutable else SV(ty, t)
        if isinstance(v, SV):
            ty = v.ty
            if ty == NONE:
                raise Unsupported(f"loop variable {nm} of unknown type", n)
            t = fresh(ty, "lp_" + nm)
            if isinstance(ty, ITup):
                self.use_type(ty)
            return SV(ty, t)
        if isinstance(v, Loc):
            sv = h.read(v.cid)
            if isinstance(sv.ty, EmptyTy):
                return Undef(nm)
            t = fresh(sv.ty, "lp_" + nm)
            h.assume(*wf(sv.ty, t))
            return h.new_cell(SV(sv.ty, t))
        if isinstance(v, PT):
            return PT([self.havoc_local(h, x, nm, n) for x in v.items])
        if isinstance(v, (Obj,)):
            return Undef(nm)
        return v

    def frozen_ok(self, st, n):
        for snap in self.frozen:
            for k, (x, c) in snap.items():
                y = st.heap.get(k)
                if y is None:
                    continue
                if y is not x or (c is not None and st.cells.get(x.cid) is not c):
                    raise Unsupported("object written while another name may refer to it", n)

    def record_writes(self, n, s, it):
        outer = self.recording
        rec = {("local", self.root_fid, g) for g, _ in self.loop_spec(self.loop_id(n, s)).get("step", [])}
        self.recording = rec
        saved_keys = dict(self.loop_keys)
        try:
            for attempt in range(2):
                r = s.copy()
                r.pc = list(s.pc)
                if it is None:
                    starts = [x for x, v in self.ev(n.test, r) if not isinstance(v, Raise)]
                elif isinstance(it, ISeq):
                    i = z3.Int(f"rec~{next_fresh()}")
                    el = self.rv(it.at(r, i), r)
                    starts = [x for x, oc in self.assign(n.target, el, r)]
                else:
                    x = fresh(it.kty, "rec")
                    el = self.rv(it.mk(x), r)
                    starts = [y for y, oc in self.assign(n.target, el, r)]
                for st0 in starts:
                    for s2, oc in self.block(n.body, st0):
                        for cid, d in s.cells.items():
                            if isinstance(s.cells[cid][1], SV) and isinstance(s.cells[cid][1].ty, EmptyTy):
                                d2 = s2.cells.get(cid)
                                if d2 and d2[0] == "val" and not isinstance(d2[1].ty, EmptyTy):
                                    self.loop_cell_types[cid] = d2[1].ty
                                    rec.add(("cell", cid))
                break
        finally:
            self.recording = outer
        if outer is not None:
            outer |= rec
        return sorted(rec, key=lambda x: tuple(str(y) for y in x))

    # ------------------------------------------------------------------ verification
    def verify(self, con, fi):
        """Generate obligations for one function. Returns list of Ob."""
        self.cur = con
        self.cur_name = con.target + ("#" + con.variant if con.variant else "")
        self.loop_keys = {}
        self.frozen = []
        self.loop_cell_types = {}
        self.loop_stack = []
        self.entry = None
        self.entry_names = {}
        self.ghost_env = {}
        node = fi.node
        # number loops textually first so that ordinals are path independent
        for x in _walk_loops(node):
            self.loop_keys[((), x.lineno, x.col_offset)] = len(self.loop_keys)
        self.n_own_loops = len(self.loop_keys)
        for d in node.decorator_list:
            dn = d.func if isinstance(d, ast.Call) else d
            nm = dn.id if isinstance(dn, ast.Name) else getattr(dn, "attr", "?")
            if nm not in SKIP_DECOS:
                raise Unsupported("decorator " + nm, node)
            if nm in ("cssmethodtimer", "cssiteratortimer", "lru_cache", "ensure_specification"):
                self.dropped.add("@" + nm)
        self.dropped.update(["type annotations", "docstrings"])
        if con.repeat:
            self.repeat_obs(con, fi)
        st = St()
        st.fid = st.new_frame(None, (fi.module, fi.cls))
        frame = st.frames[st.fid][1]
        a = node.args
        pnames = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for p in pnames:
            if p == "self" and con.self_type:
                frame[p] = self.new_obj(st, con.self_type, "self", populate=not con.is_init)
            elif p == "cls" and con.self_type:
                # class attributes as the fields of one record
                frame[p] = self.new_obj(st, con.self_type, "cls")
            elif p == "cls":
                frame[p] = TypeV(ci=fi.cls, name=fi.cls.name)
            elif p in con.const_args:
                frame[p] = self.sev(ast.parse(con.const_args[p], mode="eval").body, SCtx(self, st, None, {}))
            elif p in con.params:
                frame[p] = self.fresh_field(st, con.params[p], p)
            else:
                raise Unsupported(f"parameter {p} has no declared type", node)
        if a.vararg:
            if a.vararg.arg in con.params:
                frame[a.vararg.arg] = self.fresh_field(st, con.params[a.vararg.arg], a.vararg.arg)
            else:
                raise Unsupported("*args", node)
        if a.kwarg and a.kwarg.arg in con.params:
            frame[a.kwarg.arg] = self.fresh_field(st, con.params[a.kwarg.arg], a.kwarg.arg)
        for p in con.params:
            if p not in frame:
                # free variable of a nested function
                if p in [n.id for n in ast.walk(node) if isinstance(n, ast.Name)]:
                    frame[p] = self.fresh_field(st, con.params[p], p)
                else:
                    raise Unsupported(f"contract parameter {p} missing from {con.target}", node)
        for g, t in con.ghost.items():
            ty = self.w.tenv.parse(t)
            self.use_type(ty)
            self.ghost_env[g] = SV(ty, z3.Const("ghost_" + g, ty.sort()))
        if fi.is_gen:
            yt = self.w.tenv.parse(con.yields)
            y = st.new_cell(SV(Seq(yt), Seq(yt).empty()))
            st.ycid = y.cid
            if any("has(result" in ex for _, ex in con.ensures):
                self.w.has_types.add(Seq(yt).name)
            frame["$yield"] = y
        self_ = frame.get("self")
        names = dict(self.ghost_env)
        ctx = SCtx(self, st, None, names)
        for note, vs, ex, pats in self.w.axiom_notes:
            self.add_axiom(note, vs, ex, pats, st)
        if con.use_inv and isinstance(self_, Obj) and not con.is_init:
            for lab, ex in self.inv_exprs(self_):
                st.assume(self.spec_bool(ex, ctx))
        for lab, ex in con.requires:
            st.assume(self.spec_bool(ex, ctx))
        for lab, ex in con.requires_assume:
            st.assume(self.spec_bool(ex, ctx))
            self.assumed.add(f"{con.target}: {ex}")
        # cover: precondition satisfiable (checked by discharge as kind 'cover')
        self.obs.append(Ob("precondition satisfiable", "cover", list(st.pc), None, node.lineno, self.cur_name))
        self.entry = st.copy()
        self.entry_names = dict(frame)
        self.root_fid = st.fid
        for g, (t, ex) in con.gvars.items():
            self.set_gvar(st, g, ex, SCtx(self, st, self.entry, dict(self.ghost_env), self.entry_names))
        for lem in con.entry_lemmas:
            self.lemma(st, lem, SCtx(self, st, self.entry, dict(self.ghost_env), self.entry_names), "entry lemma", node)
        n_norm = 0
        reach = []
        for s, oc in self.block(node.body, st):
            if oc is not None and oc[0] == "raise":
                exc = oc[1].exc
                ctx = SCtx(self, s, self.entry, dict(self.ghost_env, _exc=self.strconst(exc)), self.entry_names)
                cond = con.raises.get(exc, con.may_raise.get(exc))
                if cond is None:
                    self.need(s, z3.BoolVal(False), f"does not raise {exc}", "noraise", oc[1].node)
                else:
                    octx = SCtx(self, self.entry, None, dict(self.entry_names, **self.ghost_env))
                    self.need(s, self.spec_bool(cond, octx), f"raises {exc} only if allowed", "raises", oc[1].node)
                    if con.exc_ensures:
                        for lab, ex in con.exc_ensures:
                            self.need(s, self.spec_bool(ex, ctx), f"{lab} (on {exc})", "post", oc[1].node)
                        if con.use_inv and con.keep_inv and isinstance(self_, Obj):
                            for lab, ex in self.inv_exprs(self_):
                                self.need(s, self.spec_bool(ex, ctx), f"invariant {lab} (on {exc})", "inv", oc[1].node)
                        self.frame_obs(s, con, self_, oc[1].node)
                continue
            if oc is not None and oc[0] not in ("return",):
                raise Unsupported("stray control flow", node)
            n_norm += 1
            res = none() if oc is None else oc[1]
            self.exit_obs(s, con, fi, self_, res, node)
        return self.obs

    def repeat_obs(self, con, fi):
        """the repeated effect is reflexive and transitive and does not change the result"""
        node = fi.node
        st = St()
        st.fid = st.new_frame(None, (fi.module, fi.cls))
        o = self.new_obj(st, con.self_type, "rself")
        names = {"self": o}
        for p, t in con.params.items():
            names[p] = self.fresh_field(st, t, "r" + p)
        invs = self.inv_exprs(o) if con.use_inv else []
        ctx = SCtx(self, st, None, names)
        for lab, ex in invs + con.requires:
            st.assume(self.spec_bool(ex, ctx))
        for lab, ex in con.repeat:
            self.need(st, self.spec_bool(ex, SCtx(self, st, st, names, names)), f"{lab} is reflexive", "repeat", node)
        pr = ast.parse(con.pure_result, mode="eval").body
        rty = self.w.tenv.parse(con.returns)
        r0 = self.coerce(self.sev(pr, ctx), rty, st, spec=True)
        s0 = st.copy()
        states = [s0]
        for _ in range(2):
            prev = st.copy()
            self.havoc_modifies(st, con, names)
            c = SCtx(self, st, prev, names, names)
            for lab, ex in con.repeat:
                st.assume(self.spec_bool(ex, c))
            for lab, ex in invs:
                st.assume(self.spec_bool(ex, c))
            if _ == 0:
                r1 = self.coerce(self.sev(pr, c), rty, st, spec=True)
                self.need(st, r1.t == r0.t, "result unchanged by the repeated effect", "repeat", node)
                for lab, ex in con.requires:
                    self.need(st, self.spec_bool(ex, c), f"{lab} kept by the repeated effect", "repeat", node)
        for lab, ex in con.repeat:
            self.need(st, self.spec_bool(ex, SCtx(self, st, s0, names, names)), f"{lab} is transitive", "repeat", node)
        # what each call establishes survives the later ones
        have = {x for _, x in con.ensures}
        for lab, ex in con.repeat_each:
            if ex not in have:
                raise Unsupported("repeat_each fact that is no postcondition")
            st.assume(self.spec_bool(ex, SCtx(self, st, None, names)))
        prev = st.copy()
        self.havoc_modifies(st, con, names)
        for lab, ex in con.repeat:
            st.assume(self.spec_bool(ex, SCtx(self, st, prev, names, names)))
        for lab, ex in con.repeat_each:
            self.need(st, self.spec_bool(ex, SCtx(self, st, None, names)), f"{lab} kept by the repeated effect", "repeat", node)

    def lemma(self, s, lem, ctx, tag, node):
        """prove, then assume; ("induct", k, P[, trigger]): P(0) and P(k) -> P(k + 1) are obligations, then P holds of every k >= 0"""
        if not isinstance(lem, tuple):
            self.need(s, self.spec_bool(lem, ctx), f"{tag} {lem[:50]}", "hint", node)
            return
        _, kn, ex = lem[:3]
        k = z3.Int(f"ind~{next_fresh()}")

        def at(x, t):
            return SCtx(self, s, ctx.old, dict(ctx.names, **{kn: I(t)}), ctx.old_names)
        P = lambda t: self.spec_bool(ex, at(ex, t))
        self.need(s, P(z3.IntVal(0)), f"{tag} induction base {ex[:40]}", "hint", node)
        s1 = s.copy()
        s1.assume(k >= 0, P(k))
        self.need(s1, P(k + 1), f"{tag} induction step {ex[:40]}", "hint", node)
        b = P(k)
        if z3.is_quantifier(b) and b.is_forall() and b.num_patterns():
            # one quantifier: the triggers of P may bind k
            vs = [z3.Const(f"q!{nid()}", b.var_sort(i)) for i in range(b.num_vars())]
            inner = z3.substitute_vars(b.body(), *reversed(vs))
            pats = [z3.MultiPattern(*z3.substitute_vars(b.pattern(i), *reversed(vs)).children()) for i in range(b.num_patterns())]
            if all(_occurs(k, q) for q in pats):
                s.assume(z3.ForAll([k] + vs, z3.Implies(k >= 0, inner), patterns=pats))
                return
        if len(lem) > 3:
            trig = self.sev(ast.parse(lem[3], mode="eval").body, at(ex, k)).t
            s.assume(z3.ForAll([k], z3.Implies(k >= 0, P(k)), patterns=[trig]))
        else:
            s.assume(z3.ForAll([k], z3.Implies(k >= 0, P(k))))

    def exit_obs(self, s, con, fi, self_, res, node):
        self.frozen_ok(s, node)
        reach = list(s.pc)
        names = dict(self.ghost_env)
        if fi.is_gen:
            res = s.read(s.ycid)
        elif con.returns:
            rty = self.w.tenv.parse(con.returns)
            if not isinstance(rty, Cls):
                if isinstance(res, (ISeq, ISet, Comp, IConc)):
                    res = s.deref(self.to_list(s, res, node, rty.t if isinstance(rty, Seq) else None)[0][1])
                if isinstance(rty, ITup) and isinstance(s.deref(res), SV) and isinstance(s.deref(res).ty, Seq):
                    raise Unsupported("returns a list where a tuple is specified", node)
                res = self.coerce(res, rty, s)
        names["result"] = res
        s.frames[s.fid][1].pop("$yield", None)
        # parameters in ensures denote their entry binding
        for p, v in self.entry_names.items():
            if p not in ("$yield",):
                names.setdefault(p, v)
        ctx = SCtx(self, s, self.entry, names, self.entry_names)
        octx = SCtx(self, self.entry, None, dict(self.entry_names, **self.ghost_env))
        for exc, cond in con.raises.items():
            self.need(s, z3.Not(self.spec_bool(cond, octx)), f"must raise {exc}", "raises", node)
        for gpath, ex in con.ghost_updates.items():
            base, _, f = gpath.rpartition(".")
            o = self.sev(ast.parse(base, mode="eval").body, ctx)
            t = self.w.tenv.parse(self.w.records[o.rec].ghost[f])
            v = self.coerce(self.sev(ast.parse(ex, mode="eval").body, ctx), t, s, spec=True)
            s.heap[(o.oid, f)] = s.new_cell(v) if t.mutable else v
        if con.pure_result:
            pr = self.coerce(self.sev(ast.parse(con.pure_result, mode="eval").body, ctx), self.w.tenv.parse(con.returns), s, spec=True)
            self.need(s, self.eq(res, pr, s), "the result is " + con.pure_result, "post", node)
        for lem in con.lemmas:
            self.lemma(s, lem, ctx, "lemma", node)
        for lab, ex in con.ensures:
            self.need(s, self.spec_bool(ex, ctx), lab, "post", node)
        if con.use_inv and con.keep_inv and isinstance(self_, Obj):
            for lab, ex in self.inv_exprs(self_):
                self.need(s, self.spec_bool(ex, ctx), f"invariant {lab}", "inv", node)
        self.frame_obs(s, con, self_, node)
        if not self.mute and self.recording is None:
            self.obs.append(Ob("exit reachable", "reach", reach, None, node.lineno, self.cur_name))

    def frame_obs(self, s, con, self_, node):
        if con.is_init:
            return
        allowed = set(con.modifies)

        def walk(o, path):
            rd = self.w.records[o.rec]
            for f in list(rd.fields) + list(rd.ghost):
                p = f"{path}.{f}"
                if p in allowed or path + ".*" in allowed:
                    # pointer shape must persist for nested objects
                    continue
                v0 = self.entry.heap.get((o.oid, f))
                v1 = s.heap.get((o.oid, f))
                if isinstance(v0, Obj):
                    if not (isinstance(v1, Obj) and v1.oid == v0.oid):
                        self.need(s, z3.BoolVal(False), f"frame {p}", "frame", node)
                        continue
                    walk(v0, p)
                elif isinstance(v0, Loc):
                    a, b = self.entry.read(v0.cid), s.read(v1.cid)
                    if not a.t.eq(b.t):
                        self.need(s, self.eq(a, b, s) , f"frame {p}", "frame", node)
                elif isinstance(v0, SV):
                    b = s.deref(v1)
                    if not (isinstance(b, SV) and v0.t.eq(b.t)):
                        if v0.ty == OPAQUE:
                            continue
                        self.need(s, self.eq(v0, b, s), f"frame {p}", "frame", node)

        if isinstance(self_, Obj):
            walk(self_, "self")
            # pointer sharing declared by the record
            rd = self.w.records[self_.rec]
            for path, target in rd.alias.items():
                x = y = self_
                for p in path.split("."):
                    x = s.heap.get((x.oid, p))
                for p in target.split("."):
                    y = s.heap.get((y.oid, p))
                same = isinstance(x, Loc) and isinstance(y, Loc) and x.cid == y.cid
                self.need(s, z3.BoolVal(same), f"sharing {path} is {target}", "frame", node)
        for p, v in self.entry_names.items():
            if isinstance(v, Obj) and p != "self":
                if p + ".*" in allowed or p in allowed:
                    continue
                walk_p = v
                self_path = p
                walk(v, p)
            elif isinstance(v, Loc) and p not in allowed and p != "$yield":
                a, b = self.entry.read(v.cid), s.read(v.cid)
                if isinstance(a, SV) and not a.t.eq(b.t):
                    self.need(s, self.eq(a, b, s), f"frame {p}", "frame", node)

    def add_axiom(self, note, vs, ex, pats, st):
        key = ("axiom", note)
        if key in self.axiom_types:
            return
        self.axiom_types.add(key)
        names, zvars = {}, []
        for nm, t in vs.items():
            ty = self.w.tenv.parse(t)
            self.use_type(ty)
            c = z3.Const("axv_" + nm, ty.sort())
            zvars.append(c)
            names[nm] = SV(ty, c)
        ctx = SCtx(self, St_empty(st), None, names)
        body = self.spec_bool(ex, ctx)
        if not zvars:
            self.ax.append(body)
            return
        ps = []
        for p in pats:
            if isinstance(p, (list, tuple)):
                ps.append(z3.MultiPattern(*[self.sev(ast.parse(x, mode="eval").body, ctx).t for x in p]))
            else:
                ps.append(self.sev(ast.parse(p, mode="eval").body, ctx).t)
        self.ax.append(z3.ForAll(zvars, body, patterns=ps))


class Undef(Val):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Undef({self.n})"


def St_empty(st):
    s = St()
    s.fid = s.new_frame(None, st.frames[st.fid][2])
    return s


def next_fresh():
    return fresh_mark()


def _walk_loops(node):
    out = []

    def go(x):
        for c in ast.iter_child_nodes(x):
            if isinstance(c, (ast.For, ast.While)):
                out.append(c)
            go(c)

    go(node)
    out.sort(key=lambda c: (c.lineno, c.col_offset))
    return out


def _set_of(member, kty):
    x = z3.Const("sof_x", kty.sort())
    m = member(x)
    if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_SELECT and m.arg(1).eq(x) :
        return m.arg(0)
    return z3.Lambda([x], m)


def _has_view(v):
    if isinstance(v, ViewSpec):
        return True
    if isinstance(v, PT):
        return any(_has_view(x) for x in v.items)
    return False


def _stores_of(t):
    ks = []
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
        if not z3.is_true(t.arg(2)):
            return None
        ks.append(t.arg(1))
        t = t.arg(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_CONST_ARRAY and z3.is_false(t.arg(0)):
        return list(reversed(ks))
    return None
