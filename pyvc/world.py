"""Program loading (mechanical extraction from /repo with ast) and contract registry."""
import ast
import hashlib
import os

import z3

from .ty import TypeEnv, NT, Cls, U, Ty, BOOL


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        line = getattr(node, "lineno", None)
        super().__init__(f"{msg}" + (f" (line {line})" if line else ""))


class FuncInfo:
    def __init__(self, module, cls, node, kind="method"):
        self.module, self.cls, self.node = module, cls, node
        self.name = node.name
        self.is_static = any(_deco(d) == "staticmethod" for d in node.decorator_list)
        self.is_classmethod = any(_deco(d) == "classmethod" for d in node.decorator_list)
        self.is_property = any(_deco(d) == "property" for d in node.decorator_list)
        self.is_abstract = any(
            (_deco(d) or "").endswith("abstractmethod") for d in node.decorator_list
        )
        self.is_gen = _is_gen(node)

    @property
    def qual(self):
        c = f"{self.cls.name}." if self.cls else ""
        return f"{self.module.name}.{c}{self.name}"


def _deco(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Name):
        return d.id
    if isinstance(d, ast.Attribute):
        return d.attr
    return None


def _is_gen(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp,
                          ast.ListComp, ast.SetComp, ast.DictComp)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}
        self.consts = {}
        self.bases = []
        for b in node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                self.bases.append(b.id)
            elif isinstance(b, ast.Attribute):
                self.bases.append(b.attr)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                fi = FuncInfo(module, self, s)
                if any(isinstance(d, ast.Attribute) and d.attr == "setter"
                       for d in s.decorator_list):
                    continue
                self.methods[s.name] = fi
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name
            ):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and all(isinstance(x, ast.Name) for x in s.targets[0].elts):
                vals = _const_items(s.value)
                if vals is not None and len(vals) == len(s.targets[0].elts):
                    for x, v in zip(s.targets[0].elts, vals):
                        self.consts[x.id] = v


def _const_items(v):
    """the elements of a tuple literal, or of a range between literal bounds"""
    if isinstance(v, ast.Tuple):
        return v.elts
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "range" and not v.keywords:
        try:
            return [ast.parse(repr(i), mode="eval").body for i in range(*[ast.literal_eval(a) for a in v.args])]
        except ValueError:
            return None
    return None


class ModuleInfo:
    def __init__(self, name, path, text):
        self.name, self.path, self.text = name, path, text
        self.tree = ast.parse(text)
        self.classes, self.funcs, self.imports, self.consts = {}, {}, {}, {}
        for s in self.tree.body:
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(self, s)
            elif isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = FuncInfo(self, None, s)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = (s.module, s.level, a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name, 0, None)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name
            ):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                self.consts[s.target.id] = s.value


class RecordDecl:
    def __init__(self, name, fields, inv=(), alias=None, src=None, ghost=None):
        self.name = name
        self.fields = fields  # fname -> type string
        self.inv = list(inv)  # (label, expr)
        self.alias = alias or {}
        self.src = src  # (module, class) or None
        self.ghost = ghost or {}


class Contract:
    def __init__(self, target, **kw):
        self.target = target
        self.params = kw.pop("params", {})
        self.returns = kw.pop("returns", None)
        self.yields = kw.pop("yields", None)
        self.self_type = kw.pop("self_type", None)
        self.requires = _lab(kw.pop("requires", []), "pre")
        self.ensures = _lab(kw.pop("ensures", []), "post")
        self.exc_ensures = _lab(kw.pop("exc_ensures", []), "xpost")
        self.raises = kw.pop("raises", {})
        self.may_raise = kw.pop("may_raise", {})
        self.modifies = kw.pop("modifies", [])
        self.loops = kw.pop("loops", {})
        self.ghost = kw.pop("ghost", {})
        self.locals = dict(kw.pop("locals", {}))
        # ghost variables: name -> (type, initial value); set by the "enter"/"step" lists of loops
        self.gvars = kw.pop("gvars", {})
        self.locals.update({g: t for g, (t, _) in self.gvars.items()})
        self.pure_result = kw.pop("pure_result", None)
        self.use_inv = kw.pop("use_inv", True)
        self.keep_inv = kw.pop("keep_inv", True)
        self.trusted = kw.pop("trusted", False)
        self.props = kw.pop("props", [])
        self.is_init = kw.pop("is_init", False)
        self.timeout = kw.pop("timeout", None)
        self.hints = kw.pop("hints", {})
        self.inline_calls = kw.pop("inline_calls", [])
        self.assume_globals = kw.pop("globals", {})
        self.mod = None
        self.note = kw.pop("note", "")
        self.requires_assume = _lab(kw.pop("assume", []), "assumption")
        self.subst = kw.pop("subst", {})
        self.variant = kw.pop("variant", "")
        self.lemmas = kw.pop("lemmas", [])
        self.at_return = kw.pop("at_return", [])  # stepping stones at every return, with the names of the loops around it
        self.entry_lemmas = kw.pop("entry_lemmas", [])
        self.const_args = kw.pop("const_args", {})
        self.ghost_args = kw.pop("ghost_args", {})
        self.ghost_updates = kw.pop("ghost_updates", {})
        self.narrow = kw.pop("narrow", {})
        # repeat: the effect may happen any number of times (ensures is reflexive and transitive, checked),
        # and never changes pure_result; such calls may appear in comprehensions
        self.repeat = _lab(kw.pop("repeat", []), "repeat")
        self.repeat_each = _lab(kw.pop("repeat_each", []), "repeat")
        self.ensures = self.repeat + self.repeat_each + self.ensures
        if kw:
            raise TypeError("unknown contract keys %s" % list(kw))


def _lab(xs, base):
    out = []
    for i, x in enumerate(xs):
        if isinstance(x, tuple):
            out.append(x)
        else:
            out.append((f"{base}{i}", x))
    return out


class World:
    def __init__(self, repo="/repo", package="comb_spec_searcher"):
        self.repo, self.package = repo, package
        self.tenv = TypeEnv()
        self.modules = {}
        self.contracts = {}
        self.records = {}
        self.macros = {}
        self.ghostfns = {}
        self.axioms = []
        self.axiom_notes = []
        self.attrs = {}  # (type name, attr) -> (z3 func, ret ty, is_method, argtys)
        self.attr_pre = {}  # z3 id of the function -> (label, ghost predicate)
        self.attr_names = {}  # (type, attribute) -> names of the arguments
        self.externs = {}
        self.isinstance_types = {}
        self.umethods = set()
        self.literals = {}  # source text of a list display -> ghost constant
        self.has_types = set()

    # -- sources
    def module(self, name):
        if name not in self.modules:
            base = os.path.join(self.repo, self.package, *name.split("."))
            path = base + ".py"
            if not os.path.exists(path):
                path = os.path.join(base, "__init__.py")
            if not os.path.exists(path):
                return None
            with open(path) as f:
                self.modules[name] = ModuleInfo(name, path, f.read())
        return self.modules[name]

    def resolve_import(self, mod, name):
        """-> ('class', ClassInfo) | ('func', FuncInfo) | ('ext', dotted) | ('const', (mod, expr)) | None"""
        if name in mod.classes:
            return ("class", mod.classes[name])
        if name in mod.funcs:
            return ("func", mod.funcs[name])
        if name in mod.consts:
            return ("const", (mod, mod.consts[name]))
        if name in mod.imports:
            m, level, orig = mod.imports[name]
            if orig is None:
                return ("ext", m)
            if level:
                parts = mod.name.split(".")
                if os.path.basename(mod.path) == "__init__.py":
                    parts = parts + [""]
                base = parts[: len(parts) - level]
                target = ".".join([p for p in base if p] + ([m] if m else []))
            elif m and m.split(".")[0] == self.package:
                target = ".".join(m.split(".")[1:])
            else:
                return ("ext", f"{m}.{orig}")
            tm = self.module(target) if target else self.module("__init__")
            if tm is None:
                return None
            if orig in tm.classes or orig in tm.funcs or orig in tm.consts or orig in tm.imports:
                return self.resolve_import(tm, orig)
            sub = self.module(f"{target}.{orig}" if target else orig)
            if sub is not None:
                return ("mod", sub)
        return None

    def mro(self, ci):
        out = [ci]
        for b in ci.bases:
            r = self.resolve_import(ci.module, b)
            if r and r[0] == "class":
                for x in self.mro(r[1]):
                    if x not in out:
                        out.append(x)
        return out

    def find_method(self, ci, name, skip_first=False):
        for c in self.mro(ci)[1 if skip_first else 0:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_method_after(self, ci, after, name):
        m = self.mro(ci)
        names = [c.name for c in m]
        k = names.index(after) if after in names else -1
        for c in m[k + 1:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_const(self, ci, name):
        for c in self.mro(ci):
            if name in c.consts:
                return c, c.consts[name]
        return None

    def func(self, qual):
        """'class_db.ClassDB.add' / 'utils.compositions'"""
        parts = qual.split(".")
        for k in range(len(parts) - 1, 0, -1):
            m = self.module(".".join(parts[:k]))
            if m:
                rest = parts[k:]
                if len(rest) == 1 and rest[0] in m.funcs:
                    return m.funcs[rest[0]]
                if len(rest) == 2 and rest[0] in m.classes:
                    return self.find_method(m.classes[rest[0]], rest[1])
                if len(rest) == 2 and rest[0] in m.funcs:
                    for s in ast.walk(m.funcs[rest[0]].node):
                        if isinstance(s, ast.FunctionDef) and s.name == rest[1]:
                            return FuncInfo(m, None, s)
        return None

    def classinfo(self, src):
        m = self.module(src[0])
        return m.classes.get(src[1]) if m else None

    # -- declarations
    def record(self, name, fields, inv=(), alias=None, src=None, ghost=None):
        self.tenv.add(Cls(name))
        self.records[name] = RecordDecl(
            name, dict(fields), _lab(inv, "inv"), alias, src, ghost
        )

    def nt(self, name, fields, src=None):
        t = NT(name, [(f, self.tenv.parse(ty)) for f, ty in fields], src)
        self.tenv.add(t)
        return t

    def u(self, name):
        self.tenv.parse(name)

    def attr(self, tyname, attr, ret, args=(), raises=None, method=False, pre=None, names=()):
        """attribute/method of an uninterpreted type as an uninterpreted function."""
        ty = self.tenv.parse(tyname)
        r = self.tenv.parse(ret)
        a = [self.tenv.parse(x) for x in args]
        f = z3.Function(f"{tyname}.{attr}", ty.sort(), *[x.sort() for x in a], r.sort())
        self.attrs[(tyname, attr)] = (f, r, a, raises)
        if pre:
            self.attr_pre[f.get_id()] = pre  # (label, ghost predicate of self and the arguments)
        if names:
            self.attr_names[(tyname, attr)] = tuple(names)  # keyword names of the arguments ("**": the rest)
        if method or a:
            self.umethods.add((tyname, attr))
        self.ghostfns[f"{tyname}_{attr}"] = (f, [ty] + a, r)

    def ghostfn(self, name, args, ret):
        a = [self.tenv.parse(x) for x in args]
        r = self.tenv.parse(ret)
        self.ghostfns[name] = (
            z3.Function(name, *[x.sort() for x in a], r.sort()), a, r)

    def macro(self, sig, expr):
        """macro('f(x, y)', 'expr')"""
        c = ast.parse(sig, mode="eval").body
        self.macros[c.func.id] = ([a.id for a in c.args], ast.parse(expr.strip(), mode="eval").body)

    def axiom(self, note, varspec, expr, patterns=()):
        """deferred: parsed by the engine"""
        if any(note == x[0] for x in self.axiom_notes):
            raise ValueError("two axioms with one note: " + note)
        self.axiom_notes.append((note, varspec, expr, patterns))

    def contract(self, target, **kw):
        c = Contract(target, **kw)
        key = target + ("#" + c.variant if c.variant else "")
        self.contracts[key] = c
        return c

    def find_contract(self, fi):
        return self.contracts.get(fi.qual)

    def source_hash(self, fi):
        return hashlib.sha256(ast.dump(fi.node).encode()).hexdigest()[:16]
