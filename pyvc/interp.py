"""Symbolic interpreter for the Python subset used in /repo.  Works on the AST of the real source files."""
import ast
import builtins as _bi
import os

import z3

from .engine import *
from .values import *

REPO = os.environ.get("PYVC_REPO", "/repo")
_AST = {}


def load_ast(modname):
    if modname in _AST:
        return _AST[modname]
    base = os.path.join(REPO, *modname.split("."))
    for fn in (base + ".py", os.path.join(base, "__init__.py")):
        if os.path.isfile(fn):
            with open(fn) as f:
                _AST[modname] = ast.parse(f.read(), fn)
            return _AST[modname]
    _AST[modname] = None
    return None


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class Frame:
    def __init__(self, fn, mod, cls, closure, vars=None):
        self.fn, self.mod, self.cls, self.closure = fn, mod, cls, closure
        self.vars = vars if vars is not None else {}
        self.globals_, self.nonlocals = set(), set()
        self.locals_ = None


class Iter:
    """n() -> int or z3 Int term; get(k) -> value; src: ListObj it walks over (or None)."""

    def __init__(self, n, get, src=None):
        self.n, self.get, self.src = n, get, src


PCNT = z3.Function("pcnt", z3.ArraySort(IntS, U), U, IntS, IntS)
ISINST = {}


def zi(v):
    """int-like value -> z3 Int term (or python int)"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Sym):
        if v.k == "int":
            return v.t
        if v.k == "bool":
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if v.k == "u":
            return UNBOX_I(v.t)
    if z3.is_expr(v) and v.sort() == IntS:
        return v
    raise Unsupported(f"not an int: {v!r}")


BOX_I = z3.Function("box_int", IntS, U)
UNBOX_I = z3.Function("unbox_int", U, IntS)
BOX_B = z3.Function("box_bool", BoolS, U)
NONE = z3.Const("None_", U)
TRUTH = z3.Function("truth", U, BoolS)
LEN = z3.Function("len_", U, IntS)


def zt(x):
    return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x


def simp(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def mkint(t):
    t = simp(t)
    return t if isinstance(t, int) else Sym(t, "int")


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return Sym(t, "bool")


def sel(a, i):
    return z3.simplify(z3.Select(a, zt(i)))


# functions without effects that a user can observe (logging)
NO_OBSERVABLE = ["unidist.core.backends.mpi.core.common:get_logger", "unidist.core.backends.mpi.core.common:unwrapped_data_ids_list", "unidist.core.backends.mpi.core.communication:log_operation"]


class Interp:
    def __init__(self, path, ext=None, summaries=None, globals_=None, inv=None, tags=None):
        self.p = path
        path.interp = self
        self.mods = {}
        self.ext = {}
        self.ext.update(DEFAULT_EXT)
        self.ext.update(ext or {})
        self.summaries = {q: (lambda it, v: Ignore()) for q in NO_OBSERVABLE}
        self.summaries.update(summaries or {})
        self.gover = globals_ or {}  # (module, name) -> value
        self.inv = inv or []  # invariant providers: fn(it) -> [(name, formula)]
        self.stack = []
        self.ghost = path.reg(InstObj(Cls("ghost", None, None, [])))
        self.ghost.attrs = {}
        self.unbox = {}  # z3 const name -> meta object boxed
        self.isinst_hook = None
        self.attr_hook = None
        self.call_hook = None
        self.len_nonneg = True

    # ------------------------------------------------------------------ modules / names
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        tree = load_ast(name)
        if tree is None:
            return None
        m = Module(name, tree)
        self.mods[name] = m
        return m

    def get_global(self, mod, name):
        if (mod.name, name) in self.gover:
            v = self.gover[(mod.name, name)]
            if callable(v) and not isinstance(v, (Obj, Builtin, Cls, Func)):
                v = self.gover[(mod.name, name)] = v(self)
            return v
        if name in mod.env:
            return mod.env[name]
        st = self.find_binding(mod.tree.body, name)
        if st is not None:
            fr = Frame(None, mod, None, None, mod.env)
            fr.is_module = True
            if isinstance(st, (ast.Assign, ast.AnnAssign, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                self.exec(st, fr)
                if name in mod.env:
                    return mod.env[name]
            raise Unsupported(f"module-level binding of {name} in {mod.name}")
        if name in self.BUILTINS:
            return self.BUILTINS[name]
        if hasattr(_bi, name):
            o = getattr(_bi, name)
            if isinstance(o, type):
                return PyType(name)
            raise Unsupported(f"builtin {name}")
        raise PyRaise(self.mkexc("NameError", name))

    def find_binding(self, body, name):
        found = None
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and st.name == name:
                found = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and n.id == name:
                            found = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name and st.value:
                found = st
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    nm = a.asname or (a.name.split(".")[0] if isinstance(st, ast.Import) else a.name)
                    if nm == name:
                        found = st
            elif isinstance(st, ast.Try):
                f = self.find_binding(st.body, name)
                found = f or found
            elif isinstance(st, ast.If):
                f = self.find_binding(st.body, name) or self.find_binding(st.orelse, name)
                if f is not None:
                    # prefer the else branch for interpreter version checks
                    g = self.find_binding(st.orelse, name)
                    found = g if g is not None else f
            elif isinstance(st, ast.With):
                f = self.find_binding(st.body, name)
                found = f or found
        return found

    def import_module(self, dotted):
        if dotted in self.ext:
            v = self.ext[dotted]
            if callable(v) and not isinstance(v, (ExtModule, Native, Obj, Ignore, Builtin, PyType)):
                v = self.ext[dotted] = v(self)
            return v
        m = self.module(dotted)
        if m is not None:
            return m
        return ExtModule(dotted)

    def mod_attr(self, m, name):
        if isinstance(m, Module):
            try:
                return self.get_global(m, name)
            except PyRaise:
                pass
            sub = self.module(m.name + "." + name)
            if sub is not None:
                return sub
            raise PyRaise(self.mkexc("AttributeError", name))
        dotted = m.name + "." + name
        if name in m.attrs:
            return m.attrs[name]
        if dotted in self.ext:
            return self.import_module(dotted)
        return ExtModule(dotted)

    # ------------------------------------------------------------------ functions
    def lookup(self, fr, name):
        if name in fr.globals_:
            return self.get_global(fr.mod, name)
        if name not in fr.nonlocals and name in fr.vars:
            v = fr.vars[name]
            if isinstance(v, Poison):
                raise Unsupported(f"use of {name}: {v.why}")
            return v
        if fr.locals_ is not None and name in fr.locals_ and name not in fr.nonlocals:
            raise PyRaise(self.mkexc("UnboundLocalError", name))
        c = fr.closure
        while c is not None:
            if name in c.vars:
                v = c.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"use of {name}: {v.why}")
                return v
            c = c.closure
        return self.get_global(fr.mod, name)

    def store(self, fr, name, v):
        if name in fr.globals_:
            if self.p.noeffect:
                raise NotPure()
            if (fr.mod.name, name) in self.gover:
                self.gover[(fr.mod.name, name)] = v
            fr.mod.env[name] = v
            return
        if name in fr.nonlocals:
            c = fr.closure
            while c is not None:
                if name in c.vars or (c.locals_ and name in c.locals_):
                    c.vars[name] = v
                    return
                c = c.closure
            raise Unsupported("nonlocal " + name)
        fr.vars[name] = v

    def func_locals(self, node):
        out = set()
        gl = set()

        def visit(n, top=False):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(ch.name)
                    continue
                if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(ch, (ast.Global, ast.Nonlocal)):
                    gl.update(ch.names)
                if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                    out.add(ch.id)
                if isinstance(ch, ast.ExceptHandler) and ch.name:
                    out.add(ch.name)
                if isinstance(ch, (ast.Import, ast.ImportFrom)):
                    for a in ch.names:
                        out.add(a.asname or a.name.split(".")[0])
                visit(ch)

        for st in node.body if isinstance(node.body, list) else []:
            w = ast.Module(body=[st], type_ignores=[])
            visit(w)
        return out - gl

    def bind(self, fn, args, kwargs):
        a = fn.node.args
        vars = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        args = list(args)
        dflt = fn.defaults or []
        star = None
        if args and isinstance(args[-1], _Star):
            star = args.pop()
        for i, nme in enumerate(pos):
            if i < len(args):
                vars[nme] = args[i]
                if nme in kwargs:
                    raise PyRaise(self.mkexc("TypeError", f"multiple values for {nme}"))
            elif nme in kwargs:
                vars[nme] = kwargs.pop(nme)
            elif i >= len(pos) - len(dflt):
                vars[nme] = dflt[i - (len(pos) - len(dflt))]
            else:
                raise PyRaise(self.mkexc("TypeError", f"missing argument {nme} of {fn.name}"))
        extra = args[len(pos):]
        if a.vararg:
            if star is not None:
                if extra:
                    raise Unsupported("symbolic star args after positional ones")
                vars[a.vararg.arg] = self.to_tuple(star.v)
            else:
                vars[a.vararg.arg] = self.mktuple(extra)
        elif extra or star is not None:
            if star is not None:
                raise Unsupported("symbolic star args")
            raise PyRaise(self.mkexc("TypeError", f"too many arguments of {fn.name}"))
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kwargs:
                vars[x.arg] = kwargs.pop(x.arg)
            elif fn.kwdefaults and fn.kwdefaults.get(x.arg) is not None:
                vars[x.arg] = fn.kwdefaults[x.arg][0]
            else:
                raise PyRaise(self.mkexc("TypeError", f"missing keyword {x.arg}"))
        sk = kwargs.pop("**", None)
        if a.kwarg:
            if sk is not None:
                if kwargs:
                    raise Unsupported("symbolic ** with other keywords")
                vars[a.kwarg.arg] = sk
            else:
                vars[a.kwarg.arg] = self.mkdict(kwargs)
        elif kwargs or sk is not None:
            if sk is not None:
                raise Unsupported("symbolic **")
            raise PyRaise(self.mkexc("TypeError", f"unexpected keyword {list(kwargs)} of {fn.name}"))
        return vars

    def call_func(self, fn, args, kwargs, self_=None):
        if self_ is not None:
            args = [self_] + list(args)
        vars = self.bind(fn, args, kwargs)
        q = fn.qual
        if q in self.summaries and not getattr(self, "_no_summary", None) == q:
            r = self.summaries[q](self, vars)
            if r is not NotImplemented:
                self.p.eng.funcs.setdefault(q, "contract used at call sites")
                return r
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        if sum(1 for f in self.stack if f.fn is not None and f.fn.node is fn.node) >= 3:
            raise Unsupported(f"recursion in {q}")
        if isinstance(fn.node, ast.AsyncFunctionDef):
            return Coroutine(lambda: self.run_body(fn, vars))
        return self.run_body(fn, vars)

    def run_body(self, fn, vars):
        fr = Frame(fn, fn.mod, fn.cls, fn.closure, vars)
        self.p.eng.funcs[fn.qual] = "body executed symbolically" if self.p.eng.funcs.get(fn.qual) != "contract used at call sites" else "contract used at call sites; body executed symbolically"
        if isinstance(fn.node, ast.Lambda):
            self.stack.append(fr)
            try:
                return self.ev(fn.node.body, fr)
            finally:
                self.stack.pop()
        fr.locals_ = self.func_locals(fn.node) | set(vars)
        self.stack.append(fr)
        try:
            self.block(fn.node.body, fr)
        except ReturnX as r:
            return r.v
        finally:
            self.stack.pop()
        return None

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if self.call_hook is not None:
            r = self.call_hook(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if isinstance(f, Ignore):
            return f
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.fn, Func):
                return self.call_func(f.fn, args, kwargs, f.self_)
            return f.fn.fn(self, [f.self_] + list(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, PyType):
            return self.call_type(f, args, kwargs)
        if isinstance(f, InstObj):
            m = self.class_lookup(f.cls, "__call__") if isinstance(f.cls, Cls) else None
            if m is not None:
                return self.call(self.bind_method(m, f, f.cls), args, kwargs)
        if isinstance(f, Native) and hasattr(f, "call"):
            return f.call(self, *args, **kwargs)
        raise Unsupported(f"call of {f!r}")

    # ------------------------------------------------------------------ classes
    def class_lookup(self, cls, name):
        for c in cls.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def bind_method(self, m, obj, cls):
        if isinstance(m, Func):
            if m.kind == "classmethod":
                return Bound(m, cls)
            if m.kind == "staticmethod":
                return m
            if m.kind == "property":
                return self.call_func(m, [], {}, obj)
            if obj is None:
                return m
            return Bound(m, obj)
        return m

    def instantiate(self, cls, args, kwargs):
        new = self.class_lookup(cls, "__new__")
        if isinstance(new, Func):
            o = self.call_func(new, [cls] + list(args), kwargs)
            if not (isinstance(o, Obj) and o.cls is not None and isinstance(o.cls, Cls) and cls in o.cls.mro()):
                return o
        else:
            o = self.alloc(cls, args, kwargs)
        init = self.class_lookup(cls, "__init__")
        if isinstance(init, Func):
            self.call_func(init, args, kwargs, o)
        elif (args or kwargs) and not any(c.builtin for c in cls.mro()) and not isinstance(new, Func):
            raise PyRaise(self.mkexc("TypeError", "constructor takes no arguments"))
        return o

    def alloc(self, cls, args=(), kwargs=None):
        b = next((c.builtin for c in cls.mro() if c.builtin), None)
        if b == "dict":
            d = self.mkdict({})
            d.cls = cls
            if args:
                src = args[0]
                if isinstance(src, DictObj) and src.items is not None:
                    d.items = dict(src.items)
                else:
                    raise Unsupported("dict subclass from symbolic")
            return d
        o = self.p.reg(InstObj(cls))
        if b == "NamedTuple":
            fields = [s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            vals = dict(zip(fields, args), **(kwargs or {}))
            if len(args) > len(fields) or any(f not in fields for f in vals) or len(vals) != len(args) + len(kwargs or {}):
                raise PyRaise(self.mkexc("TypeError", "fields"))
            for f in fields:
                if f in vals:
                    o.attrs[f] = vals[f]
                elif f not in cls.attrs:
                    raise PyRaise(self.mkexc("TypeError", "missing field"))
            return o
        if b and b not in ("object",):
            o.attrs["args"] = self.mktuple(list(args))
        return o

    def mkexc(self, name, *args):
        o = self.p.reg(InstObj(PyType(name)))
        o.attrs["args"] = self.mktuple(list(args))
        return o

    # ------------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        return m(st, fr)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            v = self.augop(st.op, cur, self.ev(st.value, fr))
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            nm = self.mangle(t.attr, fr)
            self.setattr(o, nm, self.augop(st.op, self.getattr(o, nm), self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            self.setitem(o, i, self.augop(st.op, self.getitem(o, i), self.ev(st.value, fr)))
        else:
            raise Unsupported("augassign")

    def augop(self, op, a, b):
        if isinstance(op, ast.BitOr) and isinstance(a, ListObj) and a.tup is BAG:
            self.call_method(a, "update", [b])
            return a
        if isinstance(op, ast.Add) and isinstance(a, ListObj) and not a.tup:
            self.list_extend(a, b)
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, SetObj):
            self.call_method(a, "update", [b])
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, ListObj):
            ln = self.length(v)
            if not isinstance(ln, int):
                if not self.p.branch(zt(ln) == n):
                    raise PyRaise(self.mkexc("ValueError", "unpack"))
                return [self.getitem(v, i) for i in range(n)]
            if ln != n:
                raise PyRaise(self.mkexc("ValueError", "unpack"))
            return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, Sym) and v.k == "u":
            return [self.opaque_item(v, i) for i in range(n)]
        it = self.iter(v)
        nn = it.n()
        if nn == n:
            return [it.get(i) for i in range(n)]
        raise Unsupported(f"unpack {v!r}")

    def opaque_item(self, v, i):
        f = z3.Function(f"item_{i}", U, U)
        return self.unbox_term(f(v.t))

    def x_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def x_Return(self, st, fr):
        raise ReturnX(self.ev(st.value, fr) if st.value is not None else None)

    def x_Break(self, st, fr):
        raise BreakX()

    def x_Continue(self, st, fr):
        raise ContinueX()

    def x_Global(self, st, fr):
        for n in st.names:
            try:
                self.get_global(fr.mod, n)
            except (PyRaise, Unsupported):
                pass
            fr.globals_.add(n)

    def x_Nonlocal(self, st, fr):
        fr.nonlocals.update(st.names)

    def x_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            raise PyRaise(self.mkexc("AssertionError"))

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, InstObj):
                    o.attrs.pop(self.mangle(t.attr, fr), None)
                else:
                    raise Unsupported("del attr")
            else:
                raise Unsupported("del")

    def x_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        for d in reversed(st.decorator_list):
            dn = d.id if isinstance(d, ast.Name) else None
            if dn in ("classmethod", "staticmethod", "property"):
                f.kind = dn
            elif getattr(fr, "in_class", None) is not None or True:
                # other decorators: evaluate and apply
                f = self.call(self.ev(d, fr), [f])
        fr.vars[st.name] = f

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, node, fr, name=None):
        a = node.args
        cls = getattr(fr, "in_class", None)
        efr = fr
        f = Func(node, fr.mod, name or getattr(node, "name", "<lambda>"), cls=cls if cls is not None else None)
        if cls is None and fr.fn is not None and fr.fn.cls is not None:
            f.cls_ctx = fr.fn.cls
        f.defaults = [self.ev(d, efr) for d in a.defaults]
        f.kwdefaults = {x.arg: ([self.ev(d, efr)] if d is not None else None) for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        if not getattr(fr, "is_module", False):
            f.closure = fr if cls is None else fr.closure_for_methods
        if cls is None and fr.fn is not None:
            f.name = f"{fr.fn.name}.<locals>.{f.name}"
            f.cls = fr.fn.cls if isinstance(fr.fn, Func) else None
        return f

    def x_ClassDef(self, st, fr):
        bases = []
        builtin = None
        for b in st.bases:
            try:
                v = self.ev(b, fr)
            except Unsupported:
                v = None
            if isinstance(v, Cls):
                bases.append(v)
            elif isinstance(v, PyType):
                builtin = v.name
            elif isinstance(v, ExtModule) and v.name in ("typing.NamedTuple", "NamedTuple"):
                builtin = "NamedTuple"
        c = Cls(st.name, fr.mod, st, bases, None)
        c.builtin = builtin
        cf = Frame(fr.fn, fr.mod, c, fr if not getattr(fr, "is_module", False) else None, c.attrs)
        cf.in_class = c
        cf.closure_for_methods = fr if not getattr(fr, "is_module", False) else None
        for s in st.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self.make_func(s, cf)
                for d in reversed(s.decorator_list):
                    dn = d.id if isinstance(d, ast.Name) else None
                    if dn in ("classmethod", "staticmethod", "property"):
                        f.kind = dn
                    else:
                        raise Unsupported("method decorator")
                f.cls = c
                nm = s.name
                if nm.startswith("__") and not nm.endswith("__"):
                    nm = f"_{c.name}{nm}"
                c.attrs[nm] = f
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                try:
                    self.exec(s, cf)
                except Unsupported as e:
                    for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = Poison(str(e))
            elif isinstance(s, ast.Pass):
                pass
            else:
                raise Unsupported("class body")
        for k in list(c.attrs):
            if k.startswith("__") and not k.endswith("__"):
                c.attrs[f"_{c.name}{k}"] = c.attrs.pop(k)
        self.p.reg_cls.append(c)
        fr.vars[st.name] = c

    def x_Import(self, st, fr):
        for a in st.names:
            if a.asname:
                fr.vars[a.asname] = self.import_module(a.name)
            else:
                fr.vars[a.name.split(".")[0]] = self.import_module(a.name.split(".")[0])

    def x_ImportFrom(self, st, fr):
        base = st.module or ""
        if st.level:
            parts = fr.mod.name.split(".")
            tree_is_pkg = os.path.isdir(os.path.join(REPO, *parts))
            up = st.level - (1 if tree_is_pkg else 0)
            parts = parts[: len(parts) - up] if up else parts
            base = ".".join(parts + ([st.module] if st.module else []))
        m = self.import_module(base)
        for a in st.names:
            nm = a.asname or a.name
            if getattr(fr, "is_module", False) and nm in fr.vars:
                continue
            if isinstance(m, (Module, ExtModule)):
                # bind lazily for modules of the repository
                try:
                    fr.vars[nm] = self.mod_attr(m, a.name)
                except Unsupported as e:
                    fr.vars[nm] = Poison(str(e))
            else:
                fr.vars[nm] = self.getattr(m, a.name)

    def x_Raise(self, st, fr):
        if st.exc is None:
            raise PyRaise(self.cur_exc[-1])
        v = self.ev(st.exc, fr)
        if isinstance(v, (PyType, Cls)):
            v = self.call(v, [])
        raise PyRaise(v)

    cur_exc = []

    def exc_matches(self, v, t):
        """v: exception value; t: type value or tuple. Returns bool (may branch)."""
        if isinstance(t, ListObj):
            return any(self.exc_matches(v, x) for x in t.items)
        if isinstance(v, Sym):
            if isinstance(t, PyType) and t.name in ("Exception", "BaseException"):
                return True
            return self.p.branch(self.isinst_pred(v, t))
        if isinstance(v, InstObj):
            if isinstance(t, Cls):
                return isinstance(v.cls, Cls) and t in v.cls.mro()
            if isinstance(t, PyType):
                n = v.cls.name if isinstance(v.cls, PyType) else next((c.builtin for c in v.cls.mro() if c.builtin), None)
                a, b = getattr(_bi, n or "", None), getattr(_bi, t.name, None)
                if a is not None and b is not None:
                    return issubclass(a, b)
                return n == t.name
        raise Unsupported(f"except matching {v!r} {t!r}")

    def x_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e.value, self.ev(h.type, fr)):
                        if h.name:
                            self.store(fr, h.name, e.value)
                        self.cur_exc = self.cur_exc + [e.value]
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.cur_exc = self.cur_exc[:-1]
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        except (PathEnd, Restart, Limit, Unsupported):
            raise
        except (PyRaise, ReturnX, BreakX, ContinueX) as sig:
            self.block(st.finalbody, fr)
            raise sig
        else:
            self.block(st.finalbody, fr)

    def x_With(self, st, fr):
        mgrs = []
        for w in st.items:
            m = self.ev(w.context_expr, fr)
            if isinstance(m, Ignore):
                v = m
            else:
                v = self.call(self.getattr(m, "__enter__"), [])
            if w.optional_vars is not None:
                self.assign(w.optional_vars, v, fr)
            mgrs.append(m)

        def leave(exc):
            for m in reversed(mgrs):
                if not isinstance(m, Ignore):
                    self.call(self.getattr(m, "__exit__"), [exc, exc, None] if exc is not None else [None, None, None])

        try:
            self.block(st.body, fr)
        except PyRaise as e:
            leave(e.value)
            raise
        except (ReturnX, BreakX, ContinueX):
            leave(None)
            raise
        else:
            leave(None)

    x_AsyncWith = x_With

    # ------------------------------------------------------------------ loops
    def x_While(self, st, fr):
        from . import loops

        loops.while_loop(self, st, fr)

    def x_For(self, st, fr):
        from . import loops

        loops.for_loop(self, st, fr)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Await(self, e, fr):
        v = self.ev(e.value, fr)
        if isinstance(v, Coroutine):
            return v.thunk()
        return v

    def e_Tuple(self, e, fr):
        return self.mktuple(self.ev_elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.mklist(self.ev_elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.p.reg(SetObj(items=self.ev_elts(e.elts, fr)))

    def ev_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                it = self.iter(v)
                n = it.n()
                if not isinstance(n, int):
                    raise Unsupported("starred symbolic")
                out.extend(it.get(i) for i in range(n))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                s = self.ev(v, fr)
                if not (isinstance(s, DictObj) and s.items is not None):
                    raise Unsupported("** of symbolic dict")
                d.update(s.items)
            else:
                kk = self.ev(k, fr)
                dd = self.mkdict(d)
                self.setitem(dd, kk, self.ev(v, fr))
                d = dd.items
        return self.mkdict(d)

    def hkey(self, k):
        """key usable in a concrete dict"""
        if k is None or isinstance(k, (str, int, bool, float, bytes)):
            return k
        if isinstance(k, (PyType, Cls)):
            return k
        if isinstance(k, ListObj) and k.tup and k.items is not None:
            return tuple(self.hkey(x) for x in k.items)
        if isinstance(k, (ListObj, DictObj, SetObj)) and not (isinstance(k, ListObj) and k.tup):
            raise PyRaise(self.mkexc("TypeError", "unhashable"))
        if isinstance(k, Sym) or isinstance(k, Obj):
            return HK(k)
        raise Unsupported(f"dict key {k!r}")

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            # keep purely symbolic booleans as formulas when the rest cannot have effects
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, Sym) or v.k != "bool" else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, Sym) or v.k != "bool" else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else mkbool(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Sym) and v.k == "real":
                return Sym(-v.t, "real")
            return mkint(-zi(v))
        raise Unsupported("unary")

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    def is_num(self, v):
        return isinstance(v, (int, float)) or (isinstance(v, Sym) and v.k in ("int", "bool", "real"))

    def binop(self, op, a, b):
        if isinstance(a, (Ignore,)) or isinstance(b, Ignore):
            return Ignore()
        if isinstance(a, (int, float, str, bytes)) and isinstance(b, (int, float, str, bytes)):
            import operator as o

            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.LShift: o.lshift, ast.RShift: o.rshift}.get(type(op))
            try:
                return f(a, b)
            except ZeroDivisionError:
                raise PyRaise(self.mkexc("ZeroDivisionError"))
            except TypeError:
                raise PyRaise(self.mkexc("TypeError"))
        if self.is_num(a) and self.is_num(b):
            return self.arith(op, a, b)
        if isinstance(op, ast.Add) and isinstance(a, ListObj) and isinstance(b, ListObj):
            if a.tup != b.tup:
                raise PyRaise(self.mkexc("TypeError"))
            return self.list_concat(a, b)
        if isinstance(op, ast.Mult) and isinstance(a, ListObj):
            return self.list_repeat(a, b)
        if isinstance(op, ast.Mult) and isinstance(b, ListObj):
            return self.list_repeat(b, a)
        if isinstance(op, (ast.Add, ast.Mod)) and (isinstance(a, (str, bytes)) or isinstance(b, (str, bytes))):
            return self.opaque_fn("str_" + type(op).__name__, [a, b], "str")
        if any(isinstance(x, Sym) and x.k == "u" and x.ty is None for x in (a, b)) and all(self.is_num(x) or isinstance(x, Sym) and x.ty is None for x in (a, b)):
            # arithmetic between a number and an opaque value: the value is a number (anything else raises TypeError)
            return self.arith(op, *[x if self.is_num(x) else Sym(UNBOX_I(x.t), "int") for x in (a, b)])
        raise Unsupported(f"binop {type(op).__name__} {a!r} {b!r}")

    def real(self, v):
        if isinstance(v, Sym):
            return v.t if v.k == "real" else z3.ToReal(zt(zi(v)))
        if isinstance(v, float):
            from fractions import Fraction

            f = Fraction(str(v))
            return z3.RealVal(f"{f.numerator}/{f.denominator}")
        return z3.RealVal(int(v))

    def arith(self, op, a, b):
        isreal = any(isinstance(x, float) or (isinstance(x, Sym) and x.k == "real") for x in (a, b)) or isinstance(op, ast.Div)
        if isreal:
            x, y = self.real(a), self.real(b)
            if isinstance(op, ast.Div):
                if self.p.branch(y == 0):
                    raise PyRaise(self.mkexc("ZeroDivisionError"))
                return Sym(x / y, "real")
            f = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y}.get(type(op))
            if f is None:
                raise Unsupported("real op")
            return Sym(f(), "real")
        x, y = zt(zi(a)), zt(zi(b))
        if isinstance(op, ast.Add):
            return mkint(x + y)
        if isinstance(op, ast.Sub):
            return mkint(x - y)
        if isinstance(op, ast.Mult):
            return mkint(x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if self.p.branch(y == 0):
                raise PyRaise(self.mkexc("ZeroDivisionError"))
            if self.p.branch(y > 0):
                return mkint(x / y if isinstance(op, ast.FloorDiv) else x % y)  # z3 div is floor for y > 0
            raise Unsupported("division by a negative number")
        if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b <= 3:
            r = z3.IntVal(1)
            for _ in range(b):
                r = r * x
            return mkint(r)
        raise Unsupported(f"int op {type(op).__name__}")

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, rt) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(rt, fr)
            r = self.compare(op, left, right)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            r = self.identical(a, b)
            return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            r = self.equal(a, b)
            return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))
        if self.is_num(a) and self.is_num(b):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                import operator as o

                return {ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}[type(op)](a, b)
            if any(isinstance(x, float) or (isinstance(x, Sym) and x.k == "real") for x in (a, b)):
                x, y = self.real(a), self.real(b)
            else:
                x, y = zt(zi(a)), zt(zi(b))
            return mkbool({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]())
        if isinstance(a, Sym) and a.k == "u" and self.is_num(b) or isinstance(b, Sym) and b.k == "u" and self.is_num(a):
            x, y = zt(zi(a)), zt(zi(b))
            return mkbool({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]())
        if isinstance(a, ListObj) and isinstance(b, ListObj) and a.items is not None and b.items is not None:
            for x, y in zip(a.items, b.items):
                if not self.truth(self.equal(x, y)):
                    return self.compare(op, x, y)
            import operator as o

            return {ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}[type(op)](len(a.items), len(b.items))
        if a is None or b is None:
            raise PyRaise(self.mkexc("TypeError", "comparison with None"))
        raise Unsupported(f"compare {type(op).__name__} {a!r} {b!r}")

    def identical(self, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, Sym) and x.k == "u" and x.ty is None:
                return mkbool(x.t == NONE)
            if isinstance(x, Poison):
                raise Unsupported(x.why)
            return False
        if isinstance(a, Sym) and isinstance(b, Sym) and a.k == b.k:
            return mkbool(a.t == b.t)
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            x = b if isinstance(a, bool) else a
            if isinstance(x, Sym) and x.k == "bool":
                return self.equal(a, b)
            if isinstance(x, Sym) and x.k == "u":
                return self.equal(a, b)
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.equal(a, b)
        if isinstance(a, PyType) and isinstance(b, PyType):
            return a.name == b.name
        return a is b

    def equal(self, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("use of a havocked value")
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, (str, bytes, int, float, type(None))) and isinstance(b, (str, bytes, int, float, type(None))):
            return a == b
        if self.is_num(a) and self.is_num(b):
            if any(isinstance(x, float) or (isinstance(x, Sym) and x.k == "real") for x in (a, b)):
                return mkbool(self.real(a) == self.real(b))
            if all(isinstance(x, (bool,)) or (isinstance(x, Sym) and x.k == "bool") for x in (a, b)):
                return mkbool(zb(a) == zb(b))
            return mkbool(zt(zi(a)) == zt(zi(b)))
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            if a.tup != b.tup:
                return False
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return False
                ts = []
                for x, y in zip(a.items, b.items):
                    r = self.equal(x, y)
                    if r is False:
                        return False
                    if r is not True:
                        ts.append(r.t)
                return mkbool(z3.And(*ts)) if ts else True
            raise Unsupported("equality of symbolic lists")
        if isinstance(a, Obj) and isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, InstObj) and isinstance(x.cls, Cls):
                    m = self.class_lookup(x.cls, "__eq__")
                    if m is not None:
                        return self.call(self.bind_method(m, x, x.cls), [y])
            if isinstance(a, DictObj) and isinstance(b, DictObj):
                raise Unsupported("dict equality")
            return a is b
        if isinstance(a, Sym) and a.k == "u" or isinstance(b, Sym) and b.k == "u":
            s, o = (a, b) if isinstance(a, Sym) and a.k == "u" else (b, a)
            if s.ty is not None and (o is None or (isinstance(o, (str,)) and s.ty not in ("str",)) or (isinstance(o, Sym) and o.k == "u" and o.ty is not None and o.ty != s.ty and False)):
                return False
            if s.ty is not None and s.ty != "int" and self.is_num(o):
                return False
            return mkbool(s.t == self.box(o))
        if isinstance(a, (PyType, Cls, Func, Builtin, Module)) or isinstance(b, (PyType, Cls, Func, Builtin, Module)):
            return a == b
        if isinstance(a, Obj) or isinstance(b, Obj) or a is None or b is None:
            return False
        if isinstance(a, (str, bytes)) != isinstance(b, (str, bytes)):
            return False
        raise Unsupported(f"equality {a!r} {b!r}")

    # ------------------------------------------------------------------ boxing
    def str_const(self, s):
        k = ("str", s)
        if k not in self.p.strs:
            t = z3.Const("str:" + repr(s), U)
            for o in self.p.strs.values():
                self.p.assume(t != o)
            self.p.strs[k] = t
            self.p.assume(t != NONE)
            self.p.assume(TRUTH(t) == (len(s) > 0))
        return self.p.strs[k]

    def box(self, v):
        if isinstance(v, Sym):
            if v.k == "u":
                return v.t
            if v.k == "int":
                self.p.assume(UNBOX_I(BOX_I(v.t)) == v.t)
                return BOX_I(v.t)
            if v.k == "bool":
                return BOX_B(v.t)
            if v.k == "real":
                return z3.Function("box_real", RealS, U)(v.t)
            raise Unsupported(f"box {v.k}")
        if v is None:
            return NONE
        if isinstance(v, bool):
            return BOX_B(z3.BoolVal(v))
        if isinstance(v, int):
            self.p.assume(UNBOX_I(BOX_I(z3.IntVal(v))) == v)
            return BOX_I(z3.IntVal(v))
        if isinstance(v, (str, bytes)):
            return self.str_const(v)
        if isinstance(v, Poison):
            raise Unsupported("box of havocked value")
        if isinstance(v, ListObj) and v.tup and v.items is not None:
            ts = [self.box(x) for x in v.items]
            f = z3.Function(f"tuple_{len(ts)}", *([U] * len(ts)), U) if ts else None
            t = f(*ts) if ts else z3.Const("empty_tuple", U)
            for i, x in enumerate(ts):
                self.p.assume(z3.Function(f"item_{i}", U, U)(t) == x)
            self.unbox[t.get_id()] = (t, v)
            return t
        if isinstance(v, (Obj, Func, Cls, PyType, Builtin, Native, Bound, Module, ExtModule, Coroutine)):
            nm = f"obj!{v.oid}" if isinstance(v, Obj) and v.oid is not None else f"meta!{id(v)}"
            t = z3.Const(nm, U)
            if t.get_id() not in self.unbox:
                if isinstance(v, DictObj) and v.items is not None and isinstance(v.cls, Cls) and all(isinstance(x, str) for x in v.items):
                    # an immutable mapping: its items are functions of the object
                    for kk, vv in v.items.items():
                        self.p.assume(z3.Function("item_at", U, U, U)(t, self.str_const(kk)) == self.box(vv))
                for tt, o in list(self.unbox.values()):
                    if tt.decl().arity() == 0:
                        self.p.assume(t != tt)
                self.p.assume(t != NONE)
                self.unbox[t.get_id()] = (t, v)
            return t
        raise Unsupported(f"box {v!r}")

    def unbox_term(self, t, ty=None):
        t = z3.simplify(t)
        if t.get_id() in self.unbox:
            return self.unbox[t.get_id()][1]
        if z3.is_app(t):
            if t.decl().eq(NONE.decl()):
                return None
            if t.decl().name() == "box_int":
                return mkint(t.arg(0))
            if t.decl().name() == "box_bool":
                return mkbool(t.arg(0))
            for (kind, s), c in self.p.strs.items():
                if c.eq(t):
                    return s
        return Sym(t, "u", ty)

    def opaque_fn(self, name, args, ty=None, sort=U):
        ts = []
        for a in args:
            if isinstance(a, Ignore):
                return Ignore()
            ts.append(self.box(a))
        f = z3.Function(name, *([U] * len(ts)), sort)
        t = f(*ts) if ts else z3.Const(name, sort)
        if sort == U:
            return Sym(t, "u", ty)
        return Sym(t, "bool" if sort == BoolS else "int")

    # ------------------------------------------------------------------ truth
    def truth_term(self, v):
        if isinstance(v, Poison):
            raise Unsupported("truth of a havocked value")
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        if isinstance(v, Sym):
            if v.k == "bool":
                return v.t
            if v.k == "int":
                return v.t != 0
            if v.k == "real":
                return v.t != 0
            if v.k == "u":
                if v.ty is not None and v.ty not in ("str", "bytes", "int", "seq", "any"):
                    return True  # an instance without __bool__/__len__
                self.p.assume(z3.Not(TRUTH(NONE)))
                return TRUTH(v.t)
        if isinstance(v, (ListObj, DictObj, SetObj)):
            if v.pyt == "list" or v.pyt == "tuple":
                n = self.length(v)
                return n > 0 if isinstance(n, int) else z3.simplify(n > 0)
            if v.items is not None:
                return len(v.items) > 0
            if isinstance(v, SetObj):
                x = z3.Const("x!set", v.el.sort)
                return z3.Exists([x], v.mem[x])
            x = z3.Const("x!dict", v.dom.domain())
            return z3.Exists([x], v.dom[x])
        if isinstance(v, InstObj) and isinstance(v.cls, Cls) and (self.class_lookup(v.cls, "__bool__") or self.class_lookup(v.cls, "__len__")):
            raise Unsupported("truth of instance")
        return True

    def truth(self, v):
        t = self.truth_term(v)
        return t if isinstance(t, bool) else self.p.branch(t)

    # ------------------------------------------------------------------ attributes
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__"):
            c = fr.cls
            if c is None:
                f = fr.closure
                while f is not None and c is None:
                    c = f.cls
                    f = f.closure
            if c is not None:
                return f"_{c.name.lstrip('_')}{name}"
        return name

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))

    def getattr(self, o, name, default=KeyError):
        if isinstance(o, Poison):
            raise Unsupported("attribute of a havocked value")
        if self.attr_hook is not None:
            r = self.attr_hook(self, o, name)
            if r is not NotImplemented:
                return r
        if isinstance(o, Ignore):
            return o
        if isinstance(o, (Module, ExtModule)):
            return self.mod_attr(o, name)
        if isinstance(o, Native):
            return o.getattr(self, name)
        if isinstance(o, InstObj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"attribute {name}: {v.why}")
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                d = self.mkdict(dict(o.attrs))
                d.pyt = "dict"
                return d
            if isinstance(o.cls, Cls):
                m = self.class_lookup(o.cls, name)
                if m is None and any(name in c.attrs for c in o.cls.mro()):
                    return None
                if m is not None:
                    if isinstance(m, Poison):
                        raise Unsupported(m.why)
                    return self.bind_method(m, o, o.cls)
                ga = self.class_lookup(o.cls, "__getattr__")
                if ga is not None:
                    return self.call(self.bind_method(ga, o, o.cls), [name])
            if default is not KeyError:
                return default
            raise PyRaise(self.mkexc("AttributeError", name))
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name
            m = self.class_lookup(o, name)
            if m is None and any(name in c.attrs for c in o.mro()):
                return None
            if m is not None:
                if isinstance(m, Poison):
                    raise Unsupported(m.why)
                return self.bind_method(m, None, o)
            if name == "__new__":
                return Builtin("object.__new__", lambda it, a, k: it.alloc(a[0]))
            if name == "__module__":
                return o.mod.name if o.mod else "?"
            raise PyRaise(self.mkexc("AttributeError", name))
        if isinstance(o, _Super):
            for c in o.cls.mro()[1:]:
                if name in c.attrs:
                    return self.bind_method(c.attrs[name], o.obj if not isinstance(o.obj, Cls) else None, o.obj if isinstance(o.obj, Cls) else o.obj.cls)
            if name == "__new__":
                return Builtin("object.__new__", lambda it, a, k: it.alloc(a[0]))
            if name in ("__init__", "__init_subclass__"):
                return Builtin("object.__init__", lambda it, a, k: None)
            if isinstance(o.obj, DictObj):
                return self.method_of(o.obj, name)
            raise PyRaise(self.mkexc("AttributeError", name))
        if isinstance(o, (ListObj, DictObj, SetObj, ArrObj)):
            if isinstance(o.cls, Cls):
                m = self.class_lookup(o.cls, name)
                if m is not None:
                    return self.bind_method(m, o, o.cls)
            return self.method_of(o, name)
        if isinstance(o, (str, bytes)):
            return self.method_of(o, name)
        if isinstance(o, Sym) and o.k == "u":
            return self.opaque_attr(o, name)
        if isinstance(o, (Func, Bound)):
            if name == "__name__":
                return (o.fn if isinstance(o, Bound) else o).name
            if name == "__class__":
                return PyType("function")
        if isinstance(o, PyType):
            if name == "__name__":
                return o.name
            return self.mod_attr(ExtModule("type:" + o.name), name)
        if name == "__class__":
            return self.type_of(o)
        if default is not KeyError:
            return default
        if isinstance(o, (int, str, float, bytes, type(None))) and not hasattr(o, name):
            raise PyRaise(self.mkexc("AttributeError", name))
        raise Unsupported(f"attribute {name} of {o!r}")

    def opaque_attr(self, o, name):
        if o.ty == "str" or name in ("strip", "lower", "isdigit", "split", "replace", "format", "startswith", "tobytes"):
            return Builtin("u." + name, lambda it, a, k: it.str_method(o, name, a))
        f = z3.Function("attr_" + name, U, U)
        self.p.eng.assumed.setdefault(f"attribute .{name} of an opaque object is a pure function of that object", 0)
        return self.unbox_term(f(o.t))

    def str_method(self, o, name, a):
        if name in ("isdigit", "startswith", "endswith"):
            return self.opaque_fn("str_" + name, [o] + a, sort=BoolS)
        return self.opaque_fn("str_" + name, [o] + [x if not isinstance(x, ListObj) else x for x in a], "str" if name != "split" else None)

    def setattr(self, o, name, v):
        if isinstance(o, Ignore):
            return
        if self.p.noeffect and not (isinstance(o, InstObj) and o.oid >= self.p.noeffect_base):
            raise NotPure()
        if isinstance(o, InstObj):
            o.attrs[name] = v
        elif isinstance(o, Cls):
            o.attrs[name] = v
        elif isinstance(o, Native):
            o.setattr(self, name, v)
        elif isinstance(o, Module):
            if (o.name, name) in self.gover:
                self.gover[(o.name, name)] = v
            o.env[name] = v
        else:
            raise Unsupported(f"setattr on {o!r}")

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and f.cls is None:
                f = f.closure
            first = next(iter(fr.vars.values()))
            return _Super(f.cls, first)
        f = self.ev(e.func, fr)
        if isinstance(f, Ignore):
            return f
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                it = self.iter(v)
                n = it.n()
                if isinstance(n, int):
                    args.extend(it.get(i) for i in range(n))
                else:
                    if a is not e.args[-1]:
                        raise Unsupported("symbolic star in the middle")
                    args.append(_Star(v))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, DictObj) and d.items is not None:
                    for kk, vv in d.items.items():
                        if kk in kwargs:
                            raise PyRaise(self.mkexc("TypeError", "multiple values"))
                        kwargs[kk] = vv
                elif isinstance(d, DictObj):
                    kwargs["**"] = d
                else:
                    raise Unsupported("** of " + repr(d))
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        self.call_node = e
        return self.call(f, args, kwargs)

    def call_type(self, t, args, kwargs):
        n = t.name
        if t.call is not None:
            return t.call(self, args, kwargs)
        m = getattr(self, "T_" + n, None)
        if m is not None:
            return m(*args, **kwargs)
        o = getattr(_bi, n, None)
        if isinstance(o, type) and issubclass(o, BaseException):
            return self.mkexc(n, *args)
        raise Unsupported(f"constructor {n}")

    def T_list(self, x=None):
        if x is None:
            return self.mklist([])
        return self.to_list(x)

    def T_tuple(self, x=None):
        if x is None:
            return self.mktuple([])
        return self.to_tuple(x)

    def T_dict(self, x=None, **kw):
        if x is None:
            return self.mkdict(dict(kw))
        if isinstance(x, DictObj):
            if x.items is not None:
                d = dict(x.items)
                d.update(kw)
                return self.mkdict(d)
            d = self.p.reg(DictObj(dom=x.dom, val=x.val, el=x.el))
            return d
        it = self.iter(x)
        n = it.n()
        if isinstance(n, int):
            d = self.mkdict({})
            for i in range(n):
                k, v = self.unpack(it.get(i), 2)
                self.setitem(d, k, v)
            return d
        r = self.dict_from_pairs(it)
        if r is None:
            raise Unsupported("dict of pairs with effects")
        return r

    def dict_from_pairs(self, it):
        """dict over a symbolic sequence of pairs: the domain is the set of keys; a key maps to the value of its
        last occurrence.  Stated with a witness function (position of the last occurrence)."""
        n = zt(it.n())
        j = z3.Int("j!dz")
        from pyvc.loops import per_element, pure_eval

        jf = self.p.fresh("jdz", IntS)
        base = len(self.p.made)
        leaves = pure_eval(self, lambda: it.get(Sym(jf, "int")), z3.And(0 <= jf, jf < n))
        if not leaves:
            return None
        kt = vt = v = None
        for conds, pair, facts in reversed(leaves):
            k, v = self.unpack(pair, 2)
            conds = per_element(self.p, base, jf, conds)
            for x in per_element(self.p, base, jf, facts):
                if not has_quant(x):
                    y = z3.Implies(z3.And(0 <= jf, jf < n, *conds), x)
                    self.p.assume(z3.ForAll([j], z3.substitute(y, (jf, j))) if not z3.substitute(y, (jf, j)).eq(y) else y)
            a, b = per_element(self.p, base, jf, [self.box(k), self.box(v)])
            kt, vt = (a, b) if kt is None else (z3.If(z3.And(*conds), a, kt), z3.If(z3.And(*conds), b, vt))
        kt, vt = z3.simplify(z3.substitute(kt, (jf, j))), z3.substitute(vt, (jf, j))
        dom = self.p.fresh("dz_dom", z3.ArraySort(U, BoolS))
        val = self.p.fresh("dz_val", z3.ArraySort(U, U))
        pos = z3.Function(self.p.fresh("dz_pos", IntS).decl().name(), U, IntS)
        x = z3.Const("x!dz", U)
        self.p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(dom[kt], pos(kt) >= j)), patterns=[kt] if z3.is_app(kt) and kt.num_args() else []))
        kp = z3.substitute(kt, (j, pos(x)))
        vp = z3.substitute(vt, (j, pos(x)))
        self.p.assume(z3.ForAll([x], z3.Implies(dom[x], z3.And(0 <= pos(x), pos(x) < n, kp == x, val[x] == vp)), patterns=[dom[x]]))
        return self.p.reg(DictObj(dom=dom, val=val, el=EU(v.ty if isinstance(v, Sym) else None)))

    def T_set(self, x=None):
        if x is None:
            return self.p.reg(SetObj(items=[]))
        it = self.iter(x)
        n = it.n()
        if isinstance(n, int):
            s = self.p.reg(SetObj(items=[]))
            for i in range(n):
                self.set_add(s, it.get(i))
            return s
        s = self.p.reg(SetObj(items=[]))
        self.set_update(s, x)
        return s

    def T_bool(self, x=False):
        t = self.truth_term(x)
        return t if isinstance(t, bool) else mkbool(t)

    def T_int(self, x=0, *a):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, float):
            return int(x)
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                raise PyRaise(self.mkexc("ValueError"))
        if isinstance(x, Sym):
            if x.k in ("int", "bool"):
                return mkint(zi(x))
            if x.k == "real":
                # truncation toward zero
                return mkint(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
            if x.k == "u":
                return Sym(z3.Function("int_of", U, IntS)(x.t), "int")
        raise Unsupported(f"int({x!r})")

    def T_float(self, x=0.0):
        if isinstance(x, (int, float)):
            return float(x)
        if isinstance(x, Sym):
            if x.k != "u":
                return Sym(self.real(x), "real")
            return Sym(z3.Function("float_of", U, RealS)(x.t), "real")
        raise Unsupported("float")

    def T_str(self, x=""):
        if isinstance(x, (str, int)) and not isinstance(x, bool):
            return str(x)
        if isinstance(x, InstObj) and isinstance(x.cls, Cls):
            m = self.class_lookup(x.cls, "__str__") or self.class_lookup(x.cls, "__repr__")
            if m is not None:
                return self.call(self.bind_method(m, x, x.cls), [])
        if isinstance(x, Native) and hasattr(x, "str"):
            return x.str(self)
        return self.opaque_fn("str_of", [x], "str")

    def T_object(self):
        return self.p.reg(InstObj(PyType("object")))

    def T_range(self, *a):
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        else:
            lo, hi, st = a
        return _Range(lo, hi, st)

    def T_enumerate(self, x, start=0):
        return _IterV(lambda: self.iter_enum(x, start))

    def T_zip(self, *xs, **kw):
        return _IterV(lambda: self.iter_zip(xs))

    def T_map(self, f, x):
        def mk():
            it = self.iter(x)
            return Iter(it.n, lambda k: self.call(f, [it.get(k)]))

        return _IterV(mk)

    def T_reversed(self, x):
        it = self.iter(x)
        return _IterV(lambda: Iter(it.n, lambda k: it.get(self.binop(ast.Sub(), self.binop(ast.Sub(), self.wrapn(it.n()), 1), k))))

    def T_bytearray(self, x=None):
        if isinstance(x, (Sym, int)):
            n = zt(zi(x))
            return self.p.reg(ArrObj(n, z3.K(IntS, z3.IntVal(0)), EInt))
        raise Unsupported("bytearray")

    def T_type(self, x, *a):
        return self.type_of(x)

    def T_memoryview(self, x):
        return x

    def wrapn(self, n):
        return n if isinstance(n, int) else Sym(n, "int")

    def type_of(self, x):
        if isinstance(x, InstObj):
            return x.cls
        if isinstance(x, (ListObj, DictObj, SetObj)):
            return x.cls if isinstance(x.cls, Cls) else PyType(x.pyt)
        if x is None:
            return PyType("NoneType")
        if isinstance(x, (bool, int, float, str, bytes)):
            return PyType(type(x).__name__)
        if isinstance(x, Sym) and x.k in ("int", "bool"):
            return PyType(x.k)
        if isinstance(x, Sym) and x.k == "real":
            return PyType("float")
        if isinstance(x, Sym) and x.k == "u" and x.ty is not None:
            return PyType(x.ty)
        raise Unsupported(f"type({x!r})")

    # ------------------------------------------------------------------ isinstance
    def isinst_pred(self, v, t):
        n = t.name if isinstance(t, (PyType, Cls)) else getattr(t, "name", str(t))
        return z3.Function("is_" + n.replace(".", "_"), U, BoolS)(v.t)

    def isinstance(self, v, t):
        """returns bool or z3 Bool term"""
        if isinstance(t, ListObj):
            rs = [self.isinstance(v, x) for x in t.items]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return z3.Or(*rs) if rs else False
        if self.isinst_hook is not None:
            r = self.isinst_hook(self, v, t)
            if r is not NotImplemented:
                return r
        tn = t.name if isinstance(t, (PyType, Cls, ExtModule)) else None
        if tn is None:
            raise Unsupported(f"isinstance with {t!r}")
        tn = tn.split(".")[-1]
        if isinstance(v, Sym):
            if v.k == "bool":
                return tn in ("bool", "int")
            if v.k == "int":
                return tn == "int"
            if v.k == "real":
                return tn == "float"
            if v.ty is not None and v.ty != "any":
                if v.ty == tn or (v.ty == "Exception" and tn == "BaseException") or (v.ty == "MpiDataID" and tn == "DataID"):
                    return True
                return False
            return self.isinst_pred(v, PyType(tn))
        if isinstance(v, InstObj):
            if isinstance(t, Cls):
                return isinstance(v.cls, Cls) and t in v.cls.mro()
            n = v.cls.name if isinstance(v.cls, PyType) else next((c.builtin for c in v.cls.mro() if c.builtin), None)
            if n == tn or tn == "object":
                return True
            a, b = getattr(_bi, n or "", None), getattr(_bi, tn, None)
            return isinstance(a, type) and isinstance(b, type) and issubclass(a, b)
        if isinstance(v, (ListObj, DictObj, SetObj)):
            if isinstance(t, Cls):
                return isinstance(v.cls, Cls) and t in v.cls.mro()
            return v.pyt == tn
        if isinstance(v, (bool, int, float, str, bytes)):
            b = getattr(_bi, tn, None)
            return isinstance(b, type) and isinstance(v, b)
        if isinstance(v, Native):
            return tn in getattr(v, "types", ())
        if isinstance(v, Poison):
            raise Unsupported("isinstance of a havocked value")
        return False

    # ------------------------------------------------------------------ iteration
    def iter(self, v):
        if isinstance(v, _IterV):
            return v.mk()
        if isinstance(v, Gen):
            return self.iter(v.lst)
        if isinstance(v, _Range):
            lo, hi, st = v.lo, v.hi, v.st
            if isinstance(st, int) and st >= 1:
                if all(isinstance(x, int) for x in (lo, hi)):
                    r = range(lo, hi, st)
                    return Iter(lambda: len(r), lambda k: (r[k] if isinstance(k, int) else mkint(lo + zi(k) * st)))
                d = simp(zt(zi(hi)) - zt(zi(lo)))
                nn = zt(d) if st == 1 else (zt(d) + (st - 1)) / st
                nn = simp(z3.If(zt(d) > 0, nn, z3.IntVal(0)))
                if not isinstance(nn, int):
                    # avoid the conditional when the sign is known
                    if not self.p.feasible(zt(d) < 0):
                        nn = simp(zt(d) if st == 1 else (zt(d) + (st - 1)) / st)
                return Iter(lambda: nn, lambda k: mkint(zt(zi(lo)) + zt(zi(k)) * st))
            if isinstance(st, int) and all(isinstance(x, int) for x in (lo, hi)):
                r = range(lo, hi, st)
                return Iter(lambda: len(r), lambda k: r[k])
            if isinstance(st, Sym) and st.k == "int":
                if not self.p.branch(st.t >= 1):
                    raise Unsupported("range with a step that is not positive")
                lo, hi = zt(zi(lo)), zt(zi(hi))
                n, a, k = self.p.fresh("range_n", IntS), self.p.fresh("range", z3.ArraySort(IntS, IntS)), z3.Int("k!rg")
                # the number of steps: the least n with lo + n * step >= hi
                self.p.assume(z3.And(n >= 0, z3.Implies(hi <= lo, n == 0), z3.Implies(hi > lo, z3.And(n >= 1, lo + (n - 1) * st.t < hi, hi <= lo + n * st.t))))
                self.p.assume(z3.ForAll([k], z3.And(a[k] == lo + k * st.t, z3.Implies(z3.And(0 <= k, k < n), z3.And(lo <= a[k], a[k] < hi)), z3.Implies(k >= n, a[k] >= hi)), patterns=[a[k]]))
                l = self.p.reg(ListObj(n=n, arr=a, el=EInt))
                return Iter(lambda: n, lambda k: self.list_at(l, k), src=l)
            raise Unsupported("range step")
        if isinstance(v, ListObj):
            return Iter(lambda: self.length(v), lambda k: self.list_at(v, k), src=v)
        if isinstance(v, ArrObj):
            return Iter(lambda: simp(v.n), lambda k: v.el.wrap(sel(v.arr, zi(k))), src=v)
        if isinstance(v, DictObj):
            if v.items is not None:
                return Iter(lambda: len(v.items), lambda k: self.from_hkey(list(v.items)[k]))
            ks = self.dict_keys(v)
            return self.iter(ks)
        if isinstance(v, SetObj):
            if v.items is not None:
                its = list(v.items)
                return Iter(lambda: len(its), lambda k: its[k])
            return self.iter(self.set_order(v))
        if isinstance(v, str):
            return Iter(lambda: len(v), lambda k: v[k])
        if isinstance(v, Native) and hasattr(v, "iter"):
            return v.iter(self)
        if isinstance(v, Sym) and v.k == "u":
            # an opaque iterable: length and elements are uninterpreted
            n = LEN(v.t)
            self.p.assume(n >= 0)
            f = z3.Function("elem_of", U, IntS, U)
            return Iter(lambda: n, lambda k: self.unbox_term(f(v.t, zt(zi(k)))))
        if v is None:
            raise PyRaise(self.mkexc("TypeError", "not iterable"))
        raise Unsupported(f"iteration over {v!r}")

    def from_hkey(self, k):
        if isinstance(k, HK):
            return k.v
        if isinstance(k, tuple):
            return self.mktuple([self.from_hkey(x) for x in k])
        return k

    def iter_enum(self, x, start):
        it = self.iter(x)
        return Iter(it.n, lambda k: self.mktuple([self.binop(ast.Add(), k, start), it.get(k)]), src=it.src)

    def iter_zip(self, xs):
        its = [self.iter(x) for x in xs]

        def n():
            ns = [i.n() for i in its]
            if all(isinstance(a, int) for a in ns):
                return min(ns) if ns else 0
            r = zt(ns[0])
            for a in ns[1:]:
                a = zt(a)
                if r.eq(a) or self.p.holds(r == a, 1000):
                    continue
                r = z3.If(a < r, a, r)
            return simp(r)

        return Iter(n, lambda k: self.mktuple([i.get(k) for i in its]), src=next((i.src for i in its if i.src is not None), None))

    def dict_keys(self, d):
        """ghost key order of a symbolic dict (arbitrary, without repetitions)"""
        return self.order_of(d.dom, "keys", d)

    def set_order(self, s):
        return self.order_of(s.mem, "setorder", s)

    def order_of(self, mem, nm, o):
        p = self.p
        n = p.fresh(nm + "_n", IntS)
        ksort = mem.domain()
        arr = p.fresh(nm, z3.ArraySort(IntS, ksort))
        inv = z3.Function(p.fresh(nm + "_pos", IntS).decl().name(), ksort, IntS)
        j = z3.Int("j!o")
        x = z3.Const("x!o", ksort)
        p.assume(n >= 0)
        p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(mem[arr[j]], inv(arr[j]) == j)), patterns=[arr[j]]))
        p.assume(z3.ForAll([x], z3.Implies(mem[x], z3.And(0 <= inv(x), inv(x) < n, arr[inv(x)] == x)), patterns=[mem[x]] if z3.is_const(mem) else [inv(x)]))
        el = EInt if ksort == IntS else (EU(getattr(o, "keyty", None)) if isinstance(o, DictObj) else o.el)
        cnt = {}
        for e in p.tracked:
            if p.tracked_terms[e].sort() == ksort:
                cnt[e] = z3.If(z3.Select(mem, p.tracked_terms[e]), z3.IntVal(1), z3.IntVal(0))
        l = p.reg(ListObj(n=n, arr=arr, el=el, cnt=cnt))
        l.distinct = True
        self.cnt_facts(l)
        return l

    # ------------------------------------------------------------------ comprehension
    def e_ListComp(self, e, fr):
        from . import loops

        return loops.comprehension(self, e, fr)

    def e_GeneratorExp(self, e, fr):
        from . import loops

        return Gen(loops.comprehension(self, e, fr))

    def e_SetComp(self, e, fr):
        from . import loops

        return self.T_set(loops.comprehension(self, e, fr))

    def e_DictComp(self, e, fr):
        from . import loops

        return loops.dict_comprehension(self, e, fr)

    # ------------------------------------------------------------------ strings
    def e_JoinedStr(self, e, fr):
        parts = []
        conc = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, Ignore):
                    return x
                if isinstance(x, (str, int, float)) and v.format_spec is None:
                    parts.append(repr(x) if v.conversion == 114 else str(x))
                else:
                    parts.append(x)
                    conc = False
        if conc:
            return "".join(parts)
        h = getattr(self, "fstring_hook", None)
        if h is not None:
            r = h(self, parts)
            if r is not NotImplemented:
                return r
        shape = "|".join(x if isinstance(x, str) else "{}" for x in parts)
        try:
            return self.opaque_fn("fmt:" + shape, [x for x in parts if not isinstance(x, str)], "str")
        except Unsupported:
            return self.p.u("str", "str")

    def e_FormattedValue(self, e, fr):
        return self.ev(e.value, fr)

    # ------------------------------------------------------------------ subscripts
    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return Slice(*(self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)))
        return self.ev(s, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_index(e.slice, fr))

    def e_Slice(self, e, fr):
        return self.ev_index(e, fr)

    def getitem(self, o, i):
        from . import containers as C

        return C.getitem(self, o, i)

    def setitem(self, o, i, v):
        from . import containers as C

        return C.setitem(self, o, i, v)

    def delitem(self, o, i):
        from . import containers as C

        return C.delitem(self, o, i)

    def contains(self, o, x):
        from . import containers as C

        return C.contains(self, o, x)

    def method_of(self, o, name):
        from . import containers as C

        return Builtin(name, lambda it, a, k: C.method(it, o, name, a, k))

    def call_method(self, o, name, args):
        return self.call(self.getattr(o, name), args)

    def length(self, v):
        from . import containers as C

        return C.length(self, v)

    def list_at(self, v, k):
        from . import containers as C

        return C.list_at(self, v, k)

    def list_concat(self, a, b):
        from . import containers as C

        return C.concat(self, a, b)

    def list_repeat(self, a, n):
        from . import containers as C

        return C.repeat(self, a, n)

    def list_extend(self, a, b):
        from . import containers as C

        return C.extend(self, a, b)

    def list_append(self, a, x):
        from . import containers as C

        return C.append(self, a, x)

    def set_add(self, s, x):
        from . import containers as C

        return C.set_add(self, s, x)

    def set_update(self, s, x):
        from . import containers as C

        return C.set_update(self, s, x)

    def cnt_facts(self, l):
        from . import containers as C

        return C.cnt_facts(self, l)

    def mklist(self, items):
        return self.p.reg(ListObj(items=list(items)))

    def mktuple(self, items):
        return self.p.reg(ListObj(items=list(items), tup=True))

    def mkdict(self, items):
        return self.p.reg(DictObj(items=dict(items)))

    def to_list(self, x, tup=False):
        from . import containers as C

        return C.copy_seq(self, x, tup)

    def to_tuple(self, x):
        return self.to_list(x, True)


class HK:
    """A key of a concrete dict that is not a Python constant."""

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(self.v.t) if isinstance(self.v, Sym) else id(self.v)

    def __eq__(self, o):
        if not isinstance(o, HK):
            return False
        if isinstance(self.v, Sym):
            return isinstance(o.v, Sym) and self.v.t.eq(o.v.t)
        return self.v is o.v

    def __repr__(self):
        return f"HK({self.v!r})"


class _Star:
    def __init__(self, v):
        self.v = v


class _Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class _Range:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class _IterV:
    def __init__(self, mk):
        self.mk = mk


def zb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v.t


# ---------------------------------------------------------------------- builtins
def _bf(name):
    def deco(f):
        Interp.BUILTINS[name] = Builtin(name, lambda it, a, k: f(it, *a, **k))
        return f

    return deco


Interp.BUILTINS = {}


@_bf("len")
def _len(it, x):
    n = it.length(x)
    return n if isinstance(n, int) else mkint(n)


@_bf("isinstance")
def _isinstance(it, x, t):
    r = it.isinstance(x, t)
    return r if isinstance(r, bool) else mkbool(r)


@_bf("issubclass")
def _issubclass(it, x, t):
    if isinstance(x, Cls) and isinstance(t, Cls):
        return t in x.mro()
    raise Unsupported("issubclass")


@_bf("callable")
def _callable(it, x):
    if isinstance(x, (Func, Bound, Builtin, Cls, PyType)):
        return True
    if isinstance(x, Sym) and x.k == "u":
        if x.ty is not None and x.ty not in ("any",):
            return x.ty in ("function", "class")
        return Sym(z3.Function("is_callable", U, BoolS)(x.t), "bool")
    if isinstance(x, InstObj) and isinstance(x.cls, Cls):
        return it.class_lookup(x.cls, "__call__") is not None
    return False


@_bf("getattr")
def _getattr(it, o, name, *d):
    if not isinstance(name, str):
        raise Unsupported("getattr with symbolic name")
    try:
        return it.getattr(o, name)
    except PyRaise as e:
        if d and isinstance(e.value, InstObj) and e.value.cls == PyType("AttributeError"):
            return d[0]
        raise


@_bf("setattr")
def _setattr(it, o, name, v):
    if not isinstance(name, str):
        raise Unsupported("setattr with symbolic name")
    it.setattr(o, name, v)


@_bf("hasattr")
def _hasattr(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except PyRaise:
        return False


@_bf("min")
def _min(it, *a, **k):
    return _minmax(it, a, lambda x, y: x < y)


@_bf("max")
def _max(it, *a, **k):
    return _minmax(it, a, lambda x, y: x > y)


def _minmax(it, a, lt):
    if len(a) == 1:
        i = it.iter(a[0])
        n = i.n()
        if not isinstance(n, int):
            raise Unsupported("min/max of symbolic sequence")
        a = [i.get(j) for j in range(n)]
    if all(isinstance(x, (int, float)) for x in a):
        r = a[0]
        for x in a[1:]:
            if lt(x, r):
                r = x
        return r
    if any(isinstance(x, float) or (isinstance(x, Sym) and x.k == "real") for x in a):
        r = it.real(a[0])
        for x in a[1:]:
            x = it.real(x)
            r = z3.If(lt(x, r), x, r)
        return Sym(r, "real")
    r = zt(zi(a[0]))
    for x in a[1:]:
        x = zt(zi(x))
        r = z3.If(lt(x, r), x, r)
    return mkint(r)


@_bf("abs")
def _abs(it, x):
    if isinstance(x, (int, float)):
        return abs(x)
    return mkint(z3.If(zi(x) >= 0, zi(x), -zi(x)))


@_bf("sum")
def _sum(it, x, start=0):
    from . import containers as C

    return C.sum_(it, x, start)


@_bf("any")
def _any(it, x):
    return _quant(it, x, True)


@_bf("all")
def _all(it, x):
    return _quant(it, x, False)


def _quant(it, x, is_any):
    i = it.iter(x)
    n = i.n()
    if isinstance(n, int):
        for j in range(n):
            t = it.truth(i.get(j))
            if t == is_any:
                return is_any
        return not is_any
    j = it.p.fresh("q", IntS)
    v = i.get(Sym(j, "int"))
    t = it.truth_term(v)
    if isinstance(t, bool):
        if t != is_any:
            return not is_any
        r = zt(n) > 0
        return mkbool(r if is_any else z3.Not(r))
    b = it.p.fresh("quant", BoolS)
    w = it.p.fresh("quant_w", IntS)
    jj = z3.Int("j!q")
    tt = z3.substitute(t, (j, jj))
    tw = z3.substitute(t, (j, w))
    inr = z3.And(0 <= jj, jj < zt(n))
    if is_any:
        it.p.assume(z3.Implies(b, z3.And(0 <= w, w < zt(n), tw)))
        it.p.assume(z3.Implies(z3.Not(b), z3.ForAll([jj], z3.Implies(inr, z3.Not(tt)))))
    else:
        it.p.assume(z3.Implies(z3.Not(b), z3.And(0 <= w, w < zt(n), z3.Not(tw))))
        it.p.assume(z3.Implies(b, z3.ForAll([jj], z3.Implies(inr, tt))))
    return Sym(b, "bool")


@_bf("iter")
def _iter(it, x):
    return x


@_bf("next")
def _next(it, x, *d):
    if isinstance(x, Native) and hasattr(x, "next"):
        return x.next(it)
    if isinstance(x, Gen) and not getattr(x, "used", False):
        x.used = True
        i = it.iter(x)
        n = i.n()
        if n > 0 if isinstance(n, int) else it.p.branch(zt(n) > 0):
            return i.get(0)
        if d:
            return d[0]
        raise PyRaise(it.mkexc("StopIteration", ""))
    raise Unsupported("next")


@_bf("print")
def _print(it, *a, **k):
    return None


@_bf("id")
def _id(it, x):
    return it.opaque_fn("id_of", [x], sort=IntS)


@_bf("hash")
def _hash(it, x):
    return it.opaque_fn("hash_of", [x], sort=IntS)


@_bf("repr")
def _repr(it, x):
    return it.opaque_fn("repr_of", [x], "str")


@_bf("sorted")
def _sorted(it, *a, **k):
    raise Unsupported("sorted")


# ---------------------------------------------------------------------- default models of external modules
def _weakdict(it, args, kw):
    return it.mkdict({})


def _defaultdict(it, args, kw):
    d = it.mkdict({})
    d.default = args[0] if args else None
    return d


DEFAULT_EXT = {
    "logging": Ignore(),
    "warnings": Ignore(),
    "time": Ignore(),
    "weakref.WeakKeyDictionary": Builtin("WeakKeyDictionary", _weakdict),
    "weakref.WeakValueDictionary": Builtin("WeakValueDictionary", _weakdict),
    "collections.defaultdict": Builtin("defaultdict", _defaultdict),
    "inspect.isfunction": Builtin("isfunction", lambda it, a, k: isinstance(a[0], Func) if not isinstance(a[0], Sym) else (a[0].ty == "function" if a[0].ty else Sym(z3.Function("is_function", U, BoolS)(a[0].t), "bool"))),
    "inspect.isclass": Builtin("isclass", lambda it, a, k: isinstance(a[0], (Cls, PyType)) if not isinstance(a[0], Sym) else (a[0].ty == "class" if a[0].ty else Sym(z3.Function("is_class", U, BoolS)(a[0].t), "bool"))),
    "inspect.ismethod": Builtin("ismethod", lambda it, a, k: isinstance(a[0], Bound) if not isinstance(a[0], Sym) else Sym(z3.Function("is_method", U, BoolS)(a[0].t), "bool")),
    "functools.partial": Builtin("partial", lambda it, a, k: Builtin("partial", lambda it2, a2, k2: it2.call(a[0], list(a[1:]) + list(a2), {**k, **k2}))),
    "weakref.proxy": Builtin("proxy", lambda it, a, k: a[0]),
    "array.array": Builtin("array", lambda it, a, k: it.to_list(a[1])),
}
