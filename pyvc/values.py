"""Values of the symbolic interpreter.

Concrete Python None/bool/int/float/str/bytes stand for themselves.  Everything else is one
of the classes below.  `U` is the sort of opaque Python objects (data IDs, user values,
strings that are not literals, MPI handles ...).
"""
import z3

U = z3.DeclareSort("U")
IntS, BoolS, RealS = z3.IntSort(), z3.BoolSort(), z3.RealSort()


class Unsupported(Exception):
    """The construct is outside of the subset: the verdict falls back to the bounded check."""


class Sym:
    """A z3 term with its Python kind: int, bool, real or u (opaque)."""

    __slots__ = ("t", "k", "ty")

    def __init__(self, t, k, ty=None):
        self.t, self.k, self.ty = t, k, ty

    def __repr__(self):
        return f"<{self.k}:{self.t}{'/' + str(self.ty) if self.ty else ''}>"


def I(t):
    return Sym(t, "int")


def B(t):
    return Sym(t, "bool")


class Poison:
    def __init__(self, why):
        self.why = why


class Obj:
    """Heap object, numbered in creation order (deterministic along a path prefix)."""

    oid = None
    cls = None


class Elem:
    """How list elements are represented: z3 sort plus wrap/unwrap."""

    def __init__(self, name, sort, wrap, ty=None):
        self.name, self.sort, self.wrap, self.ty = name, sort, wrap, ty

    def __repr__(self):
        return f"Elem({self.name})"


EInt = Elem("int", IntS, lambda t: Sym(t, "int"))
EBool = Elem("bool", BoolS, lambda t: Sym(t, "bool"))


def EU(ty=None):
    return Elem("u" if ty is None else f"u:{ty}", U, lambda t: Sym(t, "u", ty), ty)


class Bag:
    """tup flag of a set of known size, held as the list of its elements in some order"""

    def __bool__(self):
        return False


BAG = Bag()


class ListObj(Obj):
    """items: concrete element list, or None when symbolic (n, arr, el, cnt)."""

    def __init__(self, items=None, n=None, arr=None, el=None, tup=False, cnt=None):
        self.items, self.n, self.arr, self.el, self.tup = items, n, arr, el, tup
        self.cnt = cnt or {}
        self.pyt = "tuple" if tup else "set" if tup is BAG else "list"

    def snap(self):
        return (tuple(self.items) if self.items is not None else None, self.n, self.arr, self.el, tuple(sorted(self.cnt.items(), key=lambda x: x[0])))

    def restore(self, s):
        self.items = list(s[0]) if s[0] is not None else None
        self.n, self.arr, self.el, self.cnt = s[1], s[2], s[3], dict(s[4])


class DictObj(Obj):
    """items: concrete dict, or None when symbolic (dom, val, el).  keys: ghost key list for iteration."""

    def __init__(self, items=None, dom=None, val=None, el=None, cls=None, default=None):
        self.items, self.dom, self.val, self.el, self.cls, self.default = items, dom, val, el, cls, default
        self.pyt = "dict"
        self.keyorder = None

    def snap(self):
        return (tuple(self.items.items()) if self.items is not None else None, self.dom, self.val, self.el)

    def restore(self, s):
        self.items = dict(s[0]) if s[0] is not None else None
        self.dom, self.val, self.el = s[1:]


class SetObj(Obj):
    def __init__(self, items=None, mem=None, el=None):
        self.items, self.mem, self.el = items, mem, el
        self.pyt = "set"

    def snap(self):
        return (tuple(self.items) if self.items is not None else None, self.mem, self.el)

    def restore(self, s):
        self.items = list(s[0]) if s[0] is not None else None
        self.mem, self.el = s[1:]


class InstObj(Obj):
    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, attrs if attrs is not None else {}

    def snap(self):
        return tuple(sorted(self.attrs.items(), key=lambda x: x[0]))

    def restore(self, s):
        self.attrs = dict(s)

    def __repr__(self):
        return f"<inst {self.cls.name}#{self.oid}>"


class ArrObj(Obj):
    """A flat buffer (memoryview-like): len n, arr Int->sort."""

    def __init__(self, n, arr, el):
        self.n, self.arr, self.el = n, arr, el
        self.pyt = "buffer"

    def snap(self):
        return (self.n, self.arr)

    def restore(self, s):
        self.n, self.arr = s


class Slice:
    def __init__(self, lo, hi, step=None):
        self.lo, self.hi, self.step = lo, hi, step


class Func:
    def __init__(self, node, mod, name, cls=None, closure=None, defaults=None, kwdefaults=None, kind="func"):
        self.node, self.mod, self.name, self.cls, self.closure = node, mod, name, cls, closure
        self.defaults, self.kwdefaults, self.kind = defaults, kwdefaults, kind

    def __repr__(self):
        return f"<func {self.qual}>"

    @property
    def qual(self):
        m = self.mod.name if self.mod else "?"
        return f"{m}:{self.cls.name + '.' if self.cls is not None else ''}{self.name}"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Cls:
    def __init__(self, name, mod, node, bases, closure=None):
        self.name, self.mod, self.node, self.bases, self.closure = name, mod, node, bases, closure
        self.attrs = {}
        self.builtin = None  # name of a builtin base: dict, Exception, ...

    def __repr__(self):
        return f"<class {self.name}>"

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out


class PyType:
    """A builtin or external type known by name only."""

    def __init__(self, name, call=None):
        self.name, self.call = name, call

    def __repr__(self):
        return f"<type {self.name}>"

    def __eq__(self, o):
        return isinstance(o, PyType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class Module:
    def __init__(self, name, tree):
        self.name, self.tree = name, tree
        self.env = {}


class ExtModule:
    def __init__(self, name, attrs=None):
        self.name, self.attrs = name, attrs or {}


class Ignore:
    """Absorbs everything (loggers)."""


class Coroutine:
    def __init__(self, thunk):
        self.thunk = thunk


class Gen:
    """A lazily evaluated generator: only materialized or iterated once."""

    def __init__(self, lst):
        self.lst = lst


class Native:
    """Base for model objects written in Python by contracts: attributes via method `a_<name>` or get()."""

    def getattr(self, it, name):
        m = getattr(self, "m_" + name, None)
        if m is not None:
            return Builtin(name, lambda it_, args, kw: m(it_, *args, **kw))
        d = self.__dict__.get("f_" + name, KeyError)
        if d is not KeyError:
            return d
        raise Unsupported(f"attribute {name} of {type(self).__name__}")

    def setattr(self, it, name, v):
        if "f_" + name in self.__dict__:
            self.__dict__["f_" + name] = v
            return
        raise Unsupported(f"setattr {name} of {type(self).__name__}")
