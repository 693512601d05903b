"""Helpers shared by the contracts."""
import z3

from pyvc.containers import *
from pyvc.containers import ESet, cnt_of, enc, mkview, pcnt, sym_dict, symlist, to_sym
from pyvc.engine import *
from pyvc.interp import *
from pyvc.interp import HK, Frame, _Star
from pyvc.loops import *
from pyvc.values import *

MPI = "unidist.core.backends.mpi.core."


class Unit:
    def __init__(self, name, fn, kind="sym", **opts):
        self.name, self.fn, self.kind, self.opts = name, fn, kind, opts


def unit(units, name, **opts):
    def deco(f):
        units.append(Unit(name, f, **opts))
        return f

    return deco


def glob(it, mod, name):
    m = it.module(mod)
    if m is None:
        raise Unsupported(f"module {mod} is gone")
    try:
        return it.get_global(m, name)
    except PyRaise:
        raise Unsupported(f"{mod}.{name} is gone")


def new(it, cls):
    """an instance whose constructor was not run"""
    return it.alloc(cls)


def meth(it, o, name):
    try:
        return it.getattr(o, name)
    except PyRaise:
        raise Unsupported(f"method {name} is gone")


def call_catch(it, f, args=(), kwargs=None):
    """('ret', value) or ('exc', exception value)"""
    try:
        return "ret", it.call(f, list(args), kwargs or {})
    except PyRaise as e:
        it.p.trace.append(f"raises {exc_name(e.value)} {getattr(e.value, 'attrs', {}).get('args') and e.value.attrs['args'].items}")
        return "exc", e.value


def locals_int(s):
    """the integer variables at a loop head"""
    return [(n, v) for n, (d, k) in s.head.vars.items() for v in [d.get(k)] if isinstance(v, Sym) and v.k == "int" or isinstance(v, int) and not isinstance(v, bool)]


def exc_name(v):
    if isinstance(v, InstObj):
        return v.cls.name
    return "?"


def boolt(v):
    return z3.BoolVal(v) if isinstance(v, bool) else (v.t if isinstance(v, Sym) else v)


def intt(v):
    return zt(zi(v))


def forall(names, body, sorts=None):
    vs = [z3.Const(n, (sorts or {}).get(n, IntS)) for n in names]
    return z3.ForAll(vs, body(*vs))


def lst_all(it, l, f):
    """for all elements of a list: f(index term, element term)"""
    if l.items is not None:
        return z3.And(z3.BoolVal(True), *[f(z3.IntVal(i), x) for i, x in enumerate(l.items)])
    j = z3.Int("j!la")
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zt(l.n)), f(j, dec(it, l.el, l.arr[j]))))


def same_value(it, a, b):
    """the two values are the same object or equal sequences"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, ListObj) and isinstance(b, ListObj):
        if a.items is not None and b.items is not None:
            return z3.And(z3.BoolVal(len(a.items) == len(b.items)), *[same_value(it, x, y) for x, y in zip(a.items, b.items)])
        n, m = zt(length(it, a)), zt(length(it, b))
        j = z3.Int("j!sv")
        el = a.el or b.el
        sa = a if a.items is None else to_sym(it, ListObj(items=list(a.items)), el)
        sb = b if b.items is None else to_sym(it, ListObj(items=list(b.items)), el)
        if sa.arr.sort() != sb.arr.sort():
            return z3.BoolVal(False)
        return z3.And(n == m, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), sa.arr[j] == sb.arr[j])))
    if isinstance(a, (Sym, int, bool, str, type(None))) and isinstance(b, (Sym, int, bool, str, type(None))):
        try:
            return boolt(it.equal(a, b))
        except Unsupported:
            return z3.BoolVal(False)
    return z3.BoolVal(False)


class Cfg(Native):
    """a configuration class: get() gives a fixed value"""

    def __init__(self, v):
        self.v = v

    def m_get(self, it):
        return self.v


class Single(Native):
    """a class whose get_instance() gives a fixed object"""

    def __init__(self, st):
        self.st = st

    def m_get_instance(self, it):
        return self.st


def view(it, l, el):
    """(array term, length term) of a list, whether its items are known or not"""
    if l.items is None:
        if l.arr.sort() != z3.ArraySort(IntS, el.sort):
            return None, zt(l.n)
        return l.arr, zt(l.n)
    if not l.items:
        return z3.K(IntS, z3.Const("no_item", el.sort)), z3.IntVal(0)
    try:
        return to_sym(it, ListObj(items=list(l.items)), el).arr, z3.IntVal(len(l.items))
    except Unsupported:
        return None, z3.IntVal(len(l.items))


def local_lists(s):
    return [(nm, v) for nm, (d, k) in s.head.vars.items() for v in [d.get(k)] if isinstance(v, ListObj)]


def blame(p, it, exc, e):
    """The contract holds for an arbitrary element e; an execution that raises for a key is one in which e is that
    key, so it suffices to show that this is impossible."""
    a = exc.attrs.get("args")
    if isinstance(a, ListObj) and a.items and isinstance(a.items[0], Sym) and a.items[0].k == "u":
        p.assume(a.items[0].t == e.t)


def star_form(it, a, k, start=0):
    """The arguments of a call with those from `start` on as one sequence and the keywords of ** as one mapping."""
    from pyvc.interp import _Star

    a, k = list(a), dict(k)
    rest = a[start:]
    if not (len(rest) == 1 and isinstance(rest[0], _Star)):
        l = it.mklist([])
        for x in rest:
            l = it.list_concat(l, it.T_list(x.v) if isinstance(x, _Star) else it.mklist([x]))
        rest = [_Star(l)]
    d = k.get("**")
    named = {x: k.pop(x) for x in list(k) if not isinstance(x, str)}
    if d is None:
        d = it.mkdict(named)
    elif named:
        raise Unsupported("keywords in another form")
    if isinstance(d, DictObj) and d.items is not None:
        d = dict_to_sym(it, it.mkdict(dict(d.items)), EU(None), U)
    k["**"] = d
    return a[:start] + rest, k
