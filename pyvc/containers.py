"""Lists, dicts, sets and flat buffers: concrete while possible, arrays of the solver otherwise."""
import ast

import z3

from .engine import *
from .interp import *
from .interp import HK, _IterV, _Range
from .values import *

_PC = {}


def pcnt(arr, e, k):
    """occurrences of e among arr[0..k)"""
    s = e.sort()
    if s not in _PC:
        _PC[s] = z3.Function("pcnt_" + s.name(), z3.ArraySort(IntS, s), s, IntS, IntS)
    return _PC[s](arr, e, zt(k))


PSUM = z3.Function("psum", z3.ArraySort(IntS, IntS), IntS, IntS)


def lam(f, sort=IntS):
    j = z3.Int("j!lam")
    return z3.Lambda([j], f(j))


def eq_term(it, a, b):
    r = it.equal(a, b)
    return z3.BoolVal(r) if isinstance(r, bool) else r.t


def elem_of(it, vals):
    """element kind that can hold all the values"""
    if vals and all(isinstance(v, PairView) for v in vals):
        return EPair
    ks = set()
    for v in vals:
        if isinstance(v, bool) or (isinstance(v, Sym) and v.k == "bool"):
            ks.add("bool")
        elif isinstance(v, int) or (isinstance(v, Sym) and v.k == "int"):
            ks.add("int")
        elif isinstance(v, Sym) and v.k == "u":
            ks.add(("u", v.ty))
        elif isinstance(v, (str, bytes)):
            ks.add(("u", "str"))
        else:
            ks.add(("u", None))
    if ks == {"int"}:
        return EInt
    if ks == {"bool"}:
        return EBool
    if len(ks) == 1 and ks:
        return EU(next(iter(ks))[1])
    return EU(None)


def enc(it, el, v):
    if el.sort == IntS:
        if isinstance(v, Sym) and v.k == "u" or not it.is_num(v):
            raise Unsupported(f"int element expected, got {v!r}")
        return zt(zi(v))
    if el.sort == BoolS:
        return zb(v)
    if el.sort == U:
        return it.box(v)
    if hasattr(el, "enc"):
        return el.enc(it, v)
    raise Unsupported("element sort")


def dec(it, el, t):
    if el.sort == U:
        return it.unbox_term(t, el.ty)
    if el.sort == IntS:
        return mkint(t)
    if el.sort == BoolS:
        return mkbool(t)
    if el is EPair:
        return it.mklist([mkint(PairS.fst(t)), mkint(PairS.snd(t))])  # read only: not the element itself
    return el.wrap(t)


def fits(it, el, v):
    if el.sort == IntS:
        return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, Sym) and v.k == "int"
    if el.sort == BoolS:
        return isinstance(v, bool) or isinstance(v, Sym) and v.k == "bool"
    return True


def tracked(it, sort):
    return [(n, it.p.tracked_terms[n]) for n in it.p.tracked if it.p.tracked_terms[n].sort() == sort]


def cnt_of(it, l, name):
    e = it.p.tracked_terms[name]
    if l.items is not None:
        t = z3.IntVal(0)
        for x in l.items:
            if e.sort() == U:
                try:
                    x = it.box(x)
                except Unsupported:
                    continue
            elif it.is_num(x):
                x = zt(zi(x))
            else:
                continue
            t = t + z3.If(x == e, z3.IntVal(1), z3.IntVal(0))
        return z3.simplify(t)
    if l.el.sort != e.sort():
        if e.sort() == IntS and l.el.sort == U:
            raise Unsupported("int occurrences in a mixed list")
        return z3.IntVal(0)
    if name not in l.cnt:
        l.cnt[name] = it.p.fresh(f"cnt_{name}", IntS)
        cnt_fact1(it, l, name)
    return l.cnt[name]


def cnt_fact1(it, l, name):
    e = it.p.tracked_terms[name]
    c, n = l.cnt[name], zt(l.n)
    j = z3.Int("j!c")
    it.p.assume(z3.And(c >= 0, c <= n))
    bound = it.p.eng.opts.get("unroll")
    if bound:
        # bounded lists: the number of occurrences is exact
        m = 2 * bound + 2
        it.p.assume(n <= m)
        it.p.assume(c == z3.Sum([z3.If(z3.And(i < n, l.arr[i] == e), z3.IntVal(1), z3.IntVal(0)) for i in range(m)]))
        return
    it.p.assume(c == pcnt(l.arr, e, n))
    it.p.assume(pcnt(l.arr, e, 0) == 0)
    it.p.assume(z3.Implies(c == 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), l.arr[j] != e))))
    w = it.p.fresh("cntw", IntS)
    it.p.assume(z3.Implies(c > 0, z3.And(0 <= w, w < n, l.arr[w] == e)))


def cnt_facts(it, l):
    for name, e in tracked(it, l.el.sort):
        if name not in l.cnt:
            l.cnt[name] = it.p.fresh(f"cnt_{name}", IntS)
        cnt_fact1(it, l, name)


def symlist(it, name, el, tup=False, n=None):
    """a fresh symbolic list"""
    n = n if n is not None else it.p.fresh(name + "_n", IntS)
    l = it.p.reg(ListObj(n=n, arr=it.p.fresh(name, z3.ArraySort(IntS, el.sort)), el=el, tup=tup))
    it.p.assume(n >= 0)
    if it.p.eng.opts.get("unroll"):
        it.p.assume(n <= it.p.eng.opts["unroll"])
    return l


def to_sym(it, l, el=None):
    """switch a concrete list to the symbolic representation"""
    if l.items is None:
        if el is not None and el.name != l.el.name and el.sort == U and l.el.sort != U:
            a, old = l.arr, l.el
            boxf = BOX_I if old.sort == IntS else BOX_B
            l.arr = lam(lambda j: boxf(a[j]))
            l.el = el
            l.cnt = {}
        elif el is not None and el.sort == U and l.el.sort == U and el.ty != l.el.ty:
            l.el = EU(None)
        return l
    el = el or elem_of(it, l.items)
    for n in it.p.tracked:
        if it.p.tracked_terms[n].sort() == el.sort:
            l.cnt[n] = cnt_of(it, l, n)
    arr = it.p.fresh("lst", z3.ArraySort(IntS, el.sort))
    for i, x in enumerate(l.items):
        arr = z3.Store(arr, i, enc(it, el, x))
    l.n, l.arr, l.el, l.items = z3.IntVal(len(l.items)), arr, el, None
    return l


def wr(it, o):
    """a write to o"""
    if it.p.noeffect and o.oid is not None and o.oid < it.p.noeffect_base:
        raise NotPure()


# ---------------------------------------------------------------------------- length / index
def length(it, v):
    if isinstance(v, (str, bytes)):
        return len(v)
    if isinstance(v, ListObj):
        return len(v.items) if v.items is not None else simp(v.n)
    if isinstance(v, ArrObj):
        return simp(v.n)
    if isinstance(v, DictObj):
        if v.items is not None:
            return len(v.items)
        return length(it, it.dict_keys(v))
    if isinstance(v, SetObj):
        if v.items is not None:
            return len(v.items)
        return length(it, it.set_order(v))
    if isinstance(v, Sym) and v.k == "u":
        it.p.assume(LEN(v.t) >= 0)
        return LEN(v.t)
    if isinstance(v, Native) and hasattr(v, "len"):
        return v.len(it)
    if isinstance(v, _Range):
        return it.iter(v).n()
    if isinstance(v, InstObj) and isinstance(v.cls, Cls):
        m = it.class_lookup(v.cls, "__len__")
        if m is not None:
            r = it.call(it.bind_method(m, v, v.cls), [])
            return r if isinstance(r, int) else zi(r)
    if v is None or isinstance(v, (int, float)) or isinstance(v, Sym):
        raise PyRaise(it.mkexc("TypeError", "no len"))
    raise Unsupported(f"len of {v!r}")


def norm_index(it, i, n, exc="IndexError"):
    """index value -> term in [0,n), raising IndexError on the other branch"""
    i = zi(i)
    if isinstance(i, int) and isinstance(n, int):
        j = i + n if i < 0 else i
        if not 0 <= j < n:
            raise PyRaise(it.mkexc(exc))
        return j
    if isinstance(i, int):
        t = zt(n) + i if i < 0 else z3.IntVal(i)
    else:
        t = i if not it.p.branch(i < 0) else i + zt(n)
    if not it.p.branch(z3.And(t >= 0, t < zt(n))):
        raise PyRaise(it.mkexc(exc))
    return simp(t)


def list_at(it, v, k):
    """element k, known to be in range"""
    k = zi(k)
    if v.items is None and v.el.name == "pair":
        return it.p.reg(PairView(v, k))
    if v.items is not None:
        if isinstance(k, int):
            return v.items[k]
        for j in range(len(v.items) - 1):
            if it.p.branch(k == j):
                return v.items[j]
        return v.items[-1]
    return dec(it, v.el, sel(v.arr, k))


def clamp(it, b, n, dflt):
    if b is None:
        return dflt
    b = zi(b)
    if isinstance(b, int) and isinstance(n, int):
        return max(0, min(n, b + n if b < 0 else b))
    b, n = zt(b), zt(n)
    if it.p.branch(b < 0):
        b = b + n
        if it.p.branch(b < 0):
            return 0
    if it.p.branch(b > n):
        return simp(n)
    return simp(b)


def getitem(it, o, i):
    if isinstance(o, ListObj):
        n = length(it, o)
        if isinstance(i, Slice):
            if i.step is not None and i.step != 1:
                if i.step == -1 and i.lo is None and i.hi is None and isinstance(n, int) and o.items is not None:
                    return it.p.reg(ListObj(items=o.items[::-1], tup=o.tup))
                raise Unsupported("slice step")
            lo = clamp(it, i.lo, n, 0)
            hi = clamp(it, i.hi, n, n)
            if o.items is not None and isinstance(lo, int) and isinstance(hi, int):
                return it.p.reg(ListObj(items=o.items[lo:hi], tup=o.tup))
            to = o
            if o.items is not None:
                to = to_sym(it, ListObj(items=list(o.items), tup=o.tup))
            lo, hi = zt(lo), zt(hi)
            if it.p.branch(hi <= lo):
                return it.p.reg(ListObj(items=[], tup=o.tup))
            a = to.arr
            l = it.p.reg(ListObj(n=simp_t(hi - lo), arr=z3.Lambda([z3.Int("j!lam")], a[z3.Int("j!lam")]) if False else a if z3.is_int_value(lo) and lo.as_long() == 0 else lam(lambda j: a[j + lo]), el=to.el, tup=o.tup))
            for name, e in tracked(it, to.el.sort):
                cnt_of(it, to, name)
                l.cnt[name] = pcnt(a, e, hi) - pcnt(a, e, lo)
                pcnt_mono(it, a, e, lo, hi, zt(to.n))
            cnt_facts(it, l)
            l.group = getattr(to, "group", None)
            return l
        return list_at(it, o, norm_index(it, i, n))
    if isinstance(o, DictObj):
        return dict_get(it, o, i)
    if isinstance(o, ArrObj):
        if isinstance(i, Slice):
            lo, hi = clamp(it, i.lo, o.n, 0), clamp(it, i.hi, o.n, o.n)
            lo, hi = zt(lo), zt(hi)
            if it.p.branch(hi <= lo):
                hi = lo
            return mkview(it, o, lo, hi - lo)
        return dec(it, o.el, sel(o.arr, norm_index(it, i, simp(o.n))))
    if isinstance(o, (str, bytes)):
        if isinstance(i, Slice) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
            return o[i.lo:i.hi:i.step]
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise PyRaise(it.mkexc("IndexError"))
    if isinstance(o, Native) and hasattr(o, "getitem"):
        return o.getitem(it, i)
    if isinstance(o, InstObj) and isinstance(o.cls, Cls):
        m = it.class_lookup(o.cls, "__getitem__")
        if m is not None:
            return it.call(it.bind_method(m, o, o.cls), [i])
    if isinstance(o, Sym) and o.k == "u":
        if isinstance(i, int):
            return it.opaque_item(o, i)
        if isinstance(i, (Sym, str)):
            return it.unbox_term(z3.Function("item_at", U, U, U)(o.t, it.box(i)))
    raise Unsupported(f"subscript of {o!r}")


def simp_t(t):
    return zt(simp(t))


def pcnt_mono(it, a, e, lo, hi, n):
    p = it.p
    j = z3.Int("j!m")
    p.assume(z3.And(pcnt(a, e, lo) >= 0, pcnt(a, e, hi) >= pcnt(a, e, lo), pcnt(a, e, n) >= pcnt(a, e, hi), pcnt(a, e, hi) - pcnt(a, e, lo) <= hi - lo))


class ArrView(ArrObj):
    """a window of a flat buffer: reads and writes go to the underlying object"""

    def __init__(self, base, off, n):
        self.base, self.off, self.n_, self.el = base, off, n, base.el
        self.pyt = "buffer"

    @property
    def n(self):
        return self.n_

    @property
    def arr(self):
        b, off = self.base.arr, self.off
        return lam(lambda j: b[j + off])

    def snap(self):
        return ()

    def restore(self, s):
        pass


def mkview(it, o, off, n):
    if isinstance(o, ArrView):
        off = o.off + off
        o = o.base
    return it.p.reg(ArrView(o, z3.simplify(zt(off)), z3.simplify(zt(n))))


def arr_write(it, o, lo, n, f):
    """o[lo+j] = f(j) for 0 <= j < n"""
    if isinstance(o, ArrView):
        lo = lo + o.off
        o = o.base
    wr(it, o)
    a = o.arr
    lo, n = zt(lo), zt(n)
    o.arr = lam(lambda j: z3.If(z3.And(j >= lo, j < lo + n), f(j - lo), a[j]))
    return o, lo, n


def setitem(it, o, i, v):
    if isinstance(o, ListObj):
        if o.tup:
            raise PyRaise(it.mkexc("TypeError"))
        if isinstance(i, Slice):
            if i.lo is None and i.hi is None and i.step in (None, 1) and not isinstance(o, PairView):
                src = copy_seq(it, v, False)
                wr(it, o)
                o.items, o.n, o.arr, o.el, o.cnt = src.items, src.n, src.arr, src.el, dict(src.cnt)
                o.distinct, o.group = getattr(src, "distinct", False), getattr(src, "group", None)
                return
            if i.step in (None, 1) and not isinstance(o, PairView) and not getattr(o, "distinct", False) and o.el is not EPair:
                n = length(it, o)
                lo, hi = clamp(it, i.lo, n, 0), clamp(it, i.hi, n, n)
                if not (isinstance(lo, int) and isinstance(hi, int)):
                    if it.p.branch(zt(hi) < zt(lo)):
                        hi = lo
                elif hi < lo:
                    hi = lo
                src = concat(it, concat(it, getitem(it, o, Slice(0, lo, None)), copy_seq(it, v, False)), getitem(it, o, Slice(hi, n, None)))
                return setitem(it, o, Slice(None, None, None), src)
            raise Unsupported("slice assignment on a list")
        n = length(it, o)
        k = norm_index(it, i, n)
        wr(it, o)
        if isinstance(o, PairView):
            if not isinstance(k, int):
                raise Unsupported("symbolic index in a pair")
            return o.store(it, k, v)
        if o.items is not None and isinstance(k, int):
            o.items[k] = v
            return
        if o.items is not None:
            to_sym(it, o, elem_of(it, o.items + [v]))
        elif not fits(it, o.el, v):
            to_sym(it, o, EU(None))
        t = enc(it, o.el, v)
        for name, e in tracked(it, o.el.sort):
            c = cnt_of(it, o, name)
            o.cnt[name] = c - z3.If(o.arr[zt(k)] == e, z3.IntVal(1), z3.IntVal(0)) + z3.If(t == e, z3.IntVal(1), z3.IntVal(0))
        o.arr = z3.Store(o.arr, zt(k), t)
        cnt_facts(it, o)
        return
    if isinstance(o, DictObj):
        if isinstance(o.cls, Cls) and it.class_lookup(o.cls, "__setitem__") is not None:
            return it.call(it.bind_method(it.class_lookup(o.cls, "__setitem__"), o, o.cls), [i, v])
        return dict_set(it, o, i, v)
    if isinstance(o, ArrObj):
        if isinstance(i, Slice):
            lo, hi = clamp(it, i.lo, o.n, 0), clamp(it, i.hi, o.n, o.n)
            lo, hi = zt(lo), zt(hi)
            m = hi - lo
            src = v
            sn = zt(length(it, src))
            if not it.p.branch(sn == z3.If(m > 0, m, z3.IntVal(0))):
                raise PyRaise(it.mkexc("ValueError", "sizes differ"))
            if isinstance(src, ListObj):
                s = src if src.items is None else to_sym(it, ListObj(items=list(src.items)))
                sa = s.arr
            elif isinstance(src, ArrObj):
                sa = src.arr
            else:
                raise Unsupported("slice assignment source")
            arr_write(it, o, lo, m, lambda j: sa[j])
            return
        k = norm_index(it, i, simp(o.n))
        t = enc(it, o.el, v)
        if isinstance(o, ArrView):
            o.base.arr = z3.Store(o.base.arr, o.off + zt(k), t)
        else:
            wr(it, o)
            o.arr = z3.Store(o.arr, zt(k), t)
        return
    if isinstance(o, Native) and hasattr(o, "setitem"):
        return o.setitem(it, i, v)
    raise Unsupported(f"item assignment on {o!r}")


def delitem(it, o, i):
    if isinstance(o, DictObj):
        if isinstance(o.cls, Cls) and it.class_lookup(o.cls, "__delitem__") is not None:
            it.call(it.bind_method(it.class_lookup(o.cls, "__delitem__"), o, o.cls), [i])
            return
        dict_pop(it, o, i)
        return
    if isinstance(o, ListObj):
        if isinstance(i, Slice):
            return setitem(it, o, i, ListObj(items=[]))
        list_pop(it, o, i)
        return
    if isinstance(o, Native) and hasattr(o, "delitem"):
        return o.delitem(it, i)
    raise Unsupported("del item")


def contains(it, o, x):
    if isinstance(o, (_Range, _IterV)) or isinstance(o, Gen):
        if isinstance(o, _Range) and it.is_num(x) and o.st == 1:
            return mkbool(z3.And(zt(zi(o.lo)) <= zt(zi(x)), zt(zi(x)) < zt(zi(o.hi))))
        o = it.to_list(o)
    if isinstance(o, ListObj):
        if o.items is not None:
            ts = []
            for y in o.items:
                r = it.equal(x, y)
                if r is True:
                    return True
                if r is not False:
                    ts.append(r.t)
            return mkbool(z3.Or(*ts)) if ts else False
        try:
            xt = enc(it, o.el, x)
        except Unsupported:
            if o.el.sort == IntS and not it.is_num(x) and not isinstance(x, Sym):
                return False
            raise
        n = zt(o.n)
        b = it.p.fresh("inlist", BoolS)
        w = it.p.fresh("inlist_w", IntS)
        j = z3.Int("j!in")
        it.p.assume(z3.Implies(b, z3.And(0 <= w, w < n, o.arr[w] == xt)))
        it.p.assume(z3.Implies(z3.Not(b), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), o.arr[j] != xt))))
        for name, e in tracked(it, o.el.sort):
            c = cnt_of(it, o, name)
            it.p.assume(z3.Implies(xt == e, b == (c > 0)))
        return Sym(b, "bool")
    if isinstance(o, DictObj):
        if o.items is not None:
            return find_key(it, o, x) is not None
        return mkbool(z3.Select(o.dom, key_term(it, o, x)))
    if isinstance(o, SetObj):
        if o.items is not None:
            ts = []
            for y in o.items:
                r = it.equal(x, y)
                if r is True:
                    return True
                if r is not False:
                    ts.append(r.t)
            return mkbool(z3.Or(*ts)) if ts else False
        return mkbool(z3.Select(o.mem, enc(it, o.el, x)))
    if isinstance(o, (str, bytes)):
        if isinstance(x, (str, bytes)):
            return x in o
        return it.opaque_fn("str_in", [o, x], sort=BoolS)
    if isinstance(o, Sym) and o.k == "u":
        return it.opaque_fn("in_", [o, x], sort=BoolS)
    if isinstance(o, Native) and hasattr(o, "contains"):
        return o.contains(it, x)
    if isinstance(o, InstObj) and isinstance(o.cls, Cls):
        m = it.class_lookup(o.cls, "__contains__")
        if m is not None:
            return it.T_bool(it.call(it.bind_method(m, o, o.cls), [x]))
    raise Unsupported(f"in {o!r}")


# ---------------------------------------------------------------------------- lists
def append(it, l, x):
    wr(it, l)
    if l.items is not None:
        l.items.append(x)
        return
    if not fits(it, l.el, x):
        to_sym(it, l, EU(None))
    t = enc(it, l.el, x)
    n = zt(l.n)
    new = z3.Store(l.arr, n, t)
    for name, e in tracked(it, l.el.sort):
        c = cnt_of(it, l, name)
        l.cnt[name] = c + z3.If(t == e, z3.IntVal(1), z3.IntVal(0))
    l.arr = new
    l.n = simp_t(n + 1)
    cnt_facts(it, l)


def extend(it, l, src):
    wr(it, l)
    i = it.iter(src)
    n = i.n()
    if isinstance(n, int):
        vals = [i.get(j) for j in range(n)]
        for x in vals:
            append(it, l, x)
        return
    s = as_list(it, src)
    c = concat(it, l, s)
    l.items, l.n, l.arr, l.el, l.cnt = c.items, c.n, c.arr, c.el, c.cnt


def as_list(it, src):
    if isinstance(src, ListObj):
        return src
    return copy_seq(it, src)


def concat(it, a, b):
    if a.items is not None and b.items is not None:
        return it.p.reg(ListObj(items=a.items + b.items, tup=a.tup))
    if isinstance(a, PairView) or isinstance(b, PairView):
        raise Unsupported("concatenation of pairs")
    if EPair in (a.el, b.el) and a.items != [] and b.items != []:
        xa, xn = pair_arr(it, a)
        ya, yn = pair_arr(it, b)
        r = it.p.reg(ListObj(n=simp_t(xn + yn), arr=lam(lambda j: z3.If(j < xn, xa[j], ya[j - xn])), el=EPair))
        r.group = getattr(a, "group", None) if getattr(a, "group", None) is not None else getattr(b, "group", None)
        return r
    if a.items == []:
        return copy_seq(it, b, a.tup)
    if b.items == []:
        return copy_seq(it, a, a.tup)
    x = to_sym(it, ListObj(items=list(a.items))) if a.items is not None else ListObj(n=a.n, arr=a.arr, el=a.el, cnt=dict(a.cnt))
    y = to_sym(it, ListObj(items=list(b.items))) if b.items is not None else ListObj(n=b.n, arr=b.arr, el=b.el, cnt=dict(b.cnt))
    if x.el.sort != y.el.sort:
        to_sym(it, x, EU(None))
        to_sym(it, y, EU(None))
    el = x.el if x.el.name == y.el.name else EU(None)
    xa, ya, xn, yn = x.arr, y.arr, zt(x.n), zt(y.n)
    r = it.p.reg(ListObj(n=simp_t(xn + yn), arr=lam(lambda j: z3.If(j < xn, xa[j], ya[j - xn])), el=el, tup=a.tup))
    for name, e in tracked(it, el.sort):
        r.cnt[name] = cnt_of(it, x, name) + cnt_of(it, y, name)
    cnt_facts(it, r)
    return r


def pair_arr(it, l):
    if l.items is None:
        return l.arr, zt(l.n)
    arr = it.p.fresh("pairs", z3.ArraySort(IntS, PairS))
    for i, x in enumerate(l.items):
        arr = z3.Store(arr, i, enc(it, EPair, x))
    return arr, z3.IntVal(len(l.items))


def repeat(it, a, n):
    if isinstance(n, int) and a.items is not None:
        return it.p.reg(ListObj(items=a.items * n, tup=a.tup))
    if a.items is not None and len(a.items) == 1:
        el = elem_of(it, a.items)
        t = enc(it, el, a.items[0])
        k = zt(zi(n))
        if it.p.branch(k <= 0):
            return it.p.reg(ListObj(items=[], tup=a.tup))
        r = it.p.reg(ListObj(n=k, arr=z3.K(IntS, t), el=el, tup=a.tup))
        for name, e in tracked(it, el.sort):
            r.cnt[name] = z3.If(t == e, k, z3.IntVal(0))
        cnt_facts(it, r)
        return r
    raise Unsupported("list repetition")


def copy_seq(it, x, tup=False):
    if isinstance(x, ListObj):
        l = it.p.reg(ListObj(items=list(x.items) if x.items is not None else None, n=x.n, arr=x.arr, el=x.el, tup=tup, cnt=dict(x.cnt)))
        if getattr(x, "distinct", False):
            l.distinct = True
        l.group = getattr(x, "group", None)
        return l
    if isinstance(x, Gen):
        return copy_seq(it, x.lst, tup)
    if isinstance(x, (DictObj, SetObj)) and x.items is None:
        l = it.dict_keys(x) if isinstance(x, DictObj) else it.set_order(x)
        if tup:
            l.tup, l.pyt = True, "tuple"
        return l
    i = it.iter(x)
    n = i.n()
    if isinstance(n, int):
        return it.p.reg(ListObj(items=[i.get(j) for j in range(n)], tup=tup))
    if isinstance(i.src, ListObj) and not isinstance(x, _IterV):
        return copy_seq(it, i.src, tup)
    from . import loops

    r = loops.pure_map(it, i, lambda k: i.get(k))
    if r is None:
        raise Unsupported("list() of an impure sequence")
    if tup:
        r.tup, r.pyt = True, "tuple"
    return r


def list_pop(it, l, i=None):
    wr(it, l)
    n = length(it, l)
    if l.items is not None:
        k = norm_index(it, -1 if i is None else i, n)
        if isinstance(k, int):
            return l.items.pop(k)
        to_sym(it, l)
    k = zt(norm_index(it, -1 if i is None else i, n))
    a = l.arr
    t = z3.simplify(a[k])
    v = it.mklist([mkint(PairS.fst(t)), mkint(PairS.snd(t))]) if l.el is EPair else dec(it, l.el, t)
    for name, e in tracked(it, l.el.sort):
        c = cnt_of(it, l, name)
        l.cnt[name] = c - z3.If(t == e, z3.IntVal(1), z3.IntVal(0))
    if i is not None and not (isinstance(i, int) and i == -1):
        l.arr = lam(lambda j: z3.If(j < k, a[j], a[j + 1]))
    l.n = simp_t(zt(l.n) - 1)
    cnt_facts(it, l)
    return v


def list_index(it, l, x):
    if l.items is not None:
        for j, y in enumerate(l.items):
            if it.truth(it.equal(x, y)):
                return j
        raise PyRaise(it.mkexc("ValueError"))
    if not it.truth(contains(it, l, x)):
        raise PyRaise(it.mkexc("ValueError"))
    xt = enc(it, l.el, x)
    w = it.p.fresh("idx", IntS)
    j = z3.Int("j!ix")
    it.p.assume(z3.And(0 <= w, w < zt(l.n), l.arr[w] == xt))
    it.p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w), l.arr[j] != xt)))
    return Sym(w, "int")


def m_bag(it, l, name, a, k):
    """a set whose elements are listed; what is added has to be disjoint (an obligation of the caller's contract)"""
    if name == "update":
        for x in a:
            if not (isinstance(x, ListObj) and x.tup is BAG):
                raise Unsupported("update of a set by other elements")
            extend(it, l, x)
        return None
    if name in ("copy", "union"):
        r = it.T_list(l)
        r.tup, r.pyt = BAG, "set"
        if name == "union":
            m_bag(it, r, "update", a, k)
        return r
    if name == "pop" and not a:
        if length(it, l) == 0:
            raise PyRaise(it.mkexc("KeyError"))
        return list_pop(it, l)
    raise Unsupported(f"set.{name}")


def m_list(it, l, name, a, k):
    if l.tup is BAG:
        return m_bag(it, l, name, a, k)
    if name == "append":
        append(it, l, a[0])
    elif name == "extend":
        extend(it, l, a[0])
    elif name == "pop":
        if length(it, l) == 0:
            raise PyRaise(it.mkexc("IndexError"))
        return list_pop(it, l, *a)
    elif name == "remove":
        ix = list_index(it, l, a[0])
        list_pop(it, l, ix)
    elif name == "index":
        return list_index(it, l, a[0])
    elif name == "clear":
        wr(it, l)
        l.items, l.n, l.arr, l.el, l.cnt = [], None, None, None, {}
    elif name == "copy":
        return copy_seq(it, l, l.tup)
    elif name == "insert":
        wr(it, l)
        if l.items is not None and isinstance(a[0], int):
            l.items.insert(a[0], a[1])
            return None
        if not (isinstance(a[0], int) and a[0] == 0):
            if l.el is not EPair:
                setitem(it, l, Slice(a[0], a[0], None), it.mklist([a[1]]))
                return None
            n = length(it, l)
            ix = clamp(it, a[0], n, 0)
            c = concat(it, concat(it, getitem(it, l, Slice(0, ix, None)), it.mklist([a[1]])), getitem(it, l, Slice(ix, n, None)))
            l.items, l.n, l.arr, l.el, l.cnt = c.items, c.n, c.arr, c.el, c.cnt
            return None
        c = concat(it, it.mklist([a[1]]), l)
        l.items, l.n, l.arr, l.el, l.cnt = c.items, c.n, c.arr, c.el, c.cnt
    elif name == "count":
        x = a[0]
        if l.items is not None:
            t = z3.IntVal(0)
            for y in l.items:
                t = t + z3.If(eq_term(it, x, y), z3.IntVal(1), z3.IntVal(0))
            return mkint(t)
        xt = enc(it, l.el, x)
        for nm, e in tracked(it, l.el.sort):
            if e.eq(xt):
                return mkint(cnt_of(it, l, nm))
        raise Unsupported("count")
    elif name == "reverse" and l.items is not None:
        wr(it, l)
        l.items.reverse()
    elif name in ("toreadonly", "cast", "__class__"):
        return l
    else:
        raise Unsupported(f"list.{name}")
    return None


# ---------------------------------------------------------------------------- dicts
def find_key(it, d, k):
    """the stored key equal to k in a concrete dict, or None (decides equality by branching)"""
    h = it.hkey(k)
    if h in d.items and type(h) is not float:
        return [x for x in d.items if x == h and type(x) == type(h) or x == h][0:1] or None
    if isinstance(h, HK) or any(isinstance(x, (HK, tuple)) for x in d.items) or isinstance(h, tuple):
        for x in list(d.items):
            r = it.equal(k, it.from_hkey(x))
            if r is True or (r is not False and it.p.branch(r.t)):
                return [x]
    return None


def key_term(it, d, k):
    if d.dom.domain() == IntS:
        if not it.is_num(k):
            raise Unsupported("int key expected")
        return zt(zi(k))
    return it.box(k)


def sym_dict(it, name, el, key=U, keyty=None, default=None, notnone=False):
    d = it.p.reg(DictObj(dom=it.p.fresh(name + "_dom", z3.ArraySort(key, BoolS)), val=it.p.fresh(name + "_val", z3.ArraySort(key, el.sort)), el=el, default=default))
    d.keyty = keyty
    if notnone:
        from .interp import NONE

        x = z3.Const("x!nn", key)
        it.p.assume(z3.ForAll([x], z3.Implies(d.dom[x], d.val[x] != NONE), patterns=[d.val[x]]))
    return d


def dict_to_sym(it, d, el=None, key=None):
    if d.items is None:
        return d
    if key is None:
        key = IntS if d.items and all(isinstance(x, int) for x in d.items) else U
    vals = list(d.items.values())
    el = el or elem_of(it, vals)
    dom, val = z3.K(key, z3.BoolVal(False)), it.p.fresh("dval", z3.ArraySort(key, el.sort))
    for h, v in d.items.items():
        kv = it.from_hkey(h)
        kt = zt(kv) if key == IntS else it.box(kv)
        dom, val = z3.Store(dom, kt, True), z3.Store(val, kt, enc(it, el, v))
    d.items, d.dom, d.val, d.el = None, dom, val, el
    return d


def dict_read(it, d, kt):
    if d.el.name == "set":
        s = it.p.reg(SetView(d, kt, d.el.inner))
        return s
    return dec(it, d.el, z3.simplify(z3.Select(d.val, kt)))


class SetView(SetObj):
    """a set stored in a symbolic dict"""

    def __init__(self, d, k, el):
        self.d, self.k, self.el = d, k, el
        self.items = None
        self.pyt = "set"

    @property
    def mem(self):
        return z3.simplify(z3.Select(self.d.val, self.k))

    @mem.setter
    def mem(self, m):
        self.d.val = z3.Store(self.d.val, self.k, m)

    def snap(self):
        return ()

    def restore(self, s):
        pass


def ESet(inner):
    e = Elem("set", z3.ArraySort(inner.sort, BoolS), None)
    e.inner = inner

    def enc_(it, v):
        if isinstance(v, SetObj):
            if v.items is not None:
                m = z3.K(inner.sort, z3.BoolVal(False))
                for x in v.items:
                    m = z3.Store(m, enc(it, inner, x), True)
                return m
            return v.mem
        raise Unsupported("set value expected")

    e.enc = enc_
    return e


def dict_get(it, d, k):
    if d.items is not None:
        f = find_key(it, d, k)
        if f is None:
            if d.default is not None:
                v = it.call(d.default, [])
                wr(it, d)
                d.items[it.hkey(k)] = v
                return v
            raise PyRaise(it.mkexc("KeyError", k))
        return d.items[f[0]]
    kt = key_term(it, d, k)
    if it.p.branch(z3.Select(d.dom, kt)):
        return dict_read(it, d, kt)
    if d.default is not None:
        v = it.call(d.default, [])
        dict_set(it, d, k, v)
        return dict_read(it, d, kt) if d.el.name == "set" else v
    raise PyRaise(it.mkexc("KeyError", k))


def dict_set(it, d, k, v):
    wr(it, d)
    if d.items is not None:
        f = find_key(it, d, k)
        d.items[f[0] if f else it.hkey(k)] = v
        return
    if not (d.el.sort == U or d.el.name == "set" or fits(it, d.el, v)):
        raise Unsupported("dict value kind changes")
    kt = key_term(it, d, k)
    t = enc(it, d.el, v)
    d.dom, d.val = z3.Store(d.dom, kt, True), z3.Store(d.val, kt, t)


def dict_pop(it, d, k, *dflt):
    wr(it, d)
    if d.items is not None:
        f = find_key(it, d, k)
        if f is None:
            if dflt:
                return dflt[0]
            raise PyRaise(it.mkexc("KeyError", k))
        return d.items.pop(f[0])
    kt = key_term(it, d, k)
    if it.p.branch(z3.Select(d.dom, kt)):
        if d.el.name == "set":
            v = it.p.reg(SetObj(mem=z3.simplify(z3.Select(d.val, kt)), el=d.el.inner))
        else:
            v = dict_read(it, d, kt)
        d.dom = z3.Store(d.dom, kt, False)
        return v
    if dflt:
        return dflt[0]
    raise PyRaise(it.mkexc("KeyError", k))


def m_dict(it, d, name, a, k):
    if name == "get":
        if d.items is not None:
            f = find_key(it, d, a[0])
            return d.items[f[0]] if f else (a[1] if len(a) > 1 else None)
        kt = key_term(it, d, a[0])
        if it.p.branch(z3.Select(d.dom, kt)):
            return dict_read(it, d, kt)
        return a[1] if len(a) > 1 else None
    if name == "pop":
        return dict_pop(it, d, *a)
    if name == "setdefault":
        if it.truth(contains(it, d, a[0])):
            return dict_get(it, d, a[0])
        v = a[1] if len(a) > 1 else None
        dict_set(it, d, a[0], v)
        return v if d.items is not None or d.el.name != "set" else dict_read(it, d, key_term(it, d, a[0]))
    if name == "update":
        if a:
            s = a[0]
            if isinstance(s, DictObj) and s.items is not None:
                for h, v in list(s.items.items()):
                    dict_set(it, d, it.from_hkey(h), v)
            elif isinstance(s, DictObj):
                wr(it, d)
                if d.items is not None:
                    dict_to_sym(it, d, s.el, s.dom.domain())
                x = z3.Const("x!upd", d.dom.domain())
                dd, dv, sd, sv = d.dom, d.val, s.dom, s.val
                d.dom = z3.Lambda([x], z3.Or(dd[x], sd[x]))
                d.val = z3.Lambda([x], z3.If(sd[x], sv[x], dv[x]))
            else:
                i = it.iter(s)
                n = i.n()
                if not isinstance(n, int):
                    raise Unsupported("dict.update from a symbolic sequence")
                for j in range(n):
                    kk, vv = it.unpack(i.get(j), 2)
                    dict_set(it, d, kk, vv)
        for kk, vv in k.items():
            dict_set(it, d, kk, vv)
        return None
    if name == "clear":
        wr(it, d)
        d.items, d.dom, d.val = {}, None, None
        return None
    if name == "copy":
        c = it.p.reg(DictObj(items=dict(d.items) if d.items is not None else None, dom=d.dom, val=d.val, el=d.el))
        return c
    if name == "keys":
        return it.mklist([it.from_hkey(x) for x in d.items]) if d.items is not None else it.dict_keys(d)
    if name == "values":
        if d.items is not None:
            return it.mklist(list(d.items.values()))
        ks = it.dict_keys(d)
        return _IterV(lambda: Iter(lambda: simp(ks.n), lambda i: dict_read(it, d, sel(ks.arr, zi(i)))))
    if name == "items":
        if d.items is not None:
            return it.mklist([it.mktuple([it.from_hkey(x), v]) for x, v in d.items.items()])
        ks = it.dict_keys(d)
        return _IterV(lambda: Iter(lambda: simp(ks.n), lambda i: it.mktuple([list_at(it, ks, i), dict_read(it, d, sel(ks.arr, zi(i)))]), src=ks))
    if name == "__setitem__":
        return dict_set(it, d, a[0], a[1])
    if name == "__getitem__":
        return dict_get(it, d, a[0])
    if name == "__contains__":
        return contains(it, d, a[0])
    if name == "__class__":
        return it.type_of(d)
    raise Unsupported(f"dict.{name}")


# ---------------------------------------------------------------------------- sets
def set_to_sym(it, s, el=None):
    if s.items is None:
        return s
    el = el or elem_of(it, s.items)
    m = z3.K(el.sort, z3.BoolVal(False))
    for x in s.items:
        m = z3.Store(m, enc(it, el, x), True)
    s.items, s.mem, s.el = None, m, el
    return s


def set_add(it, s, x):
    wr(it, s if not isinstance(s, SetView) else s.d)
    if s.items is not None:
        if isinstance(x, (ListObj, DictObj, SetObj)) and not getattr(x, "tup", False):
            raise PyRaise(it.mkexc("TypeError", "unhashable"))
        if not it.truth(contains(it, s, x)):
            s.items.append(x)
        return
    s.mem = z3.Store(s.mem, enc(it, s.el, x), True)


def set_update(it, s, src):
    wr(it, s if not isinstance(s, SetView) else s.d)
    if isinstance(src, SetObj) and src.items is None:
        set_to_sym(it, s, src.el)
        x = z3.Const("x!su", s.el.sort)
        m1, m2 = s.mem, src.mem
        s.mem = z3.Lambda([x], z3.Or(m1[x], m2[x]))
        return
    i = it.iter(src)
    n = i.n()
    if isinstance(n, int):
        for j in range(n):
            set_add(it, s, i.get(j))
        return
    l = as_list(it, src)
    set_to_sym(it, s, l.el)
    old = s.mem
    new = it.p.fresh("supd", z3.ArraySort(l.el.sort, BoolS))
    pos = z3.Function(it.p.fresh("supd_pos", IntS).decl().name(), l.el.sort, IntS)
    x = z3.Const("x!su", l.el.sort)
    j = z3.Int("j!su")
    a, nn = l.arr, zt(l.n)
    it.p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nn), new[a[j]])))
    it.p.assume(z3.ForAll([x], z3.Implies(new[x], z3.Or(old[x], z3.And(0 <= pos(x), pos(x) < nn, a[pos(x)] == x))), patterns=[new[x]]))
    it.p.assume(z3.ForAll([x], z3.Implies(old[x], new[x]), patterns=[new[x]]))
    for name, e in tracked(it, l.el.sort):
        it.p.assume(new[e] == z3.Or(old[e], cnt_of(it, l, name) > 0))
    s.mem = new


def set_remove(it, s, x, must):
    wr(it, s if not isinstance(s, SetView) else s.d)
    if s.items is not None:
        for j, y in enumerate(s.items):
            r = it.equal(x, y)
            if r is True or (r is not False and it.p.branch(r.t)):
                s.items.pop(j)
                return
        if must:
            raise PyRaise(it.mkexc("KeyError"))
        return
    t = enc(it, s.el, x)
    if must and not it.p.branch(z3.Select(s.mem, t)):
        raise PyRaise(it.mkexc("KeyError"))
    s.mem = z3.Store(s.mem, t, False)


def m_set(it, s, name, a, k):
    if name == "add":
        return set_add(it, s, a[0])
    if name == "update":
        for x in a:
            set_update(it, s, x)
        return None
    if name in ("discard", "remove"):
        return set_remove(it, s, a[0], name == "remove")
    if name == "clear":
        wr(it, s)
        if isinstance(s, SetView):
            s.mem = z3.K(s.el.sort, z3.BoolVal(False))
        else:
            s.items, s.mem = [], None
        return None
    if name == "copy":
        return it.p.reg(SetObj(items=list(s.items) if s.items is not None else None, mem=s.mem if s.items is None else None, el=s.el))
    if name in ("union", "difference", "intersection") and len(a) == 1:
        o = a[0]
        if not isinstance(o, SetObj):
            o = it.T_set(o)
        if s.items is not None and o.items is not None:
            r = it.p.reg(SetObj(items=[]))
            if name == "union":
                for x in s.items + o.items:
                    set_add(it, r, x)
            else:
                for x in s.items:
                    if it.truth(contains(it, o, x)) == (name == "intersection"):
                        r.items.append(x)
            return r
        el = s.el or o.el
        x = z3.Const("x!sb", el.sort)
        m1 = s.mem if s.items is None else set_to_sym(it, SetObj(items=list(s.items)), el).mem
        m2 = o.mem if o.items is None else set_to_sym(it, SetObj(items=list(o.items)), el).mem
        f = {"union": z3.Or(m1[x], m2[x]), "difference": z3.And(m1[x], z3.Not(m2[x])), "intersection": z3.And(m1[x], m2[x])}[name]
        return it.p.reg(SetObj(mem=z3.Lambda([x], f), el=el))
    if name == "__class__":
        return PyType("set")
    raise Unsupported(f"set.{name}")


# ---------------------------------------------------------------------------- dispatch
def method(it, o, name, a, k):
    if isinstance(o, ListObj):
        return m_list(it, o, name, a, k)
    if isinstance(o, DictObj):
        return m_dict(it, o, name, a, k)
    if isinstance(o, SetObj):
        return m_set(it, o, name, a, k)
    if isinstance(o, ArrObj):
        if name in ("toreadonly", "tobytes", "raw", "cast"):
            return o
        raise Unsupported(f"buffer.{name}")
    if isinstance(o, (str, bytes)):
        if all(isinstance(x, (str, bytes, int, float, bool, type(None))) for x in a) and not k:
            try:
                r = getattr(o, name)(*a)
            except AttributeError:
                raise PyRaise(it.mkexc("AttributeError", name))
            except (ValueError, TypeError, IndexError) as e:
                raise PyRaise(it.mkexc(type(e).__name__))
            if isinstance(r, (list, tuple)):
                return it.p.reg(ListObj(items=list(r), tup=isinstance(r, tuple)))
            return r
        if name == "join":
            l = a[0].lst if isinstance(a[0], Gen) else a[0]
            if isinstance(l, (ListObj, SetObj)) and l.items is not None and all(isinstance(x, str) for x in l.items):
                return o.join(l.items)
            if isinstance(l, ListObj) and l.items is not None:
                return it.opaque_fn(f"join_{o}_{len(l.items)}", l.items, "str")
            return it.p.u("joined", "str")
        if name == "format":
            return it.opaque_fn("format", [o] + list(a), "str")
        return it.opaque_fn("str_" + name, [o] + [x for x in a], "str")
    raise Unsupported(f"method {name} of {o!r}")


def sum_(it, x, start=0):
    i = it.iter(x)
    n = i.n()
    if isinstance(n, int):
        r = start
        for j in range(n):
            r = it.binop(ast.Add(), r, i.get(j))
        return r
    if isinstance(x, Gen):
        x = x.lst
    l = x if isinstance(x, ListObj) else copy_seq(it, x)
    if l.el.sort != IntS:
        raise Unsupported("sum of non-ints")
    it.p.assume(PSUM(l.arr, 0) == 0)
    j = z3.Int("j!ps")
    it.p.assume(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zt(l.n)), l.arr[j] >= 0)), PSUM(l.arr, zt(l.n)) >= 0))
    return mkint(zt(zi(start)) + PSUM(l.arr, zt(l.n)))


def dict_fromkeys(it, a, k):
    d = it.mkdict({})
    i = it.iter(a[0])
    n = i.n()
    v = a[1] if len(a) > 1 else None
    if isinstance(n, int):
        for j in range(n):
            dict_set(it, d, i.get(j), v)
        return d
    l = as_list(it, a[0])
    s = it.p.reg(SetObj(items=[]))
    set_update(it, s, l)
    el = elem_of(it, [v])
    return it.p.reg(DictObj(dom=s.mem, val=z3.K(l.el.sort, enc(it, el, v)), el=el))


DEFAULT_EXT["type:dict.fromkeys"] = Builtin("fromkeys", dict_fromkeys)


# ---------------------------------------------------------------------------- lists of mutable [int, int] pairs
_PD = z3.Datatype("Pair")
_PD.declare("mkpair", ("fst", IntS), ("snd", IntS))
PairS = _PD.create()


class PairView(ListObj):
    """The two-element list stored at position idx of a symbolic list.  Writes go to that list; the ownership
    condition (no other reachable list shares the element) is checked at every write."""

    def __init__(self, base, idx):
        self.base, self.idx = base, idx
        self.n = self.arr = self.el = None
        self.tup, self.pyt, self.cnt = False, "list", {}
        self.ver = base.arr

    @property
    def items(self):
        t = z3.simplify(self.base.arr[zt(self.idx)])
        return [mkint(PairS.fst(t)), mkint(PairS.snd(t))]

    @items.setter
    def items(self, v):
        pass

    def snap(self):
        return ()

    def restore(self, s):
        pass

    def store(self, it, k, v):
        from .loops import State

        for fr in it.stack:
            for o in reach(it, fr):
                if isinstance(o, ListObj) and o is not self.base and not isinstance(o, PairView) and o.items is None and o.el is EPair and getattr(o, "group", None) == getattr(self.base, "group", None):
                    raise Unsupported("write to a pair shared by two reachable lists")
        wr(it, self.base)
        t = self.base.arr[zt(self.idx)]
        f, s = PairS.fst(t), PairS.snd(t)
        x = zt(zi(v))
        self.base.arr = z3.Store(self.base.arr, zt(self.idx), PairS.mkpair(x, s) if k == 0 else PairS.mkpair(f, x))


def reach(it, fr):
    from .loops import State

    st = State(it, fr)
    return list(st.objs.values())


EPair = Elem("pair", PairS, None)


def _enc_pair(it, v):
    if isinstance(v, ListObj) and v.items is not None and len(v.items) == 2 and not v.tup:
        return PairS.mkpair(zt(zi(v.items[0])), zt(zi(v.items[1])))
    raise Unsupported("pair expected")


EPair.enc = _enc_pair


def pair_list(it, name):
    l = symlist(it, name, EPair)
    l.group = l.oid
    return l
