"""Loops of unknown trip count: summarized by an inductive invariant.

The state at the loop head is havocked (only the locations that some iteration changes) and the invariant
candidates that are still alive are assumed.  Every candidate is proved on entry and at every back edge; a
candidate that is not is removed and the whole exploration starts again, so what remains is inductive.
"""
import ast

import z3

from .containers import *
from .containers import ArrView, EPair, PairView, SetView, cnt_of, elem_of, pcnt, symlist, to_sym, tracked
from .engine import *
from .interp import *
from .interp import HK, BreakX, ContinueX, Frame, ReturnX, _IterV, _Range
from .values import *

ABSENT = Poison("unbound at this point")
SIMPLE = (bool, int, float, str, bytes, type(None))


class LivePoison(Poison):
    """Havocked location whose kind was not needed so far; reading it makes the loop remember the kind."""

    def __init__(self, info, name):
        self.info, self.name = info, name
        super().__init__("")

    @property
    def why(self):
        if self.info.kinds.get(self.name) and self.name not in self.info.live:
            self.info.live.add(self.name)
            raise Restart()
        return f"value of {self.name} after loop iterations"

    @why.setter
    def why(self, v):
        pass


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.k == b.k and a.t.eq(b.t)
    if isinstance(a, SIMPLE) and isinstance(b, SIMPLE):
        return type(a) is type(b) and a == b
    if isinstance(a, ListObj) and isinstance(b, ListObj) and a.tup and b.tup:
        return a.items is not None and b.items is not None and len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.fn is b.fn and a.self_ is b.self_
    if isinstance(a, (HK, PyType)):
        return a == b
    return False


def tsame(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, Elem):
        return isinstance(b, Elem) and a.name == b.name
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    if a.eq(b):
        return True
    return a.sort() == b.sort() and z3.simplify(a).eq(z3.simplify(b))


def content_same(s, t):
    """compare snapshots of a container"""
    if len(s) != len(t):
        return False
    for i, (a, b) in enumerate(zip(s, t)):
        if i == 0 and isinstance(a, tuple) or i == 0 and isinstance(b, tuple):
            if a is None or b is None or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 2:
                    if not (x[0] == y[0] and same(x[1], y[1])):
                        return False
                elif not same(x, y):
                    return False
        elif i == 4:
            continue
        elif not tsame(a, b):
            return False
    return True


class State:
    """All locations reachable from the running frame: name -> (get, set) and containers by name."""

    def __init__(self, it, fr, nodes=()):
        self.it = it
        self.vars = {}  # name -> (dict, key)
        self.objs = {}  # name -> container object
        self.seen = {}
        q = []
        f, d = fr, 0
        while f is not None:
            self.env(f"{'^' * d}", f.vars, q)
            f = f.closure
            d += 1
        self.env("ghost.", it.ghost.attrs, q)
        for m in list(it.mods.values()):
            self.env(f"mod {m.name}.", m.env, q, True)
        for (a, b), v in list(it.gover.items()):
            if isinstance(v, (Func, Cls, Module, ExtModule, PyType, Builtin, Poison, Ignore)) or not isinstance(v, (Obj, Native, Sym) + SIMPLE):
                continue
            self.vars[f"glob {a}.{b}"] = (it.gover, (a, b))
            q.append((f"glob {a}.{b}", v))
        for c in it.p.reg_cls:
            self.env(f"cls {c.name}.", c.attrs, q, True)
        i = 0
        while i < len(q):
            name, v = q[i]
            i += 1
            self.visit(name, v, q)

    def env(self, pre, d, q, data=False):
        for k in list(d):
            v = d[k]
            if data and isinstance(v, (Func, Cls, Module, ExtModule, PyType, Builtin, Poison, Ignore)):
                continue
            self.vars[pre + str(k)] = (d, k)
            q.append((pre + str(k), v))

    def visit(self, name, v, q):
        if isinstance(v, Bound):
            self.visit(name + ".__self__", v.self_, q)
            self.visit(name + ".__func__", v.fn, q)
            return
        if id(v) in self.seen:
            return
        if isinstance(v, Func):
            self.seen[id(v)] = name
            if v.closure is not None and id(v.closure) not in self.seen:
                self.seen[id(v.closure)] = name
                self.env(name + ".<closure>.", v.closure.vars, q)
            return
        if isinstance(v, Native):
            self.seen[id(v)] = name
            for k, x in v.__dict__.items():
                if isinstance(x, (Obj, Native, Bound, Func)):
                    q.append((f"{name}.{k}", x))
            return
        if isinstance(v, Gen):
            self.visit(name + ".gen", v.lst, q)
            return
        if not isinstance(v, Obj):
            return
        self.seen[id(v)] = name
        if isinstance(v, InstObj):
            self.env(name + ".", v.attrs, q)
            return
        if isinstance(v, (ArrView, SetView, PairView)):
            self.visit(name + ".base", v.d if isinstance(v, SetView) else v.base, q)
            return
        if isinstance(v, (ListObj, DictObj, SetObj, ArrObj)):
            if not (isinstance(v, ListObj) and v.tup):
                self.objs[name + "[]"] = v
            items = getattr(v, "items", None)
            if items:
                for j, x in enumerate(items.values() if isinstance(items, dict) else items):
                    if isinstance(x, (Obj, Native, Bound, Func)):
                        q.append((f"{name}[{j}]", x))

    def snapshot(self):
        return ({n: d.get(k, ABSENT) for n, (d, k) in self.vars.items()}, {n: o.snap() for n, o in self.objs.items()})


def kind_of(v, head):
    """how a value at the back edge can be represented after a havoc"""
    if v is ABSENT:
        return ("absent",)
    if isinstance(v, Poison):
        return ("poison",)
    if isinstance(v, bool):
        return ("bool",)
    if isinstance(v, int):
        return ("int",)
    if isinstance(v, float):
        return ("real",)
    if isinstance(v, (str, bytes, type(None))):
        return ("const", v)
    if isinstance(v, Sym):
        return {"int": ("int",), "bool": ("bool",), "real": ("real",)}.get(v.k, ("u", v.ty))
    if isinstance(v, Obj) and id(v) in head.seen and not isinstance(v, ListObj):
        return ("ref", head.seen[id(v)])
    if isinstance(v, ListObj):
        if v.tup and v.items is not None:
            return ("tup",) + tuple(kind_of(x, head) for x in v.items)
        if id(v) in head.seen and head.seen[id(v)]:
            return ("ref", head.seen[id(v)])
        if v.items is not None:
            return ("list", elem_of_items(v.items), v.tup)
        return ("list", (v.el.name, v.el.sort.name(), v.el.ty), v.tup)
    if isinstance(v, DictObj) and v.items == {} :
        return ("emptydict",)
    if isinstance(v, DictObj) and v.items is None:
        return ("dict", v.el.name, v.dom.domain().name(), v.el.ty)
    if isinstance(v, SetObj) and v.items is None:
        return ("set", v.el.name, v.el.ty)
    return ("poison",)


def elem_of_items(items):
    e = elem_of(None, items) if items else None
    return (e.name, e.sort.name(), e.ty) if e is not None else None


def mk_elem(desc):
    if desc is None:
        return EU(None)
    name, sort, ty = desc
    if name == "int":
        return EInt
    if name == "bool":
        return EBool
    if name == "pair":
        return EPair
    return EU(ty)


def join_list(a, b):
    """join of two list kinds"""
    x, y = a[1], b[1]
    if x is None or y is None:
        e = x or y
    elif x == y:
        e = x
    else:
        e = ("u", "U", None)
    return ("list", e, a[2])


def join_elem(ds):
    r = None
    for d in ds:
        if d is None:
            continue
        r = d if r is None or r == d else ("u", "U", None)
    return r


class Summary:
    def __init__(self, it, fr, node, src=None, tag=""):
        self.it, self.fr, self.p = it, fr, it.p
        sig = tuple((f.fn.qual if f.fn is not None else "") for f in it.stack)
        key = (sig, fr.mod.name, node.lineno, node.col_offset, tag)
        self.info = it.p.eng.loops.setdefault(key, LoopInfo())
        if not hasattr(self.info, "live"):
            self.info.live = set()
            self.info.ckinds = {}
        self.key = key
        self.src = src
        self.head = State(it, fr)
        self.v0, self.o0 = self.head.snapshot()
        self.cnt0 = {}
        for n, o in self.head.objs.items():
            if isinstance(o, ListObj):
                for e in self.p.tracked:
                    try:
                        self.cnt0[n, e] = cnt_of(it, o, e)
                    except Unsupported:
                        pass
        if src is not None and isinstance(src, ListObj):
            if src.items is not None:
                self.srcl = None
            else:
                self.srcl = (src.arr, src.n, src.el)
        else:
            self.srcl = None
        # frozen entry lists for prefix candidates
        self.l0 = {}
        for n, o in self.head.objs.items():
            if isinstance(o, ListObj):
                self.l0[n] = (list(o.items) if o.items is not None else None, o.n, o.arr, o.el)

    # ---- havoc
    def havoc(self):
        it, p, info = self.it, self.p, self.info
        base = f"L{self.key[2]}"
        for n in sorted(info.kinds):
            if n not in self.head.vars:
                if n[:-len(n.split(".")[-1])] == "" or "." not in n:
                    # a local that is first bound inside of the loop
                    d, k = self.local_slot(n)
                    if d is None:
                        continue
                    self.head.vars[n] = (d, k)
                    self.v0[n] = ABSENT
                else:
                    continue
            d, k = self.head.vars[n]
            kinds = sorted(info.kinds[n], key=str)
            entry = self.v0.get(n, ABSENT)
            lists = [x for x in kinds if x[0] == "list"]
            if len(lists) > 1:
                j = lists[0]
                for x in lists[1:]:
                    j = join_list(j, x)
                kinds = [x for x in kinds if x[0] != "list"] + [j]
            simple = all(x[0] in ("int", "bool", "real") for x in kinds)
            if (entry is ABSENT or not simple) and n not in info.live:
                d[k] = LivePoison(info, n)
                continue
            c = kinds[p.choose(len(kinds))]
            v = self.make(c, base, n)
            if v is ABSENT:
                d.pop(k, None)
            else:
                d[k] = v
        for n in sorted(info.ckinds):
            o = self.head.objs.get(n)
            if o is None:
                continue
            self.havoc_content(o, n, info.ckinds[n], base)

    def local_slot(self, n):
        f, d = self.fr, 0
        while n.startswith("^") and f is not None:
            n = n[1:]
            f = f.closure
        return (f.vars, n) if f is not None else (None, None)

    def make(self, c, base, n):
        p = self.p
        nm = f"{base}_{n}"
        if c[0] == "int":
            return p.int(nm)
        if c[0] == "bool":
            return p.bool(nm)
        if c[0] == "real":
            return Sym(p.fresh(nm, RealS), "real")
        if c[0] == "const":
            return c[1]
        if c[0] == "u":
            return p.u(nm, c[1])
        if c[0] == "absent":
            return ABSENT
        if c[0] == "tup":
            return self.it.mktuple([self.make(x, base, f"{n}.{i}") for i, x in enumerate(c[1:])])
        if c[0] == "list":
            l = symlist(self.it, nm, mk_elem(c[1]), tup=c[2])
            self.it.cnt_facts(l)
            return l
        if c[0] == "emptydict":
            return self.it.mkdict({})
        if c[0] == "ref":
            for i, nn in self.head.seen.items():
                if nn == c[1]:
                    for o in self.p.objs:
                        if id(o) == i:
                            return o
        return LivePoison(self.info, n) if False else Poison(f"{n} after loop iterations")

    def havoc_content(self, o, n, kind, base):
        p, it = self.p, self.it
        nm = f"{base}_{n}"
        if isinstance(o, ListObj):
            el = mk_elem(kind)
            o.items, o.n, o.arr, o.el, o.cnt = None, p.fresh(nm + "_n", IntS), p.fresh(nm, z3.ArraySort(IntS, el.sort)), el, {}
            p.assume(o.n >= 0)
            it.cnt_facts(o)
        elif isinstance(o, DictObj):
            if kind[0] == "clear":
                o.items = {}
                return
            if o.items is not None:
                elv = mk_elem(kind[1]) if kind[1] is None or kind[1][0] != "set" else None
                if elv is None:
                    raise Unsupported("dict of sets created in a loop")
                dict_to_sym(it, o, elv, IntS if kind[2] == "Int" else U)
            o.dom = p.fresh(nm + "_dom", o.dom.sort())
            o.val = p.fresh(nm + "_val", o.val.sort())
        elif isinstance(o, SetObj):
            if o.items is not None:
                set_to_sym(it, o, mk_elem(kind))
            o.mem = p.fresh(nm + "_mem", o.mem.sort())
        elif isinstance(o, ArrObj):
            o.arr = p.fresh(nm + "_arr", o.arr.sort())

    # ---- candidates; evaluated against the current state
    def int_locs(self):
        out = []
        for n in sorted(self.head.vars):
            d, k = self.head.vars[n]
            v = d.get(k, ABSENT)
            e = self.v0.get(n, ABSENT)
            if isinstance(v, (int, Sym)) and not isinstance(v, bool) and (isinstance(v, int) or v.k == "int"):
                out.append((n, zt(zi(v)), zt(zi(e)) if (isinstance(e, int) or isinstance(e, Sym) and e.k == "int") and not isinstance(e, bool) else None))
        return out

    def candidates(self, k):
        """[(name, formula)] in the current state with k completed iterations"""
        p, it, info = self.p, self.it, self.info
        out = []
        ints = self.int_locs()
        mod = [x for x in ints if x[0] in info.kinds]
        fixed = [x for x in ints if x[0] not in info.kinds and not (z3.is_int_value(x[1])) and not x[0].startswith(("mod ", "cls "))][:12]
        kz = zt(k)
        for n, v, e in mod:
            if e is not None:
                out += [(f"{n}=0", v == e), (f"{n}+k", v == e + kz), (f"{n}-k", v == e - kz), (f"{n}>=", v >= e), (f"{n}<=", v <= e), (f"{n}<=+k", v <= e + kz)]
            out += [(f"{n}>=0", v >= 0)]
            for m, w, _ in fixed:
                out += [(f"{n}<={m}", v <= w), (f"{n}>={m}", v >= w)]
                if e is not None:
                    out += [(f"{n}<={m}|0", z3.Or(v <= w, v == e)), (f"{n}>={m}|0", z3.Or(v >= w, v == e))]
            for m, w, e2 in mod:
                if m > n:
                    out += [(f"{n}<={m}", v <= w), (f"{n}>={m}", v >= w)]
                    if e is not None and e2 is not None:
                        out += [(f"{n}+{m}", v + w == e + e2), (f"{n}-{m}", v - w == e - e2), (f"{n}+{m}+k", v + w == e + e2 + kz)]
        # bools and opaque values: unchanged so far
        for n in sorted(info.kinds):
            if n in self.head.vars:
                d, kk = self.head.vars[n]
                v, e = d.get(kk, ABSENT), self.v0.get(n, ABSENT)
                if isinstance(v, (Sym, bool)) and (isinstance(v, bool) or v.k in ("bool", "u")) and not isinstance(e, Poison) and (isinstance(e, (bool, Sym)) or e is None):
                    if isinstance(v, bool) or v.k == "bool":
                        if isinstance(e, bool) or isinstance(e, Sym) and e.k == "bool":
                            out.append((f"{n} same", zb(v) == zb(e)))
        lists = []
        for n in sorted(self.head.objs):
            o = self.head.objs[n]
            if isinstance(o, ListObj):
                lists.append((n, o, n in info.ckinds))
        # locals rebound to new lists
        for n in sorted(info.kinds):
            if n in self.head.vars:
                d, kk = self.head.vars[n]
                v = d.get(kk, ABSENT)
                e = self.v0.get(n, ABSENT)
                if isinstance(v, ListObj) and isinstance(e, ListObj) and not v.tup and not any(o is v for _, o, _ in lists):
                    lists.append((n + "[]", v, True))
        ml = [x for x in lists if x[2]]

        def ln(o):
            return zt(length(it, o))

        def n0(n):
            l = self.l0.get(n)
            return None if l is None else (z3.IntVal(len(l[0])) if l[0] is not None else zt(l[1]))

        for n, o, _ in ml:
            e = n0(n)
            if e is None:
                continue
            v = ln(o)
            out += [(f"|{n}|+k", v == e + kz), (f"|{n}|>=", v >= e), (f"|{n}|<=+k", v <= e + kz), (f"|{n}|<=", v <= e), (f"|{n}|=", v == e), (f"|{n}|-k", v == e - kz)]
            for m, w, _e in mod:
                out += [(f"|{n}|={m}", v == w)]
            for m, w, _e in fixed:
                out += [(f"|{n}|<={m}", v <= w)]
            # old elements stay in place
            l = self.l0[n]
            if not (l[0] is not None and not l[0]) and o.items is None:
                j = z3.Int("j!pre")
                if l[0] is not None:
                    try:
                        out.append((f"{n} prefix", z3.And(v >= len(l[0]), *[o.arr[i] == enc(it, o.el, x) for i, x in enumerate(l[0])])))
                    except Unsupported:
                        pass
                elif l[3].sort == o.el.sort:
                    out.append((f"{n} prefix", z3.And(v >= e, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < e), o.arr[j] == l[2][j])))))
            for m, o2, _ in ml:
                if m > n and n0(m) is not None:
                    w, e2 = ln(o2), n0(m)
                    out += [(f"|{n}|+|{m}|", v + w == e + e2), (f"|{n}|+|{m}|+k", v + w == e + e2 + kz)]
        # occurrence counts of the tracked elements
        for te in p.tracked:
            et = p.tracked_terms[te]
            pk = None
            if self.srcl is not None and self.srcl[2].sort == et.sort():
                pk = pcnt(self.srcl[0], et, k)
            cs = []
            for n, o, m in lists:
                if not m or (n, te) not in self.cnt0 and n0(n) is None:
                    continue
                if o.items is None and o.el.sort != et.sort():
                    continue
                try:
                    c = cnt_of(it, o, te)
                except Unsupported:
                    continue
                c0 = self.cnt0.get((n, te))
                if c0 is None:
                    continue
                cs.append((n, c, c0))
            for n, c, c0 in cs:
                out += [(f"#{te} {n}=", c == c0), (f"#{te} {n}<=1", c <= 1), (f"#{te} {n}<=", c <= c0), (f"#{te} {n}>=", c >= c0)]
                if pk is not None:
                    out += [(f"#{te} {n}+pk", c == c0 + pk), (f"#{te} {n}<=pk", c <= c0 + pk), (f"#{te} {n}-pk", c == c0 - pk)]
                for m, d, d0 in cs:
                    if m > n:
                        out += [(f"#{te} {n}+{m}", c + d == c0 + d0)]
                        if pk is not None:
                            out += [(f"#{te} {n}+{m}+pk", c + d == c0 + d0 + pk)]
            # dicts and sets at the tracked element
            for n in sorted(self.head.objs):
                if n not in info.ckinds:
                    continue
                o = self.head.objs[n]
                if isinstance(o, DictObj) and o.items is None and o.dom.domain() == et.sort():
                    d0, v0 = self.dict0(n, et)
                    if d0 is None:
                        continue
                    cur = z3.Select(o.dom, et)
                    out += [(f"@{te} {n} dom=", cur == d0), (f"@{te} {n} dom>=", z3.Implies(d0, cur)), (f"@{te} {n} dom<=", z3.Implies(cur, d0))]
                    if v0 is not None:
                        out += [(f"@{te} {n} val=", z3.Implies(z3.And(d0, cur), z3.Select(o.val, et) == v0))]
                    if pk is not None:
                        out += [(f"@{te} {n} dom+pk", cur == z3.Or(d0, pk > 0)), (f"@{te} {n} dom-pk", cur == z3.And(d0, pk == 0)),
                                (f"@{te} {n} untouched", z3.Implies(pk == 0, z3.And(cur == d0, z3.Select(o.val, et) == v0 if v0 is not None else z3.BoolVal(True))))]
                if isinstance(o, SetObj) and o.items is None and o.mem.domain() == et.sort():
                    m0 = self.set0(n, et)
                    if m0 is None:
                        continue
                    cur = z3.Select(o.mem, et)
                    out += [(f"@{te} {n} mem=", cur == m0), (f"@{te} {n} mem>=", z3.Implies(m0, cur)), (f"@{te} {n} mem<=", z3.Implies(cur, m0))]
                    if pk is not None:
                        out += [(f"@{te} {n} mem+pk", cur == z3.Or(m0, pk > 0)), (f"@{te} {n} mem-pk", cur == z3.And(m0, pk == 0)), (f"@{te} {n} untouched", z3.Implies(pk == 0, cur == m0))]
                    for ln_, c, c0 in cs:
                        out += [(f"@{te} {n}~{ln_}", cur == (c > 0))]
        # guesses derived from what an iteration stored
        for gname, (kind, n, term, kc, arrH, nH) in sorted(info.guesses.items()):
            if kind == "all":
                jj = z3.Int("j!all")
                out.append((gname, z3.ForAll([jj], z3.Implies(z3.And(0 <= jj, jj < kz), z3.substitute(term, (kc, jj))))))
                continue
            if kind == "kept":
                f, t, te = term
                et = p.tracked_terms[te]
                fe = z3.substitute(f, (t, et))
                for ln_, o_, m_ in lists:
                    if m_ and (ln_, te) in self.cnt0 and (o_.items is not None or o_.el.sort == et.sort()):
                        out.append((f"{gname} {ln_}", z3.Or(fe, cnt_of(it, o_, te) == self.cnt0[ln_, te])))
                for on in sorted(info.ckinds):
                    o_ = self.head.objs.get(on)
                    if isinstance(o_, DictObj) and o_.items is None and o_.dom.domain() == et.sort():
                        d0, v0 = self.dict0(on, et)
                        if d0 is not None:
                            out.append((f"{gname} {on}", z3.Or(fe, z3.Select(o_.dom, et) == d0)))
                    if isinstance(o_, SetObj) and o_.items is None and o_.mem.domain() == et.sort():
                        m0 = self.set0(on, et)
                        if m0 is not None:
                            out.append((f"{gname} {on}", z3.Or(fe, z3.Select(o_.mem, et) == m0)))
                continue
            o = self.head.objs.get(n)
            if o is None or not isinstance(o, ListObj):
                d = self.head.vars.get(n[:-2])
                o = d[0].get(d[1]) if d is not None else None
            e = n0(n)
            if not isinstance(o, ListObj) or e is None:
                continue
            j = z3.Int("j!g")
            if kind == "only":
                sub = [(c, self.cur_term(h)) for h, c in kc.items()]
                if any(t is None or t.sort() != c.sort() for c, t in sub):
                    continue
                out.append((gname, z3.Or(ln(o) == e, z3.substitute(term, *sub))))
                continue
            if kind == "cntpred":
                f, tt = term
                for te, et in tracked(it, tt.sort()):
                    if self.srcl is None or (n, te) not in self.cnt0 or self.srcl[2].sort != tt.sort():
                        continue
                    out.append((gname + te, cnt_of(it, o, te) == self.cnt0[n, te] + z3.If(z3.substitute(f, (tt, et)), pcnt(self.srcl[0], et, k), z3.IntVal(0))))
                continue
            if o.items is not None:
                if o.items:
                    continue
                out.append((gname, z3.BoolVal(True)))
                continue
            if kind == "elt":
                if term.sort() != o.el.sort:
                    continue
                t = z3.substitute(term, (kc, j))
                out.append((gname, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < kz), o.arr[e + j] == t))))
            elif kind == "eltw":
                # every appended element is term(i) for some earlier iteration i
                if term.sort() != o.el.sort:
                    continue
                i = z3.Int("i!g")
                t = z3.substitute(term, (kc, i))
                out.append((gname, z3.ForAll([j], z3.Implies(z3.And(e <= j, j < ln(o)), z3.Exists([i], z3.And(0 <= i, i < kz, o.arr[j] == t))))))
            elif kind == "pred":
                f, tt = term
                if tt.sort() != o.el.sort:
                    continue
                g = z3.substitute(f, (tt, o.arr[j]))
                out.append((gname, z3.ForAll([j], z3.Implies(z3.And(e <= j, j < ln(o)), g))))
        for prov in it.inv:
            for nm, f in prov(it, self, k) or []:
                out.append(("contract " + nm, f if not isinstance(f, bool) else z3.BoolVal(f)))
        return [(n, f) for n, f in out if n not in info.dead]

    def dict0(self, n, et):
        s = self.o0.get(n)
        if s is None:
            return None, None
        if s[0] is not None:
            if not s[0]:
                return z3.BoolVal(False), None
            if et.sort() != U:
                return None, None
            dom, val = z3.BoolVal(False), None
            for h, v in s[0]:
                dom = z3.Or(dom, self.it.box(self.it.from_hkey(h)) == et)
            return dom, None
        return z3.Select(s[1], et), z3.Select(s[2], et)

    def set0(self, n, et):
        s = self.o0.get(n)
        if s is None:
            return None
        if s[0] is not None:
            return z3.Or(z3.BoolVal(False), *[enc(self.it, EU(None) if et.sort() == U else EInt, x) == et for x in s[0]])
        return z3.Select(s[1], et)

    def check_all(self, k):
        """drop the candidates that are not provable now; returns the names of those that are"""
        cs = self.candidates(k)
        names = {n for n, _ in cs}
        gone = self.assumed - names
        if gone:
            # assumed at the head, but not expressible (hence not proved) here
            self.info.dead.update(gone)
            if self.p.eng.opts.get("debug"):
                print("  loop", self.key[-4:], "not expressible at the back edge", sorted(gone)[:6])
            raise Restart()
        if not cs:
            return names
        if self.p.holds(z3.And(*[f for _, f in cs]), 1500):
            return names
        bad = []
        for n, f in cs:
            c = n.startswith("contract")
            if not self.p.holds(f, 4000 if c else 900, mbqi=c):
                bad.append(n)
        if bad:
            self.info.dead.update(bad)
            if self.p.eng.opts.get("debug"):
                print("  loop", self.key[-4:], "dropped", bad[:6], len(bad))
            raise Restart()
        return names

    def begin(self):
        """entry checks, then havoc and assumption of the invariant; returns k"""
        self.assumed = set()
        entry = self.check_all(0)
        self.havoc()
        p = self.p
        k = p.fresh(f"k_L{self.key[2]}", IntS)
        p.assume(k >= 0)
        self.k = k
        # facts about prefix counts of the source
        if self.srcl is not None:
            for te, et in tracked(self.it, self.srcl[2].sort):
                a = self.srcl[0]
                p.assume(pcnt(a, et, 0) == 0)
                p.assume(z3.And(pcnt(a, et, k) >= 0, pcnt(a, et, k) <= k))
                p.assume(pcnt(a, et, k + 1) == pcnt(a, et, k) + z3.If(a[k] == et, z3.IntVal(1), z3.IntVal(0)))
        for n, f in self.candidates(k):
            if n not in entry:
                if p.eng.opts.get("debug"):
                    print("  loop", self.key[-4:], "not expressible at entry", n)
                continue
            self.assumed.add(n)
            p.assume(f)
            p.eng.invariants.add((self.key[1], self.key[2], n))
        self.mark = len(p.conds)
        self.hv, self.ho = self.head.snapshot()
        return k

    def back_edge(self):
        """compare with the head state, prove the invariant again and end the path"""
        info, it, p = self.info, self.it, self.p
        cur = {}
        changed = False
        now = State(it, self.fr)
        names = set(self.head.vars) | {n for n in now.vars if n not in self.head.vars and self.is_slot(n)}
        for n in sorted(names):
            d, k = self.head.vars.get(n) or now.vars[n]
            v = d.get(k, ABSENT)
            h = self.hv.get(n, ABSENT)
            if same(v, h):
                continue
            if isinstance(v, Poison) and v is not ABSENT:
                continue
            ks = info.kinds.setdefault(n, set())
            new = {kind_of(v, self.head)}
            e = self.v0.get(n, ABSENT)
            if not (isinstance(e, Poison) and e is not ABSENT):
                new.add(kind_of(e, self.head) if not (isinstance(e, ListObj) and not e.tup) else ("list", elem_of_items(e.items) if e.items is not None else (e.el.name, e.el.sort.name(), e.el.ty), e.tup))
            new = self.widen_tuples(ks, new, [v, e])
            if not new <= ks:
                ks |= new
                changed = True
        for n, o in self.head.objs.items():
            s = o.snap()
            if content_same(s, self.ho[n]):
                continue
            k = self.content_kind(o, self.o0[n], self.l0.get(n))
            if n not in info.ckinds or info.ckinds[n] != k and self.widen(info.ckinds[n], k) != info.ckinds[n]:
                info.ckinds[n] = self.widen(info.ckinds[n], k) if n in info.ckinds else k
                changed = True
        if changed:
            if p.eng.opts.get("debug"):
                print("  loop", self.key[-4:], "modifies", {k: v for k, v in info.kinds.items()}, info.ckinds)
            raise Restart()
        if self.guess():
            raise Restart()
        self.check_all(self.k + 1)
        raise PathEnd()

    def widen_tuples(self, ks, new, vals):
        """tuples of different lengths: a tuple of any length"""
        both = ks | new
        tups = [x for x in both if x[0] == "tup"]
        lists = [x for x in both if x[0] == "list" and x[2]]
        if not tups or not (lists or len({len(x) for x in tups}) > 1):
            return new
        try:
            els = [x[1] for x in lists] + [elem_of_items(v.items) for v in vals if isinstance(v, ListObj) and v.tup and v.items]
            if not els:
                return new
            el = els[0] if len(els) == 1 else join_elem(els)
        except Unsupported:
            return new
        for x in tups + lists:
            ks.discard(x)
            new.discard(x)
        new.add(("list", el, True))
        if ("list", el, True) in lists and not any(x in tups for x in ks):
            ks.add(("list", el, True))
        return new

    def is_slot(self, n):
        return "." not in n and not n.startswith("glob")

    def widen(self, a, b):
        if isinstance(a, tuple) and a and a[0] == "dict":
            return ("dict", join_elem([a[1], b[1]]), a[2] if a[2] == b[2] else "U")
        return join_elem([a, b])

    def content_kind(self, o, s0, l0):
        if isinstance(o, ListObj):
            ds = [elem_of_items(o.items) if o.items is not None else (o.el.name, o.el.sort.name(), o.el.ty)]
            if l0 is not None:
                ds.append(elem_of_items(l0[0]) if l0[0] is not None else (l0[3].name, l0[3].sort.name(), l0[3].ty))
            return join_elem(ds)
        if isinstance(o, DictObj):
            if o.items is not None:
                e = elem_of_items(list(o.items.values()))
                key = "Int" if o.items and all(isinstance(x, int) for x in o.items) else "U"
            else:
                e, key = (o.el.name, o.el.sort.name(), o.el.ty), o.dom.domain().name()
            return ("dict", e, key)
        if isinstance(o, SetObj):
            return elem_of_items(o.items) if o.items is not None else (o.el.name, o.el.sort.name(), o.el.ty)
        return ("arr", "", None)

    def guess(self):
        """new candidate shapes from what this iteration appended"""
        info, p = self.info, self.p
        new = False
        objs = [(n, o, self.ho[n]) for n, o in self.head.objs.items() if isinstance(o, ListObj) and n in info.ckinds]
        conds = p.conds[self.mark:]
        hconsts = [c for _, c in self.hterms()]
        for f in conds[:10]:
            if has_quant(f):
                continue
            if self.mentions(f, self.k):
                g = f"all earlier {f.sexpr()[:120]}"
                if g not in info.guesses and g not in info.dead:
                    info.guesses[g] = ("all", "", f, self.k, None, None)
                    new = True
            for te, et in [(x, p.tracked_terms[x]) for x in p.tracked]:
                for t in select_terms(f, et.sort()):
                    g = f"#{te} kept or {f.sexpr()[:80]}"
                    if g not in info.guesses and g not in info.dead:
                        info.guesses[g] = ("kept", "", (f, t, te), self.k, None, None)
                        new = True
        for n, o, h in objs:
            if o.items is not None or h[2] is None:
                continue
            # this list only changes when a condition on the other state holds
            for f in conds[:6]:
                if has_quant(f) or self.mentions(f, self.k):
                    continue
                g = f"{n} changed only if {f.sexpr()[:80]}"
                if g not in info.guesses and g not in info.dead:
                    info.guesses[g] = ("only", n, f, dict(self.hterms()), None, None)
                    new = True
            a = o.arr
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and a.arg(0).eq(h[2]) and z3.simplify(a.arg(1) - h[1]).eq(z3.IntVal(0)):
                t = a.arg(2)
                g = f"{n} elt"
                if g not in info.guesses and g not in info.dead:
                    info.guesses[g] = ("elt", n, t, self.k, None, None)
                    new = True
                atoms = []
                for f in conds:
                    if has_quant(f) or not self.mentions(f, t) or self.mentions_head(f, t):
                        continue
                    atoms.append(f)
                for i, f in enumerate(atoms[:6]):
                    g = f"{n} pred {f.sexpr()[:80]}"
                    if g not in info.guesses and g not in info.dead:
                        info.guesses[g] = ("pred", n, (f, t), self.k, None, None)
                        if self.srcl is not None and self.srcl[2].sort == t.sort() and t.eq(z3.simplify(self.srcl[0][self.k])):
                            info.guesses[g + " count"] = ("cntpred", n, (z3.And(*atoms), t), self.k, None, None)
                        new = True
        return new

    def hterms(self):
        """terms naming the state at the loop head: name -> constant"""
        for n, v in self.hv.items():
            if isinstance(v, Sym) and n in self.info.kinds and z3.is_const(v.t):
                yield ("v", n), v.t
        for n, s in self.ho.items():
            if n in self.info.ckinds and isinstance(self.head.objs[n], ListObj) and s[1] is not None and z3.is_const(s[1]):
                yield ("n", n), s[1]

    def cur_term(self, key):
        kind, n = key
        if kind == "v":
            if n not in self.head.vars:
                return None
            d, k = self.head.vars[n]
            v = d.get(k, ABSENT)
            if isinstance(v, Sym):
                return v.t
            if isinstance(v, bool):
                return z3.BoolVal(v)
            return z3.IntVal(v) if isinstance(v, int) else None
        o = self.head.objs.get(n)
        return zt(length(self.it, o)) if isinstance(o, ListObj) else None

    def mentions(self, f, t):
        return not z3.substitute(f, (t, z3.Const("zz!", t.sort()))).eq(f)

    def mentions_head(self, f, t):
        """f depends on the iteration counter other than through t"""
        g = z3.substitute(f, (t, z3.Const("zz!", t.sort())))
        return self.mentions(g, self.k)


def select_terms(f, sort):
    out, seen, st = [], set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.sort() == sort and x.decl().kind() == z3.Z3_OP_SELECT:
            out.append(x)
        st.extend(x.children())
    return out[:3]


# ---------------------------------------------------------------------------------------------------
UNROLL = 40


def for_loop(it, st, fr):
    v = it.ev(st.iter, fr)
    run_for(it, fr, st, v, lambda x: it.assign(st.target, x, fr), lambda: it.block(st.body, fr), lambda: it.block(st.orelse, fr))


def run_for(it, fr, node, v, bind, body, orelse, tag=""):
    i = it.iter(v)
    n = i.n()
    if isinstance(n, int):
        k = 0
        while True:
            n = i.n()
            if not isinstance(n, int):
                raise Unsupported("the iterated list becomes symbolic during the loop")
            if k >= n:
                break
            if k > 200:
                raise Unsupported("long concrete loop")
            bind(i.get(k))
            k += 1
            try:
                body()
            except ContinueX:
                continue
            except BreakX:
                return
        orelse()
        return
    p = it.p
    if p.noeffect:
        raise NotPure()
    bound = p.eng.opts.get("unroll")
    if bound:
        k = 0
        while p.branch(z3.IntVal(k) < zt(i.n())):
            if k >= bound:
                raise PathEnd()
            bind(i.get(k))
            k += 1
            try:
                body()
            except ContinueX:
                continue
            except BreakX:
                return
        orelse()
        return
    s = Summary(it, fr, node, i.src, tag)
    k = s.begin()
    n = zt(i.n())
    p.assume(k <= n) if not (isinstance(i.src, ListObj) and s.head.seen.get(id(i.src), "") + "[]" in s.info.ckinds) else None
    if p.branch(k < n):
        bind(i.get(Sym(k, "int")))
        try:
            body()
        except ContinueX:
            pass
        except BreakX:
            return
        s.back_edge()
    orelse()


def while_loop(it, st, fr):
    p = it.p
    lim = 0
    const = isinstance(st.test, ast.Constant)
    while not const:
        # concrete prefix of the loop
        save = len(p.decisions)
        if not cheap_concrete(it, st.test, fr):
            break
        t = it.truth_term(it.ev(st.test, fr))
        if not t:
            it.block(st.orelse, fr)
            return
        lim += 1
        if lim > UNROLL:
            break
        try:
            it.block(st.body, fr)
        except ContinueX:
            continue
        except BreakX:
            return
    if p.noeffect:
        raise NotPure()
    if const and getattr(it, "stepwise", False):
        # the contract bounds the steps itself: a summary of the receive operation ends the path
        for _ in range(UNROLL):
            try:
                it.block(st.body, fr)
            except ContinueX:
                continue
            except BreakX:
                return
        raise Unsupported("endless loop without a receive operation")
    bound = p.eng.opts.get("unroll")
    if bound:
        if const and getattr(it, "iter_end", None) is not None:
            raise Unsupported("step contract from any state: not unrolled")
        k = 0
        while it.truth(it.ev(st.test, fr)):
            if k >= bound:
                raise PathEnd()
            k += 1
            try:
                it.block(st.body, fr)
            except ContinueX:
                pass
            except BreakX:
                return
        it.block(st.orelse, fr)
        return
    s = Summary(it, fr, st)
    s.begin()
    if it.truth(it.ev(st.test, fr)):
        try:
            it.block(st.body, fr)
        except ContinueX:
            pass
        except BreakX:
            return
        end = getattr(it, "iter_end", None)
        if const and end is not None:
            end(it)  # the step contract of an endless loop
        s.back_edge()
    it.block(st.orelse, fr)


def cheap_concrete(it, test, fr):
    """the test has no calls and evaluates to a Python constant"""
    for n in ast.walk(test):
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == "len"):
            return False
    p = it.p
    p.noeffect += 1
    old, oldp = p.noeffect_base, p.pure
    p.noeffect_base, p.pure = len(p.objs), None
    base = len(p.buffered)
    try:
        t = it.truth_term(it.ev(test, fr))
        return isinstance(t, bool)
    except NotPure:
        return False
    finally:
        del p.buffered[base:]
        p.noeffect -= 1
        p.noeffect_base, p.pure = old, oldp


def pure_eval(it, f, assumption, limit=16):
    """Evaluate f() without effects; cases are merged: [(condition, value)], plus the facts assumed on the way.
    None if f has effects, raises or has too many cases."""
    p = it.p
    base = len(p.buffered)
    leaves = pure_leaves(it, f, assumption, limit)
    if leaves is None:
        del p.buffered[base:]
    elif not p.noeffect:
        todo, p.buffered = p.buffered, []
        for name, goal, pc in todo:
            pc, p.pc = p.pc, pc
            try:
                p.check(name, goal)
            finally:
                p.pc = pc
    return leaves


def same_state(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_state(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef):
        return a.eq(b)
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.t.eq(b.t)
    return type(a) is type(b) and isinstance(a, (int, str, float, bytes, bool)) and a == b


def per_element(p, base, j, terms):
    """Constants made while one element was evaluated are made once per element: functions of the index."""
    made = p.made[base:]
    subs = [(c, z3.Function(f"{c}!of", IntS, c.sort())(j)) for c in made]
    return [z3.substitute(t, *subs) if subs else t for t in terms]


def pure_leaves(it, f, assumption, limit):
    p = it.p
    leaves, work = [], [()]
    while work:
        prefix = work.pop()
        if len(leaves) >= limit:
            return None
        mark, cmark = len(p.pc), len(p.conds)
        p.qf.push()
        p.noeffect += 1
        old, oldp = p.noeffect_base, p.pure
        p.noeffect_base = len(p.objs)
        taken = []
        p.pure = (prefix, taken)
        ghost = dict(it.ghost.attrs)
        before = [(o, o.snap()) for o in p.objs]
        try:
            p.assume(assumption)
            v = f()
            if any(not same_state(o.snap(), b) for o, b in before):
                return None  # a contract wrote an object
            if any(it.ghost.attrs.get(g) is not x for g, x in ghost.items()) or len(ghost) != len(it.ghost.attrs):
                return None  # ghost state was written
        except (NotPure, PyRaise):
            return None
        except PathEnd:
            v = None
            leaves.append(None)
            continue
        finally:
            it.ghost.attrs.clear()
            it.ghost.attrs.update(ghost)
            for o, b in before:
                if not same_state(o.snap(), b):
                    o.restore(b)
            p.noeffect -= 1
            p.noeffect_base, p.pure = old, oldp
            extra = p.pc[mark:]
            del p.pc[mark:]
            del p.conds[cmark:]
            p.qf.pop()
        conds = [c for _, c in taken]
        facts = [x for x in extra[1:] if not any(x.eq(z3.simplify(c)) for c in conds)]
        leaves.append((conds, v, facts))
        for i in range(len(prefix), len(taken)):
            work.append(tuple(d for d, _ in taken[:i]) + (not taken[i][0],))
    return [x for x in leaves if x is not None]


def pure_map(it, i, f):
    """[f(k) for k in range(n)] as one solver term, or None if f has effects"""
    p = it.p
    n = i.n()
    j = p.fresh("jmap", IntS)
    base = len(p.made)
    leaves = pure_eval(it, lambda: f(Sym(j, "int")), z3.And(0 <= j, j < zt(n)))
    if not leaves:
        return None
    jj = z3.Int("j!lam")
    try:
        el = elem_of(it, [v for _, v, _ in leaves])
        t = None
        for conds, v, facts in reversed(leaves):
            vt, *cs = per_element(p, base, j, [enc(it, el, v), *conds])
            t = vt if t is None else z3.If(z3.And(*cs), vt, t)
    except Unsupported:
        return None
    for conds, v, facts in leaves:
        conds = per_element(p, base, j, conds)
        for x in per_element(p, base, j, facts):
            if has_quant(x):
                continue
            # facts about the j-th element hold for every j in range
            y = z3.substitute(z3.Implies(z3.And(0 <= j, j < zt(n), *conds), x), (j, jj))
            if z3.substitute(x, (j, jj)).eq(x) and not conds:
                p.assume(x)
            else:
                p.assume(z3.ForAll([jj], y))
    arr = z3.Lambda([jj], z3.substitute(t, (j, jj)))
    src = i.src
    l = p.reg(ListObj(n=zt(n), arr=arr, el=el))
    if isinstance(src, ListObj) and src.items is None and src.el.sort == el.sort:
        b = z3.simplify(z3.substitute(t, (j, jj)))
        if b.eq(z3.simplify(src.arr[jj])):
            l.arr, l.cnt = src.arr, dict(src.cnt)
            return l
    it.cnt_facts(l)
    return l


def comprehension(it, e, fr):
    if len(e.generators) > 1:
        return comp_loop(it, e, fr)
    g = e.generators[0]
    v = it.ev(g.iter, fr)
    i = it.iter(v)
    n = i.n()
    if isinstance(n, int):
        return comp_loop(it, e, fr, v)
    if not g.ifs:
        cf = comp_frame(fr)

        def f(k):
            it.assign(g.target, i.get(k), cf)
            return it.ev(e.elt, cf)

        r = pure_map(it, i, f)
        if r is not None:
            return r
    return comp_loop(it, e, fr, v)


def comp_frame(fr):
    cf = Frame(fr.fn, fr.mod, fr.cls, fr, {})
    cf.locals_ = set()
    return cf


def comp_loop(it, e, fr, first=None):
    cf = comp_frame(fr)
    res = it.mklist([])
    cf.vars["<result>"] = res
    gens = e.generators

    def run(gi):
        if gi == len(gens):
            append(it, cf.vars["<result>"], it.ev(e.elt, cf))
            return
        g = gens[gi]
        v = first if gi == 0 and first is not None else it.ev(g.iter, cf if gi else fr)

        def body():
            for c in g.ifs:
                if not it.truth(it.ev(c, cf)):
                    raise ContinueX()
            run(gi + 1)

        run_for(it, cf, e, v, lambda x: it.assign(g.target, x, cf), body, lambda: None, tag=f"comp{gi}")

    run(0)
    return cf.vars["<result>"]


def dict_comprehension(it, e, fr):
    g = e.generators[0]
    if len(e.generators) > 1:
        raise Unsupported("dict comprehension with several generators")
    v = it.ev(g.iter, fr)
    i = it.iter(v)
    n = i.n()
    cf = comp_frame(fr)
    if isinstance(n, int):
        d = it.mkdict({})
        for k in range(n):
            it.assign(g.target, i.get(k), cf)
            if all(it.truth(it.ev(c, cf)) for c in g.ifs):
                it.setitem(d, it.ev(e.key, cf), it.ev(e.value, cf))
        return d
    if g.ifs:
        raise Unsupported("filtered dict comprehension")

    def get(k):
        it.assign(g.target, i.get(k), cf)
        return it.mktuple([it.ev(e.key, cf), it.ev(e.value, cf)])

    r = it.dict_from_pairs(Iter(i.n, get, src=i.src))
    if r is not None:
        return r
    # the elements have effects or may raise: a loop
    d = it.p.reg(DictObj(dom=z3.K(U, z3.BoolVal(False)), val=it.p.fresh("dc_val", z3.ArraySort(U, U)), el=EU(None)))
    cf.vars["<result>"] = d
    run_for(it, cf, e, v, lambda x: it.assign(g.target, x, cf), lambda: it.setitem(cf.vars["<result>"], it.ev(e.key, cf), it.ev(e.value, cf)), lambda: None, tag="dcomp")
    return cf.vars["<result>"]
