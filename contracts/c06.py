"""C06: identifiers."""
from contracts.store import *

UNITS = []
NOTE = (
    "Proof, for all ranks, counters and numbers of results, of the generation, pickled state, cleanup report, equality and numeric form of identifiers; "
    "object identity across pickling in real processes and the instance cache are also run (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = [
    "int formatting is injective and contains no underscore, so the text rank_<r>_id_<n> determines r and n",
    "uuid.uuid4 gives distinct values (sequential and multiprocessing backends)",
    "a weakref.WeakValueDictionary holds an entry exactly as long as its value is alive",
]
COMMON = MPI + "common"


class Gc(Native):
    def __init__(self):
        self.got = []

    def m_collect(self, it, x):
        self.got.append(x)


def mk(it, made):
    def f(it_, a, k):
        names = ["owner_rank", "data_number", "gc"]
        d = dict(zip(names, a))
        d.update(k)
        v = it_.p.u("new_id", "MpiDataID")
        it_.p.assume(z3.And(OWNER(v.t) == intt(d["owner_rank"]), NUMBER(v.t) == intt(d["data_number"])))
        made.append((intt(d["owner_rank"]), intt(d["data_number"]), d.get("gc")))
        return v

    return Builtin("MpiDataID", f)


@unit(UNITS, "LocalObjectStore.generate_data_id")
def u_gen(p):
    it = Interp(p)
    o, me = local_store(p, it)
    made, gc = [], Gc()
    it.gover[(COMMON, "MpiDataID")] = mk(it, made)
    c0 = o.attrs["_data_id_counter"].t
    b = maps(o)
    x = p.u("other", "MpiDataID")
    r = it.call(meth(it, o, "generate_data_id"), [gc])
    p.check("one identifier is made", len(made) == 1)
    rk, nr, g = made[0]
    p.check("it carries the rank of the creating process", rk == me.t)
    p.check("its number was never used by this process", nr >= c0)
    p.check("later numbers are larger", intt(o.attrs["_data_id_counter"]) > nr)
    p.check("the counter never goes back", intt(o.attrs["_data_id_counter"]) > c0)
    p.check("the creating process tracks it", g is gc)
    p.check("the identifier is returned", isinstance(r, Sym) and r.ty == "MpiDataID")
    p.check("nothing else is recorded for any identifier", unchanged(o, b, x.t))
    p.post()


def gen_sum(gc0):
    """contract of generate_data_id proved above"""

    def f(it_, v):
        o = v["self"]
        it_.p.check("the creating process tracks its identifiers", v["gc"] is gc0)
        c = intt(o.attrs["_data_id_counter"])
        x = it_.p.fresh("new_id", U)
        it_.p.assume(NUMBER(x) == c)
        it_.p.assume(OWNER(x) == intt(it_.gover[(MPI + "communication", "MPIState")].st.f_global_rank))
        o.attrs["_data_id_counter"] = mkint(c + 1)
        return Sym(x, "u", "MpiDataID")

    return f


def out_unit(case):
    def fn(p):
        it = Interp(p)
        o, me = local_store(p, it)
        gc = Gc()
        it.summaries[LOS + ":LocalObjectStore.generate_data_id"] = gen_sum(gc)
        dest = p.int("dest")
        c0 = o.attrs["_data_id_counter"].t
        b = maps(o)
        OW = o.attrs["_data_owner_map"]
        d0 = OW.dom
        ow0 = OW.val
        # fresh identifiers are not yet known to the store
        x = z3.Const("x!fr", U)
        p.assume(z3.ForAll([x], z3.Implies(z3.And(OWNER(x) == me.t, NUMBER(x) >= c0), z3.Not(d0[x])), patterns=[d0[x]]))
        n = p.int("num_returns")
        p.input("num_returns", n)
        p.assume(n.t >= 2 if case == "n" else n.t == int(case))
        j, i = z3.Ints("j!o i!o")
        lists = lambda s: [(nm, v) for nm, v in local_lists(s)]

        def inv(it_, s, k):
            out = [("counter", intt(o.attrs["_data_id_counter"]) == c0 + k)]
            D = o.attrs["_data_owner_map"]
            for nm, l in lists(s):
                a, m = view(it_, l, EU("MpiDataID"))
                if a is None:
                    continue
                out.append((f"{nm}: numbers", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(NUMBER(a[j]) == c0 + j, OWNER(a[j]) == me.t)), patterns=[a[j]] if z3.is_const(a) else [])))
                out.append((f"{nm}: owners", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(D.dom[a[j]], D.val[a[j]] == dest.t)), patterns=[a[j]] if z3.is_const(a) else [])))
                out.append((f"{nm}: length", m == n.t))
            return out

        it.inv.append(inv)
        k, r = call_catch(it, meth(it, o, "generate_output_data_id"), [dest, gc], {"num_returns": n})
        p.check("no exception", k == "ret")
        if k != "ret":
            return
        D = o.attrs["_data_owner_map"]
        q = p.int("index").t
        if case == "0":
            p.check("no results: no identifier", r is None)
        elif case == "1":
            p.check("one result: one identifier with a new number", isinstance(r, Sym) and r.ty == "MpiDataID" and NUMBER(r.t) == c0)
            p.check("the executing worker is recorded as its owner", z3.And(D.dom[r.t], D.val[r.t] == dest.t))
        else:
            p.check("several results: a list", isinstance(r, ListObj) and not r.tup)
            a, m = view(it, r, EU("MpiDataID"))
            p.check("several results: as many identifiers", m == n.t)
            p.assume(z3.And(0 <= q, q < n.t))
            p.check("several results: the numbers are new and distinct", NUMBER(a[q]) == c0 + q)
            p.check("the executing worker is recorded as the owner of each", z3.And(D.dom[a[q]], D.val[a[q]] == dest.t))
        p.check("as many numbers are used up as identifiers are made", intt(o.attrs["_data_id_counter"]) == c0 + n.t)
        p.post()

    return fn


for c in ("0", "1", "n"):
    UNITS.append(Unit(f"LocalObjectStore.generate_output_data_id: num_returns = {c}", out_unit(c), budget=120))


def instance(p, it, gc):
    cls = glob(it, COMMON, "MpiDataID")
    o = new(it, cls)
    r, n = p.int("rank"), p.int("number")
    it.call(it.class_lookup(cls, "__init__"), [o, r, n] + ([gc] if gc is not None else []))
    return cls, o, r, n


@unit(UNITS, "MpiDataID: state")
def u_state(p):
    it = Interp(p)
    gc = Gc() if p.choose(2) else None
    cls, o, r, n = instance(p, it, gc)
    p.check("rank and number are kept", z3.And(intt(o.attrs["owner_rank"]) == r.t, intt(o.attrs["data_number"]) == n.t))
    p.check("the collector is kept", o.attrs["_gc"] is gc)
    before = dict(o.attrs)
    st = it.call(meth(it, o, "__getstate__"), [])
    p.check("a dictionary", isinstance(st, DictObj) and st.items is not None)
    keys = {k for k in st.items}
    kv = {it.from_hkey(k): v for k, v in st.items.items()}
    p.check("the collector does not travel", "_gc" not in kv)
    p.check("everything else does", set(kv) == set(before) - {"_gc"} and all(kv[k] is before[k] for k in kv))
    p.check("the original keeps everything", o.attrs.keys() == before.keys() and all(o.attrs[k] is before[k] for k in before))
    a = it.call(meth(it, o, "__getnewargs__"), [])
    x, y = it.unpack(a, 2)
    p.check("it is restored under its rank and number", z3.And(intt(x) == r.t, intt(y) == n.t))
    p.post()


@unit(UNITS, "MpiDataID.__del__")
def u_del(p):
    it = Interp(p)
    gc = Gc()
    case = p.choose(3)
    cls, o, r, n = instance(p, it, gc if case == 0 else None)
    if case == 2:
        del o.attrs["_gc"]
    it.call(meth(it, o, "__del__"), [])
    if case == 0:
        p.check("the creating process reports it exactly once", len(gc.got) == 1)
        if len(gc.got) == 1:
            x, y = it.unpack(gc.got[0], 2)
            p.check("under its rank and number", z3.And(intt(x) == r.t, intt(y) == n.t))
        p.cover("own")
    else:
        p.check("a restored copy is never reported", len(gc.got) == 0)
        p.cover("copy")
    p.post()


class Registry(Native):
    """a dictionary with few entries whose keys may be symbolic: a lookup branches on the equality with each of them"""

    def __init__(self):
        self.entries = []

    def find(self, it, k):
        for i, (x, v) in enumerate(self.entries):
            if it.truth(it.equal(k, x)):
                return i
        return None

    def contains(self, it, k):
        return self.find(it, k) is not None

    def getitem(self, it, k):
        i = self.find(it, k)
        if i is None:
            raise PyRaise(it.mkexc("KeyError"))
        return self.entries[i][1]

    def setitem(self, it, k, v):
        i = self.find(it, k)
        if i is None:
            self.entries.append((k, v))
        else:
            self.entries[i] = (self.entries[i][0], v)

    def m_get(self, it, k, default=None):
        i = self.find(it, k)
        return default if i is None else self.entries[i][1]

    def m_setdefault(self, it, k, v=None):
        i = self.find(it, k)
        if i is None:
            self.entries.append((k, v))
            return v
        return self.entries[i][1]


def text(it, parts):
    """decimal numbers separated by texts: determined by the numbers if no separator is empty, starts or ends with a digit or holds a minus sign"""
    if not all(isinstance(x, (str, Sym)) and (isinstance(x, str) or x.k == "int") for x in parts):
        return NotImplemented
    shape = "|".join(x if isinstance(x, str) else "{}" for x in parts)
    nums = [x for x in parts if not isinstance(x, str)]
    r = it.opaque_fn("fmt:" + shape, nums, "str")
    prev, clear = None, True
    for x in parts:
        if isinstance(x, str):
            clear = clear and x != "" and not any(c.isdigit() or c == "-" for c in x)
        elif prev is not None and not isinstance(prev, str):
            clear = False
        prev = x
    if clear:
        for i, x in enumerate(nums):
            it.p.assume(z3.Function(f"inv:{shape}:{i}", U, IntS)(r.t) == x.t)
    return r


@unit(UNITS, "MpiDataID: identifiers for any ranks and numbers")
def u_new(p):
    regs = []

    def reg(it_, a, k):
        regs.append(Registry())
        return regs[-1]

    it = Interp(p, ext={"weakref": ExtModule("weakref"), "weakref.WeakValueDictionary": Builtin("WeakValueDictionary", reg)})
    it.fstring_hook = text
    cls = glob(it, COMMON, "MpiDataID")
    r, n = [p.int(f"rank{i}") for i in range(2)], [p.int(f"number{i}") for i in range(2)]
    for x in r + n:
        p.assume(x.t >= 0)
    a = it.call(cls, [r[0], n[0]])
    b = it.call(cls, [r[1], n[1]])
    same = z3.And(r[0].t == r[1].t, n[0].t == n[1].t)
    p.check("one instance for one rank and number, another one for another rank or number", z3.BoolVal(a is b) == same)
    for o, i in ((a, 0), (b, 1)):
        p.check("rank and number are kept", z3.And(intt(o.attrs["owner_rank"]) == r[i].t, intt(o.attrs["data_number"]) == n[i].t))
    eq = it.truth(it.call(it.class_lookup(cls, "__eq__"), [a, b]))
    p.check("identifiers are equal exactly for equal ranks and numbers", z3.BoolVal(bool(eq)) == same)
    p.cover("same" if a is b else "other")
    p.post()


@unit(UNITS, "DataID: equality and hash")
def u_eq(p):
    class Uuid(Native):
        def __init__(self, v):
            self.f_hex = v

    made = []

    def uuid4(it_, a, k):
        v = it_.p.u("uuid", "str")
        for w in made:
            it_.p.assume(v.t != w.t)
        made.append(v)
        return Uuid(v)

    it = Interp(p, ext={"uuid": ExtModule("uuid"), "uuid.uuid4": Builtin("uuid4", uuid4)})
    cls = glob(it, "unidist.core.backends.common.data_id", "DataID")
    f, g = it.call(cls, []), it.call(cls, [])
    p.check("two new identifiers are different", z3.Not(boolt(it.call(it.class_lookup(cls, "__eq__"), [f, g]))))
    x, y = p.u("id1", "str"), p.u("id2", "str")
    a, b = it.call(cls, [x]), it.call(cls, [y])
    e = it.call(it.class_lookup(cls, "__eq__"), [a, b])
    p.check("equal exactly if the values are equal", boolt(e) == (x.t == y.t))
    h1, h2 = it.call(it.class_lookup(cls, "__hash__"), [a]), it.call(it.class_lookup(cls, "__hash__"), [b])
    p.check("equal identifiers have equal hashes", z3.Implies(boolt(e), boolt(it.equal(h1, h2))))
    p.check("an identifier never equals another kind of object", z3.Not(boolt(it.call(it.class_lookup(cls, "__eq__"), [a, 5]))))
    p.post()
