"""C03: stores return what was put."""
from contracts.store import *

UNITS = []
NOTE = (
    "Proof, for all store contents, identifiers and values, of every method of LocalObjectStore, of the form selection of the MPI ObjectStore and of the sequential and multiprocessing stores; "
    "the shared-memory form is proved under C08; histories on whole clusters are run (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = ["a weakref.WeakKeyDictionary behaves as a dictionary while its keys are alive", "deserialize(serialize(v)) is v (C10)", "the dictionary of a multiprocessing Manager behaves as a dictionary"]


def put_like(fname, mapname, elty, arg):
    def fn(p):
        it = Interp(p)
        o, me = local_store(p, it)
        i, x = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID")
        v = arg(p)
        b = maps(o)
        it.call(meth(it, o, fname), [i, v])
        d = o.attrs[mapname]
        p.check("the value is kept under its identifier", z3.And(d.dom[i.t], d.val[i.t] == enc(it, d.el, v)))
        p.check("other identifiers are not affected", z3.Implies(x.t != i.t, unchanged(o, b, x.t)))
        p.check("the other maps of the identifier are not affected", unchanged(o, b, i.t, but=(mapname, "_data_id_map")))
        h = o.attrs["_data_id_map"]
        bd, bv = b["_data_id_map"]
        p.check("a foreign identifier is kept alive, once; an own one is not", z3.And(h.dom[i.t] == z3.Or(bd[i.t], OWNER(i.t) != me.t), z3.Implies(bd[i.t], h.val[i.t] == bv[i.t]), z3.Implies(z3.And(h.dom[i.t], z3.Not(bd[i.t])), h.val[i.t] == i.t)))
        p.post()

    return fn


UNITS.append(Unit("LocalObjectStore.put", put_like("put", "_data_map", None, lambda p: p.u("value"))))
UNITS.append(Unit("LocalObjectStore.put_data_owner", put_like("put_data_owner", "_data_owner_map", None, lambda p: p.int("rank"))))


def read_unit(cname, gname, mapname):
    def fn(p):
        it = Interp(p)
        o, me = local_store(p, it)
        i, x = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID")
        b = maps(o)
        d0, v0 = b[mapname]
        c = it.call(meth(it, o, cname), [i])
        p.check("contains answers whether there is a value", boolt(c) == d0[i.t])
        k, r = call_catch(it, meth(it, o, gname), [i])
        if k == "ret":
            p.check("the stored value is returned", z3.And(d0[i.t], enc(it, o.attrs[mapname].el, r) == v0[i.t]))
            p.cover("there")
        else:
            p.check("reading fails exactly if there is no value", z3.Not(d0[i.t]))
            p.cover("absent")
        p.check("reading changes nothing", z3.And(unchanged(o, b, x.t), unchanged(o, b, i.t)))
        p.post()

    return fn


UNITS.append(Unit("LocalObjectStore.contains / get", read_unit("contains", "get", "_data_map")))
UNITS.append(Unit("LocalObjectStore.contains_data_owner / get_data_owner", read_unit("contains_data_owner", "get_data_owner", "_data_owner_map")))
UNITS.append(Unit("LocalObjectStore.is_already_serialized / get_serialized_data", read_unit("is_already_serialized", "get_serialized_data", "_serialization_cache")))


@unit(UNITS, "LocalObjectStore.cache_send_info / is_already_sent")
def u_sent(p):
    it = Interp(p)
    o, me = local_store(p, it)
    i, x = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID")
    r, q = p.int("rank"), p.int("other_rank")
    b = maps(o)
    was = lambda a, c: boolt(it.call(meth(it, o, "is_already_sent"), [a, c]))
    w = z3.And(x.t == i.t, q.t == r.t)
    before = was(x, q)
    it.call(meth(it, o, "cache_send_info"), [i, r])
    after = was(x, q)
    p.check("exactly the pair of object and rank is recorded", after == z3.Or(before, w))
    p.check("no other map changes", unchanged(o, b, x.t, but=("_sent_data_map",)))
    p.post()


@unit(UNITS, "LocalObjectStore.cache_serialized_data")
def u_cache(p):
    it = Interp(p)
    o, me = local_store(p, it)
    i, x = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID")
    b = maps(o)
    BYTES = z3.Function("as_bytes", U, U)

    def attr(it_, v, name):
        if isinstance(v, Sym) and v.ty == "buffer" and name in ("tobytes",):
            return Builtin(name, lambda i_, a, k: Sym(BYTES(v.t), "u", "buffer"))
        return data_id_attr(it_, v, name)

    it.attr_hook = attr
    raw = symlist(it, "raw_buffers", EU("buffer"))
    n0, arr0 = raw.n, raw.arr
    y = z3.Const("y!by", U)
    # a buffer and its bytes have the same content
    p.assume(z3.ForAll([y], BYTES(BYTES(y)) == BYTES(y), patterns=[BYTES(BYTES(y))]))
    d = {"s_data": p.u("s_data"), "raw_buffers": raw, "buffer_count": p.u("buffer_count")}
    data = p.reg(DictObj(items=dict(d)))
    k, r = call_catch(it, meth(it, o, "cache_serialized_data"), [i, data])
    p.check("no exception", k == "ret")
    S = o.attrs["_serialization_cache"]
    p.check("the given data is kept", z3.And(S.dom[i.t], S.val[i.t] == it.box(data)))
    p.check("its main part and counts are not changed", data.items["s_data"] is d["s_data"] and data.items["buffer_count"] is d["buffer_count"])
    a, n = view(it, data.items["raw_buffers"], EU("buffer"))
    q = p.int("index").t
    p.check("it has as many buffers", n == n0)
    p.check("each with the same content, in order", z3.Implies(z3.And(0 <= q, q < n), z3.Or(a[q] == arr0[q], a[q] == BYTES(arr0[q]))))
    p.check("other identifiers are not affected", z3.Implies(x.t != i.t, unchanged(o, b, x.t)))
    p.check("no other form of the object is affected", unchanged(o, b, i.t, but=("_serialization_cache", "_data_id_map")))
    p.post()


@unit(UNITS, "LocalObjectStore.clear")
def u_clear(p):
    it = Interp(p)
    o, me = local_store(p, it)
    e = p.u("e", "MpiDataID")
    p.track("e", e.t)
    l = symlist(it, "cleanup", EU("MpiDataID"))
    it.cnt_facts(l)
    b = maps(o)
    bd, bv = b["_data_id_map"]

    def inv(it_, s, k):
        h = o.attrs["_data_id_map"]
        if s.srcl is None:
            return []
        return [
            ("listed so far are gone", h.dom[e.t] == z3.And(bd[e.t], pcnt(l.arr, e.t, k) == 0)),
            ("values stay", z3.Implies(h.dom[e.t], h.val[e.t] == bv[e.t])),
        ]

    it.inv.append(inv)
    k, r = call_catch(it, meth(it, o, "clear"), [l])
    p.check("no exception", k == "ret")
    h = o.attrs["_data_id_map"]
    p.check("the hold on exactly the listed identifiers ends", h.dom[e.t] == z3.And(bd[e.t], cnt_of(it, l, "e") == 0))
    p.check("other holds stay", z3.Implies(h.dom[e.t], h.val[e.t] == bv[e.t]))
    p.check("values are not touched", unchanged(o, b, e.t, but=("_data_id_map",)))
    p.post()


# ---- the MPI object store: plain, serialized, shared ------------------------------------------------
VALUE = z3.Function("value_of", U, U)
SHARED = z3.Function("in_shared_memory", U, BoolS)
OST = MPI + "object_store"


class Shared(Native):
    def m_contains(self, it, data_id):
        return Sym(SHARED(data_id.t), "bool")

    def m_get(self, it, data_id, *a):
        it.p.check("requires: an object read from shared memory is there", SHARED(data_id.t))
        return Sym(VALUE(data_id.t), "u")


ITEM = z3.Function("item_at", U, U, U)


@unit(UNITS, "mpi ObjectStore.contains / get")
def u_ost(p):
    it = Interp(p)
    o, me = local_store(p, it)
    i, x = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID")
    b = maps(o)
    D, S = o.attrs["_data_map"], o.attrs["_serialization_cache"]
    # representation invariant: every form of an object stands for its value
    y = z3.Const("y!rep", U)
    PART = {n: z3.Function("serialized_" + n, U, U) for n in ("s_data", "raw_buffers", "buffer_count")}
    p.assume(z3.ForAll([y], z3.Implies(D.dom[y], D.val[y] == VALUE(y))))
    for n, f in PART.items():
        p.assume(z3.ForAll([y], z3.Implies(S.dom[y], ITEM(S.val[y], it.str_const(n)) == f(VALUE(y)))))

    def deser(it_, v):
        a = [it_.box(v[q]) for q in list(v)[:3]]
        t = z3.Const("v!des", U)
        w = it_.p.fresh("deserialized", U)
        fs = [PART["s_data"], PART["raw_buffers"], PART["buffer_count"]]
        # contract of C10: the parts of one value give that value back
        it_.p.assume(z3.ForAll([t], z3.Implies(z3.And(*[q == f(t) for q, f in zip(a, fs)]), w == t)))
        return Sym(w, "u")

    it.summaries[MPI + "serialization:deserialize_complex_data"] = deser
    it.gover[(OST, "LocalObjectStore")] = Single(o)
    it.gover[(OST, "SharedObjectStore")] = Single(Shared())
    st = new(it, glob(it, OST, "ObjectStore"))
    c = boolt(it.call(meth(it, st, "contains"), [i]))
    has = z3.Or(b["_data_map"][0][i.t], b["_serialization_cache"][0][i.t], SHARED(i.t))
    p.check("contains exactly if some form of the object is there", c == has)
    k, r = call_catch(it, meth(it, st, "get"), [i])
    if k == "exc":
        p.check("reading fails exactly if the store does not contain the object", z3.Not(has))
        p.cover("absent")
    else:
        p.check("what it reports as contained can be read, and nothing else", has)
        p.check("the value of the object is returned", it.box(r) == VALUE(i.t))
        p.check("the stores go on standing for the value", z3.And(D.dom[i.t], D.val[i.t] == VALUE(i.t)))
        p.cover("found")
    p.check("reading one object leaves the others as they were", z3.Implies(x.t != i.t, unchanged(o, b, x.t)))
    p.post()


# ---- sequential and multiprocessing stores -----------------------------------------------------------
@unit(UNITS, "pyseq ObjectStore.put")
def u_pyseq(p):
    it = Interp(p)
    mod = "unidist.core.backends.pyseq.core.object_store"
    o = new(it, glob(it, mod, "ObjectStore"))
    d = sym_dict(it, "store", EU(None), keyty="DataID")
    o.attrs["store"] = d
    d0, v0 = d.dom, d.val
    v, x = p.u("value"), p.u("other", "DataID")
    i = p.u("data_id", "DataID")
    r = it.call(meth(it, o, "put"), [v, i])
    d = o.attrs["store"]
    p.check("the identifier is returned", same_value(it, r, i))
    p.check("the value is kept under its identifier", z3.And(d.dom[i.t], d.val[i.t] == v.t))
    p.check("other identifiers are not affected", z3.Implies(x.t != i.t, z3.And(d.dom[x.t] == d0[x.t], d.val[x.t] == v0[x.t])))
    p.post()


@unit(UNITS, "multiprocessing ObjectStore.put")
def u_pymp(p):
    it = Interp(p)
    mod = "unidist.core.backends.pymp.core.object_store"
    DUMP, FRESH = z3.Function("dumps", U, U), z3.Function("is_callable", U, BoolS)
    it.ext["cloudpickle"] = ExtModule("cloudpickle")
    it.ext["cloudpickle.dumps"] = Builtin("dumps", lambda i, a, k: Sym(DUMP(i.box(a[0])), "u", "bytes"))
    it.gover[(mod, "DataID")] = Builtin("DataID", lambda i, a, k: i.p.u("new_id", "DataID"))
    log = []

    class Store(Native):
        def setitem(self, it_, k, v):
            log.append((k, v))

    o = new(it, glob(it, mod, "ObjectStore"))
    o.attrs["store_delayed"] = Store()
    v = p.u("value")
    given = p.choose(2)
    i = p.u("data_id", "DataID")
    k, r = call_catch(it, meth(it, o, "put"), [v, i] if given else [v])
    p.check("no exception", k == "ret")
    if k != "ret":
        return
    p.check("the identifier is returned", same_value(it, r, i) if given else isinstance(r, Sym) and r.ty == "DataID")
    p.check("there is one entry, of that identifier", len(log) == 1 and same_value(it, log[0][0], r))
    if len(log) != 1:
        return
    e = log[0][1]
    if isinstance(e, Sym):
        p.check("a value that is not callable is kept as it is", z3.And(e.t == v.t, z3.Not(FRESH(v.t))))
        p.cover("value")
    else:
        d = e.attrs.get("data") if hasattr(e, "attrs") else None
        p.check("a callable is kept in its serialized form", z3.And(FRESH(v.t), it.box(d) == DUMP(v.t)) if getattr(e.cls, "name", "") == "SerializedCallable" and d is not None else False)
        p.cover("callable")
    p.post()


@unit(UNITS, "MPI controller.api.put")
def u_mpi_put(p):
    it = Interp(p)
    mod = "unidist.core.backends.mpi.core.controller.api"
    SER = z3.Function("serialized", U, U)
    new_id = p.u("new_id", "MpiDataID")
    v = p.u("value")
    alloc = p.bool("allocated")
    log = []
    gen = []

    class Local(Native):
        def m_generate_data_id(self, it_, gc):
            gen.append(gc)
            return new_id

        def m_cache_serialized_data(self, it_, i, d):
            log.append(("local", i, it_.box(d)))

        def m_put(self, it_, i, d):
            log.append(("value", i, it_.box(d)))

    class Shared(Native):
        def m_is_allocated(self, it_):
            return alloc

        def m_put(self, it_, i, d):
            it_.p.check("requires: the shared store is allocated", alloc.t)
            log.append(("shared", i, it_.box(d)))

    it.gover[(mod, "LocalObjectStore")] = Single(Local())
    it.gover[(mod, "SharedObjectStore")] = Single(Shared())
    it.gover[(mod, "serialize_complex_data")] = Builtin("serialize_complex_data", lambda i, a, k: Sym(SER(i.box(a[0])), "u"))
    gc = p.u("garbage_collector")
    it.gover[(mod, "garbage_collector")] = gc
    k, r = call_catch(it, glob(it, mod, "put"), [v])
    p.check("no exception", k == "ret")
    if k != "ret":
        return
    p.check("one new identifier, watched by the garbage collector of the controller, is returned", len(gen) == 1 and same_value(it, gen[0], gc) and same_value(it, r, new_id))
    p.check("the value has exactly one form", len(log) == 1)
    if len(log) == 1:
        w, i, d = log[0]
        p.check("under the new identifier", same_value(it, i, new_id))
        p.check("it is that of the value", d == (v.t if w == "value" else SER(v.t)))
        p.cover(w)
    p.post()
