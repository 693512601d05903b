"""C02: get returns values in request order and raises a task's failure."""
from contracts.store import *

UNITS = []
NOTE = (
    "Proof, for all lists of references (any length, duplicates), store contents and orders of arrival, of get of the sequential, multiprocessing and MPI backends, of request_worker_data (one request per missing object, "
    "all replies taken before a failure is raised) and of pull_data; the answering side is proved under C14. Whole clusters are run (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = [
    "an owner answers a blocking request exactly once, with the value of the requested object (C14)",
    "the dictionary of a multiprocessing Manager behaves as a dictionary, and a Delayed entry is replaced at some time",
    "asyncio and the futures of Dask (Client.gather) behave as documented",
]
ISEXC = z3.Function("is_exception", U, BoolS)
CT = MPI + "controller."


def exceptions(it, *more):
    it.p.assume(z3.Not(ISEXC(NONE)))
    def h(it_, v, t):
        nm = getattr(t, "name", None)
        if isinstance(v, Sym) and v.k == "u":
            for m in more:
                r = m(it_, v, nm)
                if r is not NotImplemented:
                    return r
            if nm in ("Exception", "BaseException"):
                return ISEXC(v.t) if v.ty is None else False
            if nm in ("list", "tuple", "dict", "set"):
                return False
        return NotImplemented

    it.isinst_hook = h


def ids_or_one(p, it, ty):
    """a list of references, or one"""
    if p.choose(2):
        l = symlist(it, "data_ids", EU(ty))
        return l, l.arr, l.n, True
    x = p.u("data_id", ty)
    return x, None, None, False


def result_checks(p, it, k, r, arg, arr, n, is_list, VAL, one):
    q = p.int("index").t
    if is_list:
        rng = z3.And(0 <= q, q < zt(n))
        if k == "ret":
            p.check("a list of references gives a list", isinstance(r, ListObj) and not r.tup)
            if not isinstance(r, ListObj):
                return
            a, m = view(it, r, EU(None))
            p.check("as long as the list of references", m == zt(n))
            if a is None:
                raise Unsupported("result of another sort")
            p.check("the i-th value belongs to the i-th reference", z3.Implies(rng, a[q] == VAL(arr[q])))
            p.check("a failure is never returned", z3.Implies(rng, z3.Not(ISEXC(a[q]))))
            p.cover("list")
        else:
            if not isinstance(r, Sym):
                p.check("only the failure of a task is raised", z3.BoolVal(False))
                return
            j = z3.Int("j!r")
            p.check("only the failure of a task is raised", z3.And(ISEXC(r.t), z3.Exists([j], z3.And(0 <= j, j < zt(n), VAL(arr[j]) == r.t))))
            p.cover("failed list")
    else:
        if k == "ret":
            p.check("the value of the reference is returned", z3.And(enc(it, EU(None), r) == VAL(arg.t), z3.Not(ISEXC(VAL(arg.t)))) if isinstance(r, Sym) else False)
            p.cover("one")
        else:
            p.check("the failure of the task is raised", z3.And(ISEXC(VAL(arg.t)), r.t == VAL(arg.t)) if isinstance(r, Sym) else False)
            p.cover("failed one")
    p.post()


@unit(UNITS, "sequential ObjectStore.get")
def u_pyseq(p):
    it = Interp(p)
    M = "unidist.core.backends.pyseq.core.object_store"
    exceptions(it, lambda i, v, nm: (v.ty == "DataID") if nm == "DataID" else NotImplemented)
    o = new(it, glob(it, M, "ObjectStore"))
    d = sym_dict(it, "store", EU(None), keyty="DataID")
    o.attrs["store"] = d
    dom, val = d.dom, d.val
    arg, arr, n, is_list = ids_or_one(p, it, "DataID")
    y = z3.Const("y!k", U)
    p.assume(z3.ForAll([y], dom[y], patterns=[dom[y]]))
    k, r = call_catch(it, meth(it, o, "get"), [arg])
    p.check("reading changes nothing", o.attrs["store"] is d and z3.is_true(z3.simplify(z3.And(d.dom == dom, d.val == val))))
    result_checks(p, it, k, r, arg, arr, n, is_list, lambda t: val[t], None)


@unit(UNITS, "multiprocessing ObjectStore.get")
def u_pymp(p):
    it = Interp(p)
    M = "unidist.core.backends.pymp.core.object_store"
    PICKLED = z3.Function("is_pickled_callable", U, BoolS)
    DATA = z3.Function("pickled_bytes", U, U)
    LOADS = z3.Function("loads", U, U)
    y = z3.Const("y!k", U)

    def more(i, v, nm):
        if nm == "DataID":
            return v.ty == "DataID"
        if nm == "Delayed":
            return ISDEL(v.t)
        if nm == "SerializedCallable":
            return PICKLED(v.t)
        return NotImplemented

    exceptions(it, more)
    ISDEL, UNTIL, READ = z3.Function("is_delayed", U, BoolS), z3.Function("available_at", U, IntS), z3.Function("entry_at", U, IntS, U)
    it.ghost.attrs["clock"] = p.int("clock")
    STORED = z3.Function("stored", U, U)

    class Store(Native):
        """the shared dictionary: what an entry finally holds is fixed; before that it may be Delayed"""

        def getitem(self, it_, key):
            g = it_.ghost.attrs
            c = it_.p.int("time")
            it_.p.assume(c.t >= intt(g["clock"]))
            g["clock"] = c
            v = READ(key.t, c.t)
            it_.p.assume(ISDEL(v) == (c.t < UNTIL(key.t)))
            it_.p.assume(z3.Implies(c.t >= UNTIL(key.t), v == STORED(key.t)))
            return Sym(v, "u")

    p.assume(z3.ForAll([y], z3.Not(ISDEL(STORED(y)))))
    p.assume(z3.ForAll([y], z3.Implies(ISDEL(y), z3.Not(z3.Or(ISEXC(y), PICKLED(y))))))
    it.ext["cloudpickle"] = ExtModule("cloudpickle")
    it.ext["cloudpickle.loads"] = Builtin("loads", lambda i, a, k: Sym(LOADS(a[0].t), "u"))
    p.assume(z3.ForAll([y], z3.Implies(PICKLED(STORED(y)), z3.And(z3.Not(ISEXC(STORED(y))), z3.Not(ISEXC(LOADS(DATA(STORED(y)))))))))
    VAL = lambda t: z3.If(PICKLED(STORED(t)), LOADS(DATA(STORED(t))), STORED(t))

    def attr(it_, v, name):
        if isinstance(v, Sym) and v.k == "u" and name == "data":
            return Sym(DATA(v.t), "u")
        return NotImplemented

    it.attr_hook = attr
    o = new(it, glob(it, M, "ObjectStore"))
    o.attrs["store_delayed"] = Store()
    arg, arr, n, is_list = ids_or_one(p, it, "DataID")

    def inv(it_, s, k):
        out = []
        if is_list and s.srcl is not None and s.srcl[2].sort == U:
            sa = s.srcl[0]
            j = z3.Int("j!inv")
            for nm, l in local_lists(s):
                if l.items is None and l.arr.sort() == z3.ArraySort(IntS, U) and l is not arg:
                    out.append(("values so far: " + nm, z3.And(zt(l.n) == zt(n), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(l.arr[j] == VAL(arr[j]), z3.Not(ISEXC(l.arr[j]))))))))
        return out

    it.inv.append(inv)
    k, r = call_catch(it, meth(it, o, "get"), [arg])
    result_checks(p, it, k, r, arg, arr, n, is_list, VAL, None)


VALUE = z3.Function("value_of", U, U)


@unit(UNITS, "MPI controller.api.get", budget=100)
def u_mpi_get(p):
    """Against the contracts of the object store (a value that is there is VALUE(id), C03) and of request_worker_data
    (afterwards each requested object is there; raises the failure of one of them)."""
    it = Interp(p)
    it.attr_hook = data_id_attr
    exceptions(it)
    arg, arr, n, is_list = ids_or_one(p, it, "MpiDataID")
    e = p.u("e", "MpiDataID")
    p.track("e", e.t)
    if is_list:
        it.cnt_facts(arg)
    HAVE = z3.Function("there_at_first", U, BoolS)
    g = it.ghost.attrs
    g["requested"] = None
    calls, raised = [], []

    class Store(Native):
        def m_contains(self, it_, i):
            if calls:
                raise Unsupported("contains after the request")
            return Sym(HAVE(i.t), "bool")

        def m_get(self, it_, i):
            # e is arbitrary
            it_.p.check("an object is read only if it is there or was requested", z3.Implies(i.t == e.t, z3.Or(HAVE(i.t), calls[0][2] >= 1 if calls else z3.BoolVal(False))))
            return Sym(VALUE(i.t), "u")

    def request(it_, v):
        l = v["data_ids"]
        it_.p.check("missing objects are requested at one time", len(calls) == 0)
        it_.p.check("each missing object is requested at most once", cnt_of(it_, l, "e") <= 1)
        a, m = view(it_, l, EU("MpiDataID"))
        it_.p.check("something is requested", m >= 1)
        calls.append((a, m, cnt_of(it_, l, "e")))
        if it_.p.choose(2):
            # some requested object, e, holds a failure
            it_.p.assume(z3.And(cnt_of(it_, l, "e") >= 1, ISEXC(VALUE(e.t))))
            raised.append(1)
            raise PyRaise(Sym(VALUE(e.t), "u"))

    A = CT + "api"
    it.gover[(A, "ObjectStore")] = Single(Store())
    it.summaries[CT + "common:request_worker_data"] = request

    class GC(Native):
        def m_regular_cleanup(self, it_):
            pass

    it.gover[(A, "garbage_collector")] = GC()
    it.summaries[MPI + "common:unwrapped_data_ids_list"] = lambda it_, v: None
    k, r = call_catch(it, glob(it, A, "get"), [arg])
    if calls:
        p.cover("requested")
    if raised:
        p.check("the failure of a requested task is raised", z3.And(boolt(k == "exc"), cnt_of(it, arg, "e") >= 1 if is_list else e.t == arg.t, r.t == VALUE(e.t)) if isinstance(r, Sym) else False)
        p.cover("failure raised at once")
        p.post()
        return
    result_checks(p, it, k, r, arg, arr, n, is_list, lambda t: VALUE(t), None)


@unit(UNITS, "MPI request_worker_data", budget=150)
def u_request(p):
    """Each object is asked for once, at its owner, as a blocking request; as many replies are taken as are owed, in any
    order of arrival, and a failure is raised only after that."""
    it = Interp(p)
    o, me = local_store(p, it)
    exceptions(it)
    C = CT + "common"
    it.gover[(C, "LocalObjectStore")] = Single(o)
    l = symlist(it, "data_ids", EU("MpiDataID"))
    it.cnt_facts(l)
    e = p.u("e", "MpiDataID")
    p.track("e", e.t)
    p.assume(cnt_of(it, l, "e") <= 1)  # distinct: e is arbitrary
    ow = o.attrs["_data_owner_map"]
    owner = ow.val
    y = z3.Const("y!o", U)
    p.assume(z3.ForAll([y], ow.dom[y]))
    g = it.ghost.attrs
    g["sent"], g["asked"], g["pulled"], g["got"], g["failed"] = 0, 0, 0, 0, 0
    dest = p.int("dest_of_e").t
    g["dest"] = Sym(dest, "int")
    hs = it.mklist([])

    def send(it_, v):
        f = v["operation_data"]
        t = f.items["id"]
        it_.p.check("the request is a GET", boolt(it_.equal(v["operation_type"], it_.getattr(glob(it_, MPI + "common", "Operation"), "GET"))))
        it_.p.check("the request names this process", boolt(it_.equal(f.items["source"], me)))
        it_.p.check("the request is a blocking one", f.items["is_blocking_op"] is True)
        it_.p.check("the owner is asked", intt(v["dest_rank"]) == owner[t.t])
        g["sent"] = Sym(intt(g["sent"]) + z3.If(t.t == e.t, 1, 0), "int")
        g["asked"] = Sym(intt(g["asked"]) + 1, "int")
        return it_.mklist([])

    def pull(it_, v):
        it_.p.check("only replies that are owed are waited for", intt(g["pulled"]) < intt(g["asked"]))
        x = it_.p.u("arrived", "MpiDataID")
        # one of those asked for, not answered yet: for e this says that it is not answered twice
        it_.p.assume(z3.Implies(x.t == e.t, z3.And(intt(g["sent"]) == 1, intt(g["got"]) == 0)))
        j = z3.Int("j!p")
        it_.p.assume(z3.Exists([j], z3.And(0 <= j, j < zt(l.n), l.arr[j] == x.t)))
        g["pulled"] = Sym(intt(g["pulled"]) + 1, "int")
        g["got"] = Sym(intt(g["got"]) + z3.If(x.t == e.t, 1, 0), "int")
        val = Sym(VALUE(x.t), "u")
        return it_.p.reg(DictObj(items={"id": x, "data": val}))

    it.summaries[MPI + "communication:isend_simple_operation"] = send
    it.summaries[C + ":pull_data"] = pull

    class Async(Native):
        def m_extend(self, it_, h):
            pass

    it.gover[(C, "AsyncOperations")] = Single(Async())

    def inv(it_, s, k):
        out = []
        if s.srcl is not None and s.srcl[2].sort == U:
            out.append(("requests so far", z3.And(intt(g["asked"]) == k, intt(g["sent"]) == pcnt(l.arr, e.t, k))))
        else:
            for nm, v in locals_int(s):
                out.append(("replies counted by " + nm, intt(v) == intt(g["pulled"])))
            for nm, (d, kk) in s.head.vars.items():
                v = d.get(kk)
                if v is None or isinstance(v, Sym) and v.k == "u":
                    out.append(("a failure: " + nm, z3.BoolVal(True) if v is None else ISEXC(v.t)))
        return out

    it.inv.append(inv)
    k, r = call_catch(it, glob(it, C, "request_worker_data"), [l])
    p.check("each object is requested once", intt(g["sent"]) == cnt_of(it, l, "e"))
    p.check("one request per object", intt(g["asked"]) == zt(l.n))
    p.check("all replies are taken, also if a task failed", intt(g["pulled"]) == zt(l.n))
    if k == "exc":
        p.check("only a failure is raised", ISEXC(r.t) if isinstance(r, Sym) else False)
        p.cover("failure")
    else:
        p.cover("no failure")
    p.post()


@unit(UNITS, "MPI pull_data")
def u_pull(p):
    """What is received is stored under the identifier it came with and is what is returned."""
    it = Interp(p)
    o, me = local_store(p, it)
    C = CT + "common"
    it.gover[(C, "LocalObjectStore")] = Single(o)
    b = maps(o)
    i, x = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID")
    blocking = bool(p.choose(2))
    src, given = p.int("source"), p.int("owner_rank")
    MP = glob(it, MPI + "common", "MetadataPackage")
    kind = ["SHARED_DATA", "LOCAL_DATA", "TASK_DATA"][p.choose(2 if blocking else 3)]  # the data of a task is never an answer
    info = p.reg(DictObj(items={"package_type": it.getattr(MP, kind), "id": i, "more": p.u("more")}))
    comm = p.u("comm")
    tag = glob(it, MPI + "common", "MPITag")
    rec = []

    def probe(it_, v):
        it_.p.check("an answer of a blocking request is taken from its own tag", boolt(it_.equal(v["tag"], it_.getattr(tag, "OBJECT_BLOCKING"))))
        it_.p.check("the description is taken once", not rec)
        rec.append(src)
        return it_.mktuple([info, src])

    def recv(it_, v):
        it_.p.check("the description is taken once", not rec)
        it_.p.check("the description is taken from the given rank", boolt(it_.equal(v["source_rank"], given)))
        rec.append(given)
        return info

    RECV = z3.Function("received_data", U, U)
    read = []

    def complex_(it_, v):
        it_.p.check("the data is taken from the sender of the description", len(rec) == 1 and it_.equal(v["source_rank"], rec[0]) is True)
        it_.p.check("with its description", v["info_package"] is info)
        want = it_.getattr(tag, "BUFFER_BLOCKING" if blocking else "BUFFER")
        it_.p.check("buffers are taken from the tag that goes with the description", boolt(it_.equal(v["tag"], want)))
        it_.p.check("the data is taken once", not read)
        read.append("net")
        return data

    data = Sym(RECV(it.p.u("message").t), "u") if kind != "TASK_DATA" else p.reg(DictObj(items={"task": p.u("task")}))

    class Shared(Native):
        def m_get(self, it_, k, owner=None, inf=None):
            it_.p.check("the shared object of the identifier is read", k is i and inf is info and it_.equal(owner, rec[0]) is True)
            read.append("shared")
            return data

    it.gover[(C, "SharedObjectStore")] = Single(Shared())
    it.summaries[MPI + "communication:mpi_iprobe_recv_object"] = probe
    it.summaries[MPI + "communication:mpi_recv_object"] = recv
    it.summaries[MPI + "communication:recv_complex_data"] = complex_
    k, r = call_catch(it, glob(it, C, "pull_data"), [comm] if blocking else [comm, given])
    p.check("no exception", k == "ret")
    if k != "ret":
        return
    if kind == "TASK_DATA":
        p.check("the data of a task is returned and nothing is stored", r is data)
        p.check("no other object is affected", unchanged(o, b, x.t))
        p.cover("task")
    else:
        D = o.attrs["_data_map"]
        d0, v0 = b["_data_map"]
        p.check("returned under its identifier", isinstance(r, DictObj) and r.items is not None and r.items.get("id") is i)
        val = enc(it, EU(None), r.items["data"])
        p.check("what is returned is what is stored", z3.And(D.dom[i.t], D.val[i.t] == val))
        p.check("the value is the received one, or the one that is already there for a shared object", z3.Or(val == data.t, z3.And(d0[i.t], val == v0[i.t], z3.BoolVal(kind == "SHARED_DATA"))))
        if kind == "LOCAL_DATA":
            p.check("the data message is taken", read == ["net"])
        p.check("no other object is affected", z3.Implies(x.t != i.t, unchanged(o, b, x.t)))
        p.check("no other map of the object is affected", unchanged(o, b, i.t, but=("_data_map", "_data_id_map")))
        p.cover(kind)
    p.post()


@unit(UNITS, "DaskBackend.get")
def u_dask_get(p):
    it = Interp(p)
    mod = "unidist.core.backends.dask.backend"
    exceptions(it, lambda i, v, nm: (v.ty == "Future") if nm == "Future" else NotImplemented)
    arg, arr, n, is_list = ids_or_one(p, it, "Future")

    def result(it_, f):
        if it_.p.branch(ISEXC(VALUE(f))):
            raise PyRaise(Sym(VALUE(f), "u"))
        return Sym(VALUE(f), "u")

    def attr(it_, v, name):
        if isinstance(v, Sym) and v.k == "u" and v.ty == "Future" and name == "result":
            return Builtin("result", lambda i, a, k: result(i, v.t))
        return NotImplemented

    it.attr_hook = attr

    class Client(Native):
        def m_gather(self, it_, futures, errors="raise", **k):
            # contract of Client.gather: the results in the order of the futures; a failure is raised, or the failed futures are left out
            if k or not isinstance(errors, (str, Sym)):
                raise Unsupported("gather with other parameters")
            if isinstance(futures, Sym):
                return result(it_, futures.t)
            a, m = view(it_, futures, EU("Future"))
            j = z3.Int("j!g")
            if not it_.truth(it_.equal(errors, "raise")):
                r = symlist(it_, "gathered", EU(None))
                it_.p.assume(z3.And(r.n >= 0, r.n <= m, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.n), z3.Not(ISEXC(r.arr[j]))))))
                it_.p.assume(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.Not(ISEXC(VALUE(a[j]))))), z3.And(r.n == m, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), r.arr[j] == VALUE(a[j]))))))
                it_.p.assume(z3.Implies(z3.Exists([j], z3.And(0 <= j, j < m, ISEXC(VALUE(a[j])))), r.n < m))
                return r
            if it_.p.choose(2):
                i = it_.p.int("failed").t
                it_.p.assume(z3.And(0 <= i, i < m, ISEXC(VALUE(a[i]))))
                raise PyRaise(Sym(VALUE(a[i]), "u"))
            it_.p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.Not(ISEXC(VALUE(a[j])))), patterns=[a[j]]))
            r = symlist(it_, "gathered", EU(None))
            it_.p.assume(z3.And(r.n == m, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), r.arr[j] == VALUE(a[j])), patterns=[r.arr[j]])))
            return r

    it.gover[(mod, "get_client")] = Builtin("get_client", lambda i, a, k: Client())
    k, r = call_catch(it, meth(it, glob(it, mod, "DaskBackend"), "get"), [arg])
    result_checks(p, it, k, r, arg, arr, n, is_list, VALUE, None)
