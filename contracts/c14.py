"""C14: data requests."""
from contracts.store import *

UNITS = []
NOTE = (
    "Proof, for all sets of pending requests, identifiers, ranks and store contents, of every RequestStore method and of push_data with its three forms of reply; "
    "exchanges on whole clusters are run (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = ["identifiers given to one check of pending requests are distinct (the references of one task, C06)"]
RS = MPI + "worker.request_store"
COM = MPI + "controller.common"
SETS = z3.ArraySort(IntS, BoolS)


def req_store(p, it):
    it.attr_hook = data_id_attr
    it.gover[(RS, "mpi_state")] = None
    it.gover[(RS, "logger")] = Ignore()
    o = new(it, glob(it, RS, "RequestStore"))
    it.call(meth(it, o, "__init__"), [])
    want = {"_nonblocking_get_requests": ESet(EInt), "_blocking_get_requests": ESet(EInt), "_blocking_wait_requests": EInt}
    for n, el in want.items():
        if n not in o.attrs:
            raise Unsupported(f"RequestStore.{n} is gone")
        o.attrs[n] = sym_dict(it, n, el, keyty="MpiDataID", default=PyType("set") if el is not EInt else None)
    if "_data_requests" not in o.attrs or set(o.attrs) - set(want) != {"_data_requests"}:
        raise Unsupported("RequestStore has other attributes")
    o.attrs["_data_requests"] = p.reg(SetObj(mem=p.fresh("data_requests", z3.ArraySort(U, BoolS)), el=EU("MpiDataID")))
    return o


def snapshot(o):
    return {n: (v.dom, v.val) if isinstance(v, DictObj) else v.mem for n, v in o.attrs.items()}


def has(s, n, i, r):
    """rank r waits for i"""
    d, v = s[n]
    return z3.And(d[i], v[i][r])


def same(a, b, i, r, but=()):
    fs = []
    for n in a:
        if n in but:
            continue
        if n == "_data_requests":
            fs.append(a[n][i] == b[n][i])
        elif n == "_blocking_wait_requests":
            fs.append(z3.And(a[n][0][i] == b[n][0][i], z3.Implies(a[n][0][i], a[n][1][i] == b[n][1][i])))
        else:
            fs.append(has(a, n, i, r) == has(b, n, i, r))
    return z3.And(*fs)


NB, BL, WT = "_nonblocking_get_requests", "_blocking_get_requests", "_blocking_wait_requests"


@unit(UNITS, "RequestStore.put / data requests")
def u_put(p):
    it = Interp(p)
    o = req_store(p, it)
    i, x = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID")
    r, q = p.int("rank"), p.int("other_rank")
    b = snapshot(o)
    cls = glob(it, RS, "RequestStore")
    case = p.choose(5)
    w = z3.And(x.t == i.t, q.t == r.t)
    if case < 2:
        it.call(meth(it, o, "put"), [i, r, it.getattr(cls, "GET")], {"is_blocking_op": case == 1})
        n = BL if case else NB
        a = snapshot(o)
        p.check("exactly this request is added, to its kind", has(a, n, x.t, q.t) == z3.Or(has(b, n, x.t, q.t), w))
        p.check("no other request changes", same(a, b, x.t, q.t, (n,)))
    elif case == 2:
        it.call(meth(it, o, "put"), [i, r, it.getattr(cls, "WAIT")])
        a = snapshot(o)
        p.check("the wait request is kept", z3.And(a[WT][0][i.t], a[WT][1][i.t] == r.t))
        p.check("no other request changes", z3.And(same(a, b, x.t, q.t, (WT,)), z3.Implies(x.t != i.t, same(a, b, x.t, q.t))))
    elif case == 3:
        it.call(meth(it, o, "put"), [i, r, it.getattr(cls, "DATA")])
        y = boolt(it.call(meth(it, o, "is_data_already_requested"), [x]))
        p.check("requested data is known as requested, nothing else", y == z3.Or(b["_data_requests"][x.t], x.t == i.t))
        p.check("no other request changes", same(snapshot(o), b, x.t, q.t, ("_data_requests",)))
    else:
        it.call(meth(it, o, "discard_data_request"), [i])
        y = boolt(it.call(meth(it, o, "is_data_already_requested"), [x]))
        p.check("the data request ends, no other one", y == z3.And(b["_data_requests"][x.t], x.t != i.t))
        p.check("no other request changes", same(snapshot(o), b, x.t, q.t, ("_data_requests",)))
    p.cover(case)
    p.post()


HAS = z3.Function("store_contains", U, BoolS)


class Store(Native):
    def m_contains(self, it, i):
        return Sym(HAS(it.box(i)), "bool")


@unit(UNITS, "RequestStore.process_get_request")
def u_pget(p):
    it = Interp(p)
    o = req_store(p, it)
    it.gover[(RS, "ObjectStore")] = Single(Store())
    i, x = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID")
    r, q = p.int("source"), p.int("other_rank")
    blk = p.bool("is_blocking_op")
    b = snapshot(o)
    sent = []

    def push(it_, v):
        sent.append(v)

    it.summaries[COM + ":push_data"] = push
    k, v = call_catch(it, meth(it, o, "process_get_request"), [r, i], {"is_blocking_op": blk})
    p.check("no exception", k == "ret")
    a = snapshot(o)
    w = z3.And(x.t == i.t, q.t == r.t)
    if sent:
        p.check("answered only if the object is there", HAS(i.t))
        p.check("one answer", len(sent) == 1)
        p.check("to the process that asked", intt(sent[0]["dest_rank"]) == r.t)
        p.check("with the object it asked for", it.box(sent[0]["value"]) == i.t)
        p.check("blocking requesters and the controller get the blocking reply, others do not", boolt(sent[0]["is_blocking_op"]) == z3.Or(blk.t, r.t == 0))
        p.check("nothing is kept", same(a, b, x.t, q.t))
        p.cover("answered")
    else:
        p.check("kept only if the object is not there", z3.Not(HAS(i.t)))
        p.check("the request is kept with its kind", z3.And(has(a, BL, x.t, q.t) == z3.Or(has(b, BL, x.t, q.t), z3.And(w, blk.t)), has(a, NB, x.t, q.t) == z3.Or(has(b, NB, x.t, q.t), z3.And(w, z3.Not(blk.t)))))
        p.check("no other request changes", same(a, b, x.t, q.t, (NB, BL)))
        p.cover("kept")
    p.post()


@unit(UNITS, "RequestStore.process_wait_request")
def u_pwait(p):
    it = Interp(p)
    o = req_store(p, it)
    it.gover[(RS, "ObjectStore")] = Single(Store())
    it.gover[(MPI + "communication", "MPIState")] = Single(MState(p.int("own_rank")))
    i, x, q = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID"), p.int("any_rank")
    b = snapshot(o)
    sent = []
    it.summaries[MPI + "communication:mpi_send_object"] = lambda it_, v: sent.append(v)
    k, v = call_catch(it, meth(it, o, "process_wait_request"), [i])
    p.check("no exception", k == "ret")
    a = snapshot(o)
    if sent:
        p.check("answered only if the object is there", HAS(i.t))
        p.check("one answer to the controller, with the identifier", z3.And(len(sent) == 1, intt(sent[0]["dest_rank"]) == 0, it.box(sent[0]["data"]) == i.t))
        p.check("nothing is kept", same(a, b, x.t, q.t))
        p.cover("answered")
    else:
        p.check("kept only if the object is not there", z3.Not(HAS(i.t)))
        p.check("the request is kept", z3.And(a[WT][0][i.t], a[WT][1][i.t] == 0))
        p.check("no other request changes", z3.And(same(a, b, x.t, q.t, (WT,)), z3.Implies(x.t != i.t, same(a, b, x.t, q.t))))
        p.cover("kept")
    p.post()


def pending_unit(many, kind):
    def fn(p):
        it = Interp(p)
        o = req_store(p, it)
        it.gover[(MPI + "communication", "MPIState")] = Single(MState(p.int("own_rank")))
        # an arbitrary request: identifier e of rank q
        e, q = p.u("e", "MpiDataID"), p.int("q")
        p.track("e", e.t)
        p.track("q", q.t)
        b = snapshot(o)
        it.ghost.attrs["nb"] = 0
        it.ghost.attrs["bl"] = 0
        ids = None
        if many:
            ids = symlist(it, "data_ids", EU("MpiDataID"))
            ids.distinct = True
            it.cnt_facts(ids)
            p.assume(cnt_of(it, ids, "e") <= 1)
            arg = ids
            asked = cnt_of(it, ids, "e") == 1
        else:
            arg = p.u("data_id", "MpiDataID")
            asked = arg.t == e.t

        def pg(it_, v):
            """contract of process_get_request: the object is there, so one answer"""
            hit = z3.And(it_.box(v["data_id"]) == e.t, intt(v["source_rank"]) == q.t)
            blk = boolt(v["is_blocking_op"])
            g = it_.ghost.attrs
            g["nb"] = mkint(intt(g["nb"]) + z3.If(z3.And(hit, z3.Not(blk)), 1, 0))
            g["bl"] = mkint(intt(g["bl"]) + z3.If(z3.And(hit, blk), 1, 0))

        it.summaries[RS + ":RequestStore.process_get_request"] = pg

        def so(it_, v):
            it_.p.check("the waiting controller is answered", intt(v["dest_rank"]) == 0)
            g = it_.ghost.attrs
            g["nb"] = mkint(intt(g["nb"]) + z3.If(it_.box(v["data"]) == e.t, 1, 0))

        it.summaries[MPI + "communication:mpi_send_object"] = so
        G = lambda n: intt(it.ghost.attrs[n])
        one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))

        def inv(it_, s, k):
            if s.srcl is None:
                return []
            arr = s.srcl[0]
            a = snapshot(o)
            if arr.sort() == z3.ArraySort(IntS, U):
                # over the identifiers
                c = pcnt(arr, e.t, k)
                d = c >= 1
                if kind == "get":
                    return [
                        ("answered", z3.And(G("nb") == one(z3.And(d, has(b, NB, e.t, q.t))), G("bl") == one(z3.And(d, has(b, BL, e.t, q.t))))),
                        ("kept", z3.And(a[NB][0][e.t] == z3.And(z3.Not(d), b[NB][0][e.t]), a[BL][0][e.t] == z3.And(z3.Not(d), b[BL][0][e.t]))),
                        ("kept ranks", z3.Implies(z3.Not(d), z3.And(has(a, NB, e.t, q.t) == has(b, NB, e.t, q.t), has(a, BL, e.t, q.t) == has(b, BL, e.t, q.t)))),
                    ]
                return [("answered", G("nb") == one(z3.And(d, b[WT][0][e.t]))), ("kept", a[WT][0][e.t] == z3.And(z3.Not(d), b[WT][0][e.t])), ("kept rank", z3.Implies(a[WT][0][e.t], a[WT][1][e.t] == b[WT][1][e.t]))]
            if arr.sort() == z3.ArraySort(IntS, IntS):
                # over the ranks that wait for the current identifier
                c = pcnt(arr, q.t, k)
                cur = [v for v in [v2 for _, (dd, kk) in s.head.vars.items() for v2 in [dd.get(kk)]] if isinstance(v, Sym) and v.k == "u"]
                out = []
                start = s.__dict__.setdefault("at_entry", {n: G(n) for n in ("nb", "bl")})
                for n in ("nb", "bl"):
                    for num, v in enumerate(cur):
                        out.append((f"{n}: so far {num}", G(n) == start[n] + z3.If(v.t == e.t, c, 0)))
                    out.append((f"{n}: as before", G(n) == start[n]))
                return out
            return []

        it.inv.append(inv)
        k, r = call_catch(it, meth(it, o, "check_pending_get_requests" if kind == "get" else "check_pending_wait_requests"), [arg])
        if k == "exc":
            blame(p, it, r, e)
        p.check("no exception", k == "ret")
        a = snapshot(o)
        if kind == "get":
            p.check("each waiting process is answered exactly once, others are not (non-blocking)", G("nb") == one(z3.And(asked, has(b, NB, e.t, q.t))))
            p.check("each waiting process is answered exactly once, others are not (blocking)", G("bl") == one(z3.And(asked, has(b, BL, e.t, q.t))))
            p.check("answered requests are not kept", z3.Implies(asked, z3.And(z3.Not(a[NB][0][e.t]), z3.Not(a[BL][0][e.t]))))
            p.check("requests for other objects stay", z3.Implies(z3.Not(asked), same(a, b, e.t, q.t)))
            p.check("waits and own requests are not touched", same(a, b, e.t, q.t, (NB, BL)))
        else:
            p.check("a waiting controller is answered exactly once, otherwise not", G("nb") == one(z3.And(asked, b[WT][0][e.t])))
            p.check("answered requests are not kept", z3.Implies(asked, z3.Not(a[WT][0][e.t])))
            p.check("requests for other objects stay", z3.Implies(z3.Not(asked), same(a, b, e.t, q.t)))
            p.check("gets and own requests are not touched", same(a, b, e.t, q.t, (WT,)))
        p.post()

    return fn


for m in (False, True):
    for k in ("get", "wait"):
        UNITS.append(Unit(f"RequestStore.check_pending_{k}_requests: {'list' if m else 'one identifier'}", pending_unit(m, k), budget=150))


@unit(UNITS, "RequestStore.clear_get_requests / clear_wait_requests")
def u_clear(p):
    it = Interp(p)
    o = req_store(p, it)
    x, q = p.u("any", "MpiDataID"), p.int("any_rank")
    b = snapshot(o)
    it.call(meth(it, o, "clear_wait_requests"), [])
    p.check("no wait is left", z3.BoolVal(True) if o.attrs[WT].items == {} else z3.Not(o.attrs[WT].dom[x.t]))
    it.call(meth(it, o, "clear_get_requests"), [])
    for n in (NB, BL):
        p.check("no get is left", z3.BoolVal(True) if o.attrs[n].items == {} else z3.Not(o.attrs[n].dom[x.t]))
    p.check("own requests are not touched", o.attrs["_data_requests"].mem[x.t] == b["_data_requests"][x.t])
    p.post()


# ---------------------------------------------------------------------------------------- replies
SHARED = z3.Function("in_shared_memory", U, BoolS)
FIT = z3.Function("should_be_shared", U, BoolS)


class Shared(Native):
    def __init__(self, p):
        self.f_alloc = p.bool("shared_allocated")
        self.put = []

    def m_contains(self, it, i):
        return Sym(z3.Or(SHARED(it.box(i)), *[it.box(j) == it.box(i) for j, _ in self.put]), "bool")

    def m_is_allocated(self, it):
        return self.f_alloc

    def m_should_be_shared(self, it, d):
        return Sym(FIT(it.box(d)), "bool")

    def m_put(self, it, i, d):
        self.put.append((i, d))

    def m_get_shared_info(self, it, i):
        return it.p.reg(DictObj(items={"id": i, "package_type": "shared"}))


class Async(Native):
    def __init__(self):
        self.got = []

    def m_extend(self, it, h):
        self.got.append(h)


def id_hook(it):
    def h(it_, v, t):
        if isinstance(v, Sym) and v.k == "u" and v.ty == "MpiDataID":
            return isinstance(t, Cls) and t.name in ("DataID", "MpiDataID", "object")
        return NotImplemented

    it.isinst_hook = h


def reply_setup(p):
    it = Interp(p)
    o, me = local_store(p, it)
    sh, asy = Shared(p), Async()
    for m in (COM,):
        it.gover[(m, "LocalObjectStore")] = Single(o)
        it.gover[(m, "SharedObjectStore")] = Single(sh)
        it.gover[(m, "AsyncOperations")] = Single(asy)
    it.gover[(COM, "logger")] = Ignore()
    id_hook(it)
    return it, o, me, sh, asy


@unit(UNITS, "push_data: one identifier")
def u_push(p):
    it, o, me, sh, asy = reply_setup(p)
    i, x = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID")
    dest, blk = p.int("dest"), p.bool("is_blocking_op")
    b = maps(o)
    has_ = {n: b[n][0][i.t] for n in ("_data_map", "_serialization_cache", "_data_owner_map")}
    log = []

    def rec(kind):
        def f(it_, v):
            it_.p.check("to the process that asked", intt(v["dest_rank"]) == dest.t)
            it_.p.check("the object that was asked for", it_.box(v["data_id"]) == i.t)
            if "is_blocking_op" in v:
                it_.p.check("in the way it was asked for", boolt(v["is_blocking_op"]) == blk.t)
            log.append((kind, v))

        return f

    it.summaries[COM + ":_push_local_data"] = rec("local")
    it.summaries[COM + ":_push_shared_data"] = rec("shared")
    it.summaries[COM + ":_push_data_owner"] = rec("owner")
    ser = p.u("serialized")
    it.summaries[MPI + "serialization:serialize_complex_data"] = lambda it_, v: (it_.p.check("the stored value is serialized", it_.box(v["data"]) == b["_data_map"][1][i.t]), ser)[1]
    # contract of cache_serialized_data (C03)
    it.summaries[LOS + ":LocalObjectStore.cache_serialized_data"] = lambda it_, v: it_.setitem(o.attrs["_serialization_cache"], v["data_id"], v["data"])
    k, r = call_catch(it, glob(it, COM, "push_data"), [dest, i], {"is_blocking_op": blk})
    D, S, O = has_["_data_map"], has_["_serialization_cache"], has_["_data_owner_map"]
    if k == "exc":
        p.check("fails only for an object nobody knows", z3.Not(z3.Or(SHARED(i.t), D, S, O)))
        p.check("a failed reply sends nothing", not log)
        p.cover("unknown")
        p.post()
        return
    p.check("exactly one reply", len(log) == 1)
    if len(log) != 1:
        return
    kind, v = log[0]
    here = z3.Or(SHARED(i.t), D, S)
    if kind == "owner":
        p.check("a location is sent only if the object is not here", z3.And(z3.Not(here), O))
    elif kind == "shared":
        p.check("a shared object is in shared memory", z3.Or(SHARED(i.t), z3.And(len(sh.put) == 1, D)))
        if sh.put:
            p.check("what is put into shared memory is the object", z3.And(it.box(sh.put[0][0]) == i.t, it.box(sh.put[0][1]) == ser.t))
            p.check("only if there is shared memory for it", z3.And(sh.f_alloc.t, FIT(ser.t), z3.Not(SHARED(i.t))))
        p.cover("shared")
    else:
        p.check("a value is sent only if it is here", here)
        p.check("it is serialized, and says so", z3.And(boolt(v["is_serialized"]), o.attrs["_serialization_cache"].dom[i.t]))
        p.check("the serialized form is that of the value", z3.Or(z3.And(S, o.attrs["_serialization_cache"].val[i.t] == b["_serialization_cache"][1][i.t]), z3.And(D, o.attrs["_serialization_cache"].val[i.t] == ser.t)))
        p.cover("local")
    p.check("other objects are not affected", z3.Implies(x.t != i.t, unchanged(o, b, x.t)))
    p.post()


@unit(UNITS, "push_data: containers")
def u_push_many(p):
    it, o, me, sh, asy = reply_setup(p)
    dest = p.int("dest")
    e = p.u("e")
    p.track("e", e.t)
    l = symlist(it, "values", EU("MpiDataID"))
    it.cnt_facts(l)
    it.ghost.attrs["pushed"] = it.mklist([])
    case = p.choose(3)

    def rec(it_, v):
        if v["value"] is top:
            return NotImplemented
        it_.p.check("to the given process", intt(v["dest_rank"]) == dest.t)
        it_.list_append(it_.ghost.attrs["pushed"], v["value"])
        return None

    it.summaries[COM + ":push_data"] = rec
    if case == 0:
        top = l
    elif case == 1:
        top = copy_seq(it, l, True)
    else:
        a, b2 = p.u("a", "MpiDataID"), p.u("b", "MpiDataID")
        top = p.reg(DictObj(items={"x": a, "y": b2}))

    def inv(it_, s, k):
        if s.srcl is None:
            return []
        return [("pushed so far", cnt_of(it_, it_.ghost.attrs["pushed"], "e") == pcnt(s.srcl[0], e.t, k))]

    it.inv.append(inv)
    k, r = call_catch(it, glob(it, COM, "push_data"), [dest, top])
    p.check("no exception", k == "ret")
    n = cnt_of(it, it.ghost.attrs["pushed"], "e")
    want = cnt_of(it, l, "e") if case < 2 else z3.If(a.t == e.t, 1, 0) + z3.If(b2.t == e.t, 1, 0)
    p.check("every element is sent exactly once", n == want)
    p.post()


def op(it, n):
    return it.getattr(glob(it, MPI + "common", "Operation"), n)


@unit(UNITS, "_push_local_data")
def u_push_local(p):
    it, o, me, sh, asy = reply_setup(p)
    i, x = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID")
    dest, blk, ser = p.int("dest"), p.bool("is_blocking_op"), p.bool("is_serialized")
    q = p.int("any_rank")
    SD = o.attrs["_sent_data_map"]
    was = z3.And(SD.dom[i.t], SD.val[i.t][dest.t])
    p.assume(z3.Implies(z3.Not(ser.t), o.attrs["_data_map"].dom[i.t]))
    p.assume(z3.Implies(ser.t, o.attrs["_serialization_cache"].dom[i.t]))
    b = maps(o)
    v0 = o.attrs["_data_map"].val
    cached = p.reg(DictObj(items={"s_data": p.u("s_data"), "raw_buffers": p.u("raw"), "buffer_count": p.u("counts")}))
    it.summaries[LOS + ":LocalObjectStore.get_serialized_data"] = lambda it_, v: (it_.p.check("the cached form of this object", it_.box(v["data_id"]) == i.t), cached)[1]
    out = []
    cache = []

    def csd(it_, v):
        it_.p.check("cached for this object", it_.box(v["data_id"]) == i.t)
        cache.append(v["data"])

    it.summaries[LOS + ":LocalObjectStore.cache_serialized_data"] = csd

    def send(blocking):
        def f(it_, v):
            data = v["data"] if blocking else v["operation_data"]
            it_.p.check("to the process that asked", intt(v["dest_rank"]) == dest.t)
            it_.p.check("the reply names the object", it_.box(it_.getitem(data, "id")) == i.t)
            it_.p.check("the reply is of the kind that was asked for", blk.t == blocking)
            if it_.contains(data, "data") is True:
                it_.p.check("the reply carries the value of the object", z3.And(z3.Not(boolt(v["is_serialized"])), it_.box(it_.getitem(data, "data")) == v0[i.t]))
            else:
                it_.p.check("the reply carries the serialized form of the object", z3.And(boolt(v["is_serialized"]), data is cached))
            if not blocking:
                it_.p.check("a non-blocking reply is announced as data", v["operation_type"] == op(it_, "PUT_DATA"))
            out.append(blocking)
            s = it_.p.reg(DictObj(items={"s_data": it_.p.u("s"), "raw_buffers": it_.p.u("r"), "buffer_count": it_.p.u("c")}))
            it_.ghost.attrs["ser"] = s
            return s if blocking else it_.mktuple(["handlers", s])

        return f

    it.summaries[MPI + "communication:send_complex_data"] = send(True)
    it.summaries[MPI + "communication:isend_complex_operation"] = send(False)
    k, r = call_catch(it, glob(it, COM, "_push_local_data"), [dest, i, blk, ser])
    p.check("no exception", k == "ret")
    p.check("sent exactly once unless it was already sent and nobody blocks", z3.And(len(out) <= 1, (len(out) == 1) == z3.Or(blk.t, z3.Not(was))))
    if out and not out[0]:
        p.check("the pending sends are kept", asy.got == ["handlers"])
    if cache:
        p.check("what is cached is what was sent", len(cache) == 1 and cache[0] is it.ghost.attrs["ser"])
    after = boolt(it.call(meth(it, o, "is_already_sent"), [i, q]))
    before = z3.And(b["_sent_data_map"][0][i.t], b["_sent_data_map"][1][i.t][q.t])
    p.check("the process is known to have the object afterwards", after == z3.Or(before, q.t == dest.t))
    p.check("other objects are not affected", z3.Implies(x.t != i.t, unchanged(o, b, x.t)))
    p.post()


@unit(UNITS, "_push_shared_data / _push_data_owner")
def u_push_shared(p):
    it, o, me, sh, asy = reply_setup(p)
    i, x = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID")
    dest, blk, q = p.int("dest"), p.bool("is_blocking_op"), p.int("any_rank")
    SD = o.attrs["_sent_data_map"]
    was = z3.And(SD.dom[i.t], SD.val[i.t][dest.t])
    b = maps(o)
    T = glob(it, MPI + "common", "MPITag")
    out = []

    def blocking(it_, v):
        it_.p.check("a blocking reply carries the blocking tag", v["tag"] == it_.getattr(T, "OBJECT_BLOCKING"))
        out.append((True, v["data"], v["dest_rank"], None))

    def nonblocking(it_, v):
        out.append((False, v["operation_data"], v["dest_rank"], v["operation_type"]))
        return "handlers"

    it.summaries[MPI + "communication:mpi_send_object"] = blocking
    it.summaries[MPI + "communication:isend_simple_operation"] = nonblocking
    if p.choose(2) == 0:
        k, r = call_catch(it, glob(it, COM, "_push_shared_data"), [dest, i, blk])
        p.check("no exception", k == "ret")
        p.check("sent exactly once unless it was already sent and nobody blocks", z3.And(len(out) <= 1, (len(out) == 1) == z3.Or(blk.t, z3.Not(was))))
        for bl, d, to, ty in out:
            p.check("to the process that asked", intt(to) == dest.t)
            p.check("the reply is of the kind that was asked for", blk.t == bl)
            p.check("the reply describes the object", it.box(it.getitem(d, "id")) == i.t)
            p.check("as a shared one", it.getitem(d, "package_type") == "shared")
            if not bl:
                p.check("announced as shared data, sends kept", ty == op(it, "PUT_SHARED_DATA") and asy.got == ["handlers"])
        after = boolt(it.call(meth(it, o, "is_already_sent"), [i, q]))
        before = z3.And(b["_sent_data_map"][0][i.t], b["_sent_data_map"][1][i.t][q.t])
        p.check("the process is known to have the object afterwards", after == z3.Or(before, q.t == dest.t))
        p.check("other objects are not affected", z3.Implies(x.t != i.t, unchanged(o, b, x.t)))
        p.cover("shared")
    else:
        p.assume(o.attrs["_data_owner_map"].dom[i.t])
        k, r = call_catch(it, glob(it, COM, "_push_data_owner"), [dest, i])
        p.check("no exception", k == "ret")
        p.check("one reply, as a location", len(out) == 1 and out[0][3] == op(it, "PUT_OWNER"))
        bl, d, to, ty = out[0]
        p.check("it names the object and its owner", z3.And(intt(to) == dest.t, it.box(it.getitem(d, "id")) == i.t, intt(it.getitem(d, "owner")) == b["_data_owner_map"][1][i.t]))
        p.check("the pending sends are kept", asy.got == ["handlers"])
        p.check("nothing is recorded", z3.And(unchanged(o, b, x.t), unchanged(o, b, i.t)))
        p.cover("owner")
    p.post()
