"""C01: wait."""
from contracts.lib import *

UNITS = []
NOTE = (
    "Proof, for all lists and numbers, of the wait functions of the sequential, multiprocessing, Dask and MPI backends and the monitor's WaitHandler; BackendProxy.wait and "
    "the distributed part (messages between controller, workers and monitor) are run on real and simulated clusters (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = [
    "MPI delivers the reply of the root monitor to the wait call it answers (the controller has one outstanding wait)",
    "distributed.wait(fs, return_when='FIRST_COMPLETED') returns a partition of the futures it was given into done and not done with at least one done",
]
API = MPI + "controller.api"
LOOP = MPI + "monitor.loop"
HINT = z3.Function("hint", U, BoolS)
READY = z3.Function("finished", U, BoolS)


def ids(p, it, name="ids", nonempty=True):
    l = symlist(it, name, EU("MpiDataID"))
    p.assume(l.n >= (1 if nonempty else 0))
    it.cnt_facts(l)
    return l


def distinct(p, l):
    i, j = z3.Ints("i!d j!d")
    p.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < l.n), l.arr[i] != l.arr[j])))


def all_ready(it, l):
    if l.items is not None:
        return z3.And(z3.BoolVal(True), *[READY(it.box(x)) for x in l.items])
    j = z3.Int("j!ar")
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zt(l.n)), READY(l.arr[j])))


def result(p, it, r):
    a, b = it.unpack(r, 2)
    if not (isinstance(a, ListObj) and isinstance(b, ListObj)):
        p.check("two lists are returned", False)
        raise PathEnd()
    p.check("two lists are returned", not a.tup and not b.tup)
    return a, b


def done_checks(p, it, r, c0, n, ready=True):
    a, b = result(p, it, r)
    p.check("exactly num_returns references are returned as ready", zt(length(it, a)) == n)
    p.check("every reference is in exactly one of the lists", cnt_of(it, a, "e") + cnt_of(it, b, "e") == c0)
    if ready:
        p.check("a reference in the first list is finished", z3.Implies(cnt_of(it, a, "e") > 0, READY(p.tracked_terms["e"])))


class Store(Native):
    def m_contains(self, it, data_id):
        t = it.box(data_id)
        b = it.p.fresh("contained", BoolS)
        f = z3.Function("contained_locally", U, BoolS)
        it.p.assume(z3.Implies(f(t), READY(t)))
        return Sym(f(t), "bool")


class State(Native):
    def __init__(self):
        self.f_global_comm = Ignore()
        self.f_global_rank = 0

    def m_get_monitor_by_worker_rank(self, it, rank):
        it.p.check("requires: the monitor of the controller is asked", rank == 0)
        return Sym(z3.Int("root_monitor"), "int")


@unit(UNITS, "mpi wait", budget=200)
def u_mpi_wait(p):
    it = Interp(p)
    e = p.u("e", "MpiDataID")
    p.track("e", e.t)
    l = ids(p, it)
    distinct(p, l)
    n = p.int("num_returns")
    p.assume(z3.And(1 <= n.t, n.t <= l.n))
    p.input("num_returns", n)
    c0 = cnt_of(it, l, "e")
    p.assume(c0 <= 1)
    ARR0, N0 = l.arr, l.n
    sent = []
    it.gover.update({
        (API, "ObjectStore"): Single(Store()),
        (MPI + "communication", "MPIState"): Single(State()),
        (API, "garbage_collector"): Ignore(),
    })

    def send(it_, v):
        op = v["operation_type"]
        d = v["operation_data"]
        it_.p.check("the root monitor is asked to wait", op == it_.getattr(glob(it_, MPI + "common", "Operation"), "WAIT"))
        it_.p.check("the request goes to the monitor of the controller", intt(v["dest_rank"]) == z3.Int("root_monitor"))
        sent.append((it_.getitem(d, "data_ids"), it_.getitem(d, "num_returns")))
        return None

    def recv(it_, v):
        it_.p.check("requires: one request before its reply is awaited", len(sent) == 1)
        it_.p.check("the reply comes from the monitor that was asked", intt(v["source_rank"]) == z3.Int("root_monitor"))
        lst, k = sent[0]
        k = intt(k)
        it_.p.check("requires: between one and all references are waited for by the monitor", z3.And(1 <= k, k <= zt(length(it_, lst))))
        # contract of the monitor (WaitHandler below): a partition of the request with k finished references
        a, b = symlist(it_, "reply_ready", EU("MpiDataID")), symlist(it_, "reply_rest", EU("MpiDataID"))
        it_.p.assume(z3.And(a.n == k, b.n == zt(length(it_, lst)) - k))
        it_.cnt_facts(a)
        it_.cnt_facts(b)
        it_.p.assume(cnt_of(it_, a, "e") + cnt_of(it_, b, "e") == cnt_of(it_, lst, "e"))
        it_.p.assume(all_ready(it_, a))
        return it_.mkdict({"ready": a, "not_ready": b})

    it.summaries[MPI + "communication:send_simple_operation"] = send
    it.summaries[MPI + "communication:mpi_recv_object"] = recv

    def inv(it_, s, k):
        if s.srcl is None or not s.srcl[0].eq(ARR0):
            return []
        ls = local_lists(s)
        out = []
        # HINT is the predicate that is always true: it only tells the solver where to instantiate
        i, j = z3.Ints("i!wl j!wl")
        for na, a in ls:
            arr, la = view(it_, a, EU("MpiDataID"))
            if arr is None:
                continue
            out.append((f"{na} is short", la < n.t))
            out.append((f"{na} is finished", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < la), READY(arr[j])))))
            for nm, v in locals_int(s):
                out.append((f"{nm} and {na}", zt(zi(v)) == n.t - la))
            ro = la - (N0 - k)
            out.append((f"the tail of {na}", z3.And(ro >= 0, z3.ForAll([j], z3.Implies(z3.And(ro <= j, j < la), arr[j] == ARR0[j + N0 - la])))))
            if z3.is_const(arr):
                it_.p.assume(HINT(arr[ro]))
            for nb, b in ls:
                if na < nb and a is not b:
                    lb = zt(length(it_, b))
                    out.append((f"{na} + {nb}: length", la + lb == N0))
                    out.append((f"{na} + {nb}: content", cnt_of(it_, a, "e") + cnt_of(it_, b, "e") == c0))
        return out

    it.inv.append(inv)
    f = glob(it, API, "wait")
    k, r = call_catch(it, f, [l], {"num_returns": n})
    if k == "exc" and exc_name(r) in ("KeyError", "ValueError"):
        blame(p, it, r, e)
    p.check("no exception", k == "ret")
    if k == "ret":
        done_checks(p, it, r, c0, n.t)
        if sent:
            p.cover("asks the monitor")
        else:
            p.cover("all local")
    p.post()


@unit(UNITS, "WaitHandler", budget=200)
def u_handler(p):
    it = Interp(p)
    e = p.u("e", "MpiDataID")
    p.track("e", e.t)
    o = new(it, glob(it, LOOP, "WaitHandler"))
    it.call(meth(it, o, "__init__"), [])
    tr = new(it, glob(it, LOOP, "DataIDTracker"))
    comp = p.reg(SetObj(mem=p.fresh("completed", z3.ArraySort(U, BoolS)), el=EU("MpiDataID")))
    x = z3.Const("x!cp", U)
    p.assume(z3.ForAll([x], comp.mem[x] == READY(x)))
    tr.attrs["completed_data_ids"] = comp
    it.gover[(LOOP, "DataIDTracker")] = Single(tr)
    it.ghost.attrs["answers"] = 0

    def send(it_, v):
        it_.p.check("the answer goes to the controller", v["dest_rank"] == 0)
        d = v["data"]
        a, b = it_.getitem(d, "ready"), it_.getitem(d, "not_ready")
        it_.ghost.attrs["answers"] = mkint(intt(it_.ghost.attrs["answers"]) + 1)
        it_.p.check("at most one answer per request", intt(it_.ghost.attrs["answers"]) <= 1)
        it_.p.check("exactly num_returns references are returned as ready", zt(length(it_, a)) == n.t)
        it_.p.check("every reference of the request is in exactly one of the lists, and no other", cnt_of(it_, a, "e") + cnt_of(it_, b, "e") == c0)
        it_.p.check("a reference in the first list is finished", z3.Implies(cnt_of(it_, a, "e") > 0, READY(e.t)))

    it.summaries[MPI + "communication:mpi_send_object"] = send
    it.gover[(MPI + "communication", "MPIState")] = Single(State())
    l = ids(p, it)
    distinct(p, l)
    n = p.int("num_returns")
    p.assume(z3.And(1 <= n.t, n.t <= l.n))
    c0 = cnt_of(it, l, "e")
    # some references have been found finished earlier for this request
    got = symlist(it, "found", EU("MpiDataID"))
    it.cnt_facts(got)
    ng = cnt_of(it, got, "e")
    total = got.n + l.n
    early = p.choose(2) == 0
    if early:
        it.call(meth(it, o, "add_wait_request"), [l, n])
        p.check("a new request starts with nothing found", zt(length(it, o.attrs["ready"])) == 0)
    else:
        p.assume(z3.And(got.n < n.t, n.t <= total))
        p.assume(all_ready(it, got))
        o.attrs["awaited_data_ids"], o.attrs["num_returns"], o.attrs["ready"] = l, n, got
        c0 = c0 + ng

    def inv(it_, s, k):
        a, b = o.attrs["ready"], o.attrs["awaited_data_ids"]
        if not (isinstance(a, ListObj) and isinstance(b, ListObj)):
            return []
        ans = intt(it_.ghost.attrs["answers"])
        la, lb = zt(length(it_, a)), zt(length(it_, b))
        done = z3.And(ans == 1, la == 0, lb == 0)
        out = [
            ("answered or not", z3.Or(ans == 0, done)),
            ("nothing is lost", z3.Or(done, cnt_of(it_, a, "e") + cnt_of(it_, b, "e") == c0)),
            ("number", z3.Or(done, la + lb == tot)),
            ("found are finished", z3.Implies(cnt_of(it_, a, "e") > 0, READY(e.t))),
            ("too few so far", z3.Or(done, la < n.t)),
        ]
        arr, m = view(it_, b, EU("MpiDataID"))
        i, j = z3.Ints("i!ds j!ds")
        out.append(("distinct", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), arr[i] != arr[j]))))
        for nm, v in locals_int(s):
            out.append(("checked up to " + nm, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zt(zi(v)), j < m), z3.Not(READY(arr[j]))))))
            out.append(("range of " + nm, z3.Or(done, z3.And(0 <= zt(zi(v)), zt(zi(v)) <= m))))
        return out

    tot = zt(length(it, o.attrs["ready"])) + l.n
    it.inv.append(inv)
    k, r = call_catch(it, meth(it, o, "process_wait_requests"), [])
    p.check("no exception", k == "ret")
    ans = intt(it.ghost.attrs["answers"])
    if p.branch(ans != 0):
        p.check("the request is gone after its answer", z3.And(zt(length(it, o.attrs["ready"])) == 0, zt(length(it, o.attrs["awaited_data_ids"])) == 0))
        p.cover("answered")
    else:
        a, b = o.attrs["ready"], o.attrs["awaited_data_ids"]
        p.check("unanswered: nothing of the request is lost", cnt_of(it, a, "e") + cnt_of(it, b, "e") == c0)
        p.check("unanswered only if too few are finished", zt(length(it, a)) < n.t)
        p.check("unanswered: what is still awaited is not finished", z3.Implies(cnt_of(it, b, "e") > 0, z3.Not(READY(e.t))))
        p.check("unanswered: found references are finished", z3.Implies(cnt_of(it, a, "e") > 0, READY(e.t)))
        p.cover("kept")
    p.post()


@unit(UNITS, "WaitHandler: no request")
def u_handler_idle(p):
    it = Interp(p)
    o = new(it, glob(it, LOOP, "WaitHandler"))
    it.call(meth(it, o, "__init__"), [])
    tr = new(it, glob(it, LOOP, "DataIDTracker"))
    tr.attrs["completed_data_ids"] = p.reg(SetObj(mem=p.fresh("completed", z3.ArraySort(U, BoolS)), el=EU("MpiDataID")))
    it.gover[(LOOP, "DataIDTracker")] = Single(tr)
    sent = []
    it.summaries[MPI + "communication:mpi_send_object"] = lambda it_, v: sent.append(1)
    it.call(meth(it, o, "process_wait_requests"), [])
    p.check("nothing is sent without a request", not sent)
    p.post()


@unit(UNITS, "DataIDTracker.add_to_completed")
def u_tracker(p):
    it = Interp(p)
    e = p.u("e", "MpiDataID")
    p.track("e", e.t)
    tr = new(it, glob(it, LOOP, "DataIDTracker"))
    s = p.reg(SetObj(mem=p.fresh("completed", z3.ArraySort(U, BoolS)), el=EU("MpiDataID")))
    tr.attrs["completed_data_ids"] = s
    m0 = s.mem
    l = ids(p, it, nonempty=False)
    it.call(meth(it, tr, "add_to_completed"), [l])
    s = tr.attrs["completed_data_ids"]
    p.check("exactly the reported references are added", boolt(it.contains(s, e)) == z3.Or(m0[e.t], cnt_of(it, l, "e") > 0))
    p.post()


@unit(UNITS, "pyseq wait")
def u_pyseq(p):
    it = Interp(p)
    e = p.u("e", "DataID")
    p.track("e", e.t)
    l = ids(p, it)
    n = p.int("num_returns")
    p.assume(z3.And(1 <= n.t, n.t <= l.n))
    c0 = cnt_of(it, l, "e")
    cls = glob(it, "unidist.core.backends.pyseq.backend", "PySeqBackend")
    k, r = call_catch(it, meth(it, cls, "wait"), [l], {"num_returns": n})
    p.check("no exception", k == "ret")
    if k == "ret":
        done_checks(p, it, r, c0, n.t, ready=False)
    p.post()


class Delayed(Native):
    """the shared dictionary of the multiprocessing backend; another process may finish an object at any time"""

    def __init__(self, it):
        self.it = it


@unit(UNITS, "pymp wait", budget=120)
def u_pymp(p):
    it = Interp(p)
    e = p.u("e", "DataID")
    p.track("e", e.t)
    mod = "unidist.core.backends.pymp.core.object_store"
    o = new(it, glob(it, mod, "ObjectStore"))
    l = ids(p, it)
    n = p.int("num_returns")
    p.assume(z3.And(1 <= n.t, n.t <= l.n))
    c0 = cnt_of(it, l, "e")

    class Shared(Native):
        def getitem(self, it_, k):
            return Slot(k)

    class Slot(Native):
        def __init__(self, k):
            self.k = k

    dl = glob(it, mod, "Delayed")

    def isinst(it_, v, t):
        if isinstance(v, Slot) and t is dl:
            # asked at some moment: not delayed then means finished from then on
            b = it_.p.fresh("delayed_now", BoolS)
            it_.p.assume(z3.Implies(z3.Not(b), READY(it_.box(v.k))))
            return b
        return NotImplemented

    it.isinst_hook = isinst
    o.attrs["store_delayed"] = Shared()
    it.inv.append(lambda it_, s, k_: [(f"{nm} is finished", z3.Implies(cnt_of(it_, v, "e") > 0, READY(e.t))) for nm, v in local_lists(s)])
    k, r = call_catch(it, meth(it, o, "wait"), [l], {"num_returns": n})
    p.check("no exception", k == "ret")
    if k == "ret":
        done_checks(p, it, r, c0, n.t)
    p.post()


@unit(UNITS, "DaskBackend.wait", budget=120)
def u_dask(p):
    it = Interp(p)
    mod = "unidist.core.backends.dask.backend"
    e = p.u("e", "Future")
    p.track("e", e.t)
    l = ids(p, it, "futures")
    distinct(p, l)
    n = p.int("num_returns")
    p.assume(z3.And(1 <= n.t, n.t <= l.n))
    c0 = cnt_of(it, l, "e")
    p.assume(c0 <= 1)

    def wait(it_, a, k):
        # contract of distributed.wait: a partition into finished and other futures, at least one of them (or all) finished
        k = dict(k)
        fs = a[0] if a else k.pop("fs")
        when = k.pop("return_when", "ALL_COMPLETED")
        if k or len(a) > 1 or when not in ("FIRST_COMPLETED", "ALL_COMPLETED") or not isinstance(fs, ListObj):
            raise Unsupported("wait with other parameters")
        it_.p.check("requires: there is something to wait for", zt(length(it_, fs)) >= 1)
        d, r = symlist(it_, "done", EU("Future")), symlist(it_, "rest", EU("Future"))
        for x in (d, r):
            x.tup, x.pyt = BAG, "set"
            it_.cnt_facts(x)
        it_.p.assume(z3.And(d.n >= 1, r.n >= 0, d.n + r.n == zt(length(it_, fs)), cnt_of(it_, d, "e") + cnt_of(it_, r, "e") == cnt_of(it_, fs, "e")))
        if when == "ALL_COMPLETED":
            it_.p.assume(r.n == 0)
        it_.p.assume(all_ready(it_, d))
        return it_.mktuple([d, r])

    it.gover[(mod, "wait")] = Builtin("wait", wait)
    it.inv.append(lambda it_, s, k_: [(f"{nm} is finished", z3.Implies(cnt_of(it_, v, "e") > 0, READY(e.t))) for nm, v in local_lists(s)])

    def parts(it_, s, k_):
        ll = [(nm, v) for nm, v in local_lists(s) if v is not l]
        out = []
        for i, (a, x) in enumerate(ll):
            out.append((f"{a} has num_returns", zt(length(it_, x)) >= n.t))
            out.append((f"{a} has one", zt(length(it_, x)) >= 1))
            for b, y in ll[i + 1:]:
                out.append((f"{a} and {b} are the futures", cnt_of(it_, x, "e") + cnt_of(it_, y, "e") == c0))
                out.append((f"{a} and {b} have all", zt(length(it_, x)) + zt(length(it_, y)) == l.n))
        return out

    it.inv.append(parts)
    k, r = call_catch(it, meth(it, glob(it, mod, "DaskBackend"), "wait"), [l], {"num_returns": n})
    p.check("no exception", k == "ret")
    if k == "ret":
        done_checks(p, it, r, c0, n.t)
        p.cover("returned")
    p.post()
