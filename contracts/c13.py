"""C13: tasks of a worker."""
from pyvc.interp import _Star

from contracts.store import *

UNITS = []
NOTE = (
    "Proof, for all pending lists, numbers of results, arguments and outcomes, of TaskStore: checks of pending tasks, requests for missing data, execution of plain and coroutine tasks; "
    "schedules on whole clusters are run (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = [
    "a task called by the worker does not call back into the worker's own TaskStore",
    "the event loop runs a created coroutine once, up to its end",
]
TS = MPI + "worker.task_store"
ISEXC = z3.Function("is_exception", U, BoolS)
POS = z3.Function("position_of", U, IntS)


def task_store(p, it):
    it.gover[(TS, "mpi_state")] = None
    it.gover[(TS, "w_logger")] = Ignore()
    it.gover[(TS, "time")] = Ignore()
    it.gover[(TS, "asyncio")] = Ignore()
    o = new(it, glob(it, TS, "TaskStore"))
    it.call(meth(it, o, "__init__"), [])
    for n in ("_pending_tasks_list", "_pending_actor_tasks_list"):
        if n not in o.attrs:
            raise Unsupported(f"TaskStore.{n} is gone")
    return o


def pending(actor):
    attr = "_pending_actor_tasks_list" if actor else "_pending_tasks_list"
    other = "_pending_tasks_list" if actor else "_pending_actor_tasks_list"

    def fn(p):
        it = Interp(p)
        o = task_store(p, it)
        e = p.u("e")
        p.track("e", e.t)
        l = symlist(it, "pending", EU("request"))
        it.cnt_facts(l)
        o.attrs[attr] = l
        l2 = symlist(it, "others", EU("request"))
        o.attrs[other] = l2
        j, i = z3.Ints("j!p i!p")
        arr, n = l.arr, l.n
        # requests are different objects; POS gives the place of a request in the list
        p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(POS(arr[j]) == j, arr[j] != NONE)), patterns=[arr[j]]))
        c0 = cnt_of(it, l, "e")
        READY = z3.Function("can_run", U, BoolS)
        it.ghost.attrs["done"] = 0
        it.ghost.attrs["seen"] = 0

        def proc(it_, v):
            """contract of process_task_request: runs the task once and gives None, or gives the request back"""
            r = v["request"]
            t = it_.box(r)
            g = it_.ghost.attrs
            it_.p.check("requests are checked in their order, each once", z3.And(POS(t) == intt(g["seen"]), t == arr[intt(g["seen"])], intt(g["seen"]) < n))
            g["seen"] = mkint(intt(g["seen"]) + 1)
            if it_.p.branch(READY(t)):
                g["done"] = mkint(intt(g["done"]) + z3.If(t == e.t, 1, 0))
                return None
            return Sym(t, "u", "request")

        it.summaries[TS + ":TaskStore.process_task_request"] = proc
        it.truth_hook = lambda it_, v: True if isinstance(v, Sym) and v.ty == "request" else NotImplemented

        def inv(it_, s, k):
            g = it_.ghost.attrs
            out = [("seen", intt(g["seen"]) == k), ("run", intt(g["done"]) == z3.If(READY(e.t), pcnt(arr, e.t, k), 0))]
            for nm, ll in local_lists(s):
                if ll is l or ll.tup:
                    continue
                a, m = view(it_, ll, EU("request"))
                if a is None:
                    continue
                try:
                    c = cnt_of(it_, ll, "e")
                except Unsupported:
                    continue
                out.append((f"{nm}: kept", c == z3.If(READY(e.t), 0, pcnt(arr, e.t, k))))
                out.append((f"{nm}: from the part seen", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= POS(a[j]), POS(a[j]) < k)), patterns=[a[j]] if z3.is_const(a) else [])))
                out.append((f"{nm}: in order", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), POS(a[i]) < POS(a[j])))))
            return out

        it.inv.append(inv)
        k, r = call_catch(it, meth(it, o, "check_pending_actor_tasks" if actor else "check_pending_tasks"), [])
        p.check("no exception", k == "ret")
        new_l = o.attrs[attr]
        a, m = view(it, new_l, EU("request"))
        p.check("each request is run once or kept, never both, never lost", z3.And(intt(it.ghost.attrs["done"]) + cnt_of(it, new_l, "e") == c0, z3.Or(intt(it.ghost.attrs["done"]) == 0, cnt_of(it, new_l, "e") == 0)))
        p.check("exactly the ones that can run are run", intt(it.ghost.attrs["done"]) == z3.If(READY(e.t), c0, 0))
        x, y = p.int("x").t, p.int("y").t
        p.check("the kept ones keep their order", z3.Implies(z3.And(0 <= x, x < y, y < m), POS(a[x]) < POS(a[y])))
        p.check("the other list is not touched", same_value(it, o.attrs[other], l2))
        p.post()

    return fn


UNITS.append(Unit("TaskStore.check_pending_tasks", pending(False), budget=120))
UNITS.append(Unit("TaskStore.check_pending_actor_tasks", pending(True), budget=120))


@unit(UNITS, "TaskStore.put / put_actor / clear")
def u_put(p):
    it = Interp(p)
    o = task_store(p, it)
    e, x = p.u("e"), p.u("request")
    p.track("e", e.t)
    ls = {}
    for n in ("_pending_tasks_list", "_pending_actor_tasks_list"):
        ls[n] = o.attrs[n] = symlist(it, n, EU(None))
        it.cnt_facts(ls[n])
    c = {n: cnt_of(it, l, "e") for n, l in ls.items()}
    n0 = {n: l.n for n, l in ls.items()}
    case = p.choose(4)
    mine, oth = ("_pending_tasks_list", "_pending_actor_tasks_list") if case % 2 == 0 else ("_pending_actor_tasks_list", "_pending_tasks_list")
    if case < 2:
        it.call(meth(it, o, "put" if case == 0 else "put_actor"), [x])
        p.check("the request is added once", cnt_of(it, o.attrs[mine], "e") == c[mine] + z3.If(x.t == e.t, 1, 0))
        a, m = view(it, o.attrs[mine], EU(None))
        p.check("at the end", z3.And(m == n0[mine] + 1, a[m - 1] == x.t))
    else:
        it.call(meth(it, o, "clear_pending_tasks" if case == 2 else "clear_pending_actor_tasks"), [])
        p.check("no request is left", zt(length(it, o.attrs[mine])) == 0)
    p.check("the other list is not touched", cnt_of(it, o.attrs[oth], "e") == c[oth])
    p.post()


HAS = z3.Function("store_contains", U, BoolS)
VALUE = z3.Function("value_of", U, U)


def id_hook(it, more=None):
    it.p.assume(z3.Not(ISEXC(NONE)))
    def h(it_, v, t):
        if isinstance(v, Sym) and v.k == "u":
            if v.ty == "MpiDataID":
                return isinstance(t, Cls) and t.name in ("DataID", "MpiDataID")
            if isinstance(t, PyType) and t.name in ("Exception", "BaseException"):
                return ISEXC(v.t)
            if v.ty == "plain":
                return False
        return NotImplemented

    it.isinst_hook = h


class Obj_(Native):
    def m_contains(self, it, i):
        return Sym(HAS(it.box(i)), "bool")

    def m_get(self, it, i):
        it.p.check("requires: only an available object is read", HAS(it.box(i)))
        return Sym(VALUE(it.box(i)), "u")


class Req(Native):
    def __init__(self, p, data=2):
        self.f_DATA = data
        self.asked = z3.Function("already_requested", U, BoolS)
        self.log = []

    def m_is_data_already_requested(self, it, i):
        return Sym(self.asked(it.box(i)), "bool")

    def m_put(self, it, i, rank, kind, **k):
        self.log.append(("put", i, rank, kind))

    def m_check_pending_get_requests(self, it, i):
        self.log.append(("get", i))

    def m_check_pending_wait_requests(self, it, i):
        self.log.append(("wait", i))


class ReqCls(Single):
    def __init__(self, st):
        super().__init__(st)
        self.f_DATA = st.f_DATA


@unit(UNITS, "TaskStore.unwrap_local_data_id")
def u_unwrap(p):
    it = Interp(p)
    o = task_store(p, it)
    s, me = local_store(p, it)
    id_hook(it)
    it.gover[(TS, "LocalObjectStore")] = Single(s)
    it.gover[(TS, "ObjectStore")] = Single(Obj_())
    req = Req(p)
    it.gover[(TS, "RequestStore")] = ReqCls(req)
    asked = []
    it.summaries[TS + ":TaskStore.request_worker_data"] = lambda it_, v: asked.append(v)
    isid = p.choose(2)
    x = p.u("arg", "MpiDataID" if isid else "plain")
    OWN = s.attrs["_data_owner_map"]
    known, own = OWN.dom[x.t], OWN.val[x.t]
    k, r = call_catch(it, meth(it, o, "unwrap_local_data_id"), [x])
    if not isid:
        p.check("no exception", k == "ret")
        v, pend = it.unpack(r, 2)
        p.check("another object is passed through, and not pending", z3.And(it.box(v) == x.t, z3.Not(boolt(pend)), not asked))
        p.cover("plain")
        p.post()
        return
    if k == "exc":
        p.check("fails only for an identifier nobody knows", z3.Not(z3.Or(HAS(x.t), known)))
        p.check("nothing is asked", not asked)
        p.post()
        return
    v, pend = it.unpack(r, 2)
    p.check("pending exactly if the object is not here", boolt(pend) == z3.Not(HAS(x.t)))
    p.check("an available object becomes its value, another one stays", it.box(v) == z3.If(HAS(x.t), VALUE(x.t), x.t))
    must = z3.And(z3.Not(HAS(x.t)), z3.Not(req.asked(x.t)), own != me.t)
    p.check("its owner is asked exactly if it was not asked before", z3.And(len(asked) <= 1, (len(asked) == 1) == must))
    if asked:
        p.check("the owner of this object", z3.And(intt(asked[0]["dest_rank"]) == own, it.box(asked[0]["data_id"]) == x.t))
        p.cover("asked")
    p.post()


@unit(UNITS, "TaskStore.request_worker_data")
def u_request(p):
    it = Interp(p)
    o = task_store(p, it)
    s, me = local_store(p, it)
    req = Req(p)
    it.gover[(TS, "RequestStore")] = ReqCls(req)
    hs = []

    class Async(Native):
        def m_extend(self, it_, h):
            hs.append(h)

    it.gover[(TS, "AsyncOperations")] = Single(Async())
    out = []

    def send(it_, v):
        out.append(v)
        return "handlers"

    it.summaries[MPI + "communication:isend_simple_operation"] = send
    x, d = p.u("data_id", "MpiDataID"), p.int("owner")
    it.call(meth(it, o, "request_worker_data"), [d, x])
    p.check("one request", len(out) == 1)
    v = out[0]
    g = lambda n: it.getitem(v["operation_data"], n)
    p.check("as a request for data, to the given process", z3.And(v["operation_type"] == it.getattr(glob(it, MPI + "common", "Operation"), "GET"), intt(v["dest_rank"]) == d.t))
    p.check("for the given object, from this process", z3.And(it.box(g("id")) == x.t, intt(g("source")) == me.t))
    p.check("answered without blocking", g("is_blocking_op") is False)
    p.check("the pending sends are kept", hs == ["handlers"])
    p.check("the request is remembered", len(req.log) == 1 and req.log[0][0] == "put" and req.log[0][3] == 2)
    p.check("for the given object", it.box(req.log[0][1]) == x.t)
    p.post()


def execute(coro, outs):
    """execute_received_task; outs: none, one or several references"""

    def fn(p):
        created = []

        def create(it_, a, k):
            created.append(a[0])

            class T(Native):
                def m_add_done_callback(self, it2, f):
                    return None

            return T()

        it = Interp(p)
        o = task_store(p, it)
        it.gover[(TS, "asyncio")] = ExtModule("asyncio")
        it.ext["asyncio.create_task"] = Builtin("create_task", create)
        it.ext["inspect"] = ExtModule("inspect")
        it.ext["inspect.iscoroutinefunction"] = Builtin("iscoroutinefunction", lambda it_, a, k: coro)
        it.ext["functools"] = ExtModule("functools")
        it.ext["functools.partial"] = Builtin("partial", lambda it_, a, k: Builtin("partial", lambda i2, a2, k2: it_.call(a[0], list(a[1:]) + list(a2), {**k, **k2})))
        bt = []

        class Bg(Native):
            def m_add(self, it_, x):
                bt.append(x)

            def m_discard(self, it_, x):
                pass

        o.attrs["background_tasks"] = Bg()
        id_hook(it)
        it.attr_hook = data_id_attr
        me = p.int("own_rank")
        M = p.int("root_monitor")

        class St(MState):
            def m_get_monitor_by_worker_rank(self, it_, rank=0):
                it_.p.check("requires: the root monitor is the one of the controller", rank == 0)
                return M

        st = St(me)
        it.gover[(TS, "mpi_state")] = st
        it.gover[(MPI + "communication", "MPIState")] = Single(st)
        D = sym_dict(it, "values", EU(None), keyty="MpiDataID")
        S = sym_dict(it, "serialized", EU(None), keyty="MpiDataID", notnone=True)
        H = sym_dict(it, "shared", EU(None), keyty="MpiDataID", notnone=True)
        d0 = D.dom, D.val
        SER = z3.Function("serialized_form", U, U)
        FIT = z3.Function("should_be_shared", U, BoolS)

        class Local(Native):
            f_x = None

            def m_put(self, it_, i, v):
                it_.setitem(D, i, v)

            def m_cache_serialized_data(self, it_, i, v):
                it_.setitem(S, i, v)

        alloc = p.bool("shared_allocated")

        class Shared(Native):
            def m_is_allocated(self, it_):
                return alloc

            def m_should_be_shared(self, it_, v):
                return Sym(FIT(it_.box(v)), "bool")

            def m_put(self, it_, i, v):
                it_.p.check("shared memory is used only if there is some", alloc.t)
                it_.setitem(H, i, v)

        ls, sh = Local(), Shared()
        ls.f_D, ls.f_S, sh.f_H = D, S, H
        it.gover[(TS, "LocalObjectStore")] = Single(ls)
        it.gover[(TS, "SharedObjectStore")] = Single(sh)
        it.summaries[MPI + "serialization:serialize_complex_data"] = lambda it_, v: Sym(SER(it_.box(v["data"])), "u")
        req = Req(p)
        it.gover[(TS, "RequestStore")] = ReqCls(req)
        done = []
        state = {"calls": 0, "chk": 0}

        def stored(i, val, exc):
            return z3.And(D.dom[i], D.val[i] == val)

        def send(it_, v):
            done.append(v)
            it_.p.check("results are announced after waiting requests were looked at", [x[0] for x in req.log] == ["get", "wait"])

        it.summaries[MPI + "communication:send_simple_operation"] = send

        def chk(it_, v):
            state["chk"] += 1

        it.summaries[TS + ":TaskStore.check_all_pending_tasks"] = chk
        args = symlist(it, "args", EU("plain"))
        vals = symlist(it, "kwvalues", EU("plain"))

        class Kw(Native):
            """the keyword arguments"""

            def m_values(self, it_):
                return vals

        kw = sym_dict(it, "kwargs", EU("plain"), keyty="str")
        it.summaries["kw"] = None
        raised, res = p.u("raised"), p.u("result", "plain")
        p.assume(ISEXC(raised.t))
        n = p.int("num_returns")
        p.input("num_returns", n)
        resl = symlist(it, "results", EU("plain"))
        j = z3.Int("j!x")
        outcome = {"raised": None}

        def task(it_, a, k):
            state["calls"] += 1
            it_.p.check("the task gets its positional arguments", len(a) == 1 and isinstance(a[0], _Star) and a[0].v is args)
            it_.p.check("the task gets its keyword arguments", list(k) == ["**"] and k["**"] is kw)
            it_.p.check("the task runs once", state["calls"] == 1)
            it_.p.check("nothing is stored or announced before the task ran", not done and not req.log)
            if it_.p.branch(it_.p.bool("task_raises").t):
                outcome["raised"] = raised
                raise PyRaise(raised)
            r = resl if outs == "n" else res
            return Coroutine(lambda: r) if coro else r

        if outs == "none":
            ids = None
        elif outs == "one":
            ids = p.u("output", "MpiDataID")
        else:
            ids = symlist(it, "outputs", EU("MpiDataID"))
            p.assume(z3.And(ids.n == n.t, n.t >= 2, resl.n == n.t))
            ia = ids.arr
            p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n.t), POS(ia[j]) == j), patterns=[ia[j]]))
        q = p.int("index").t
        x = p.u("other", "MpiDataID")

        def inv(it_, s, k):
            out = []
            if outs == "n":
                g = lambda e: z3.And(D.dom[ia[j]], D.val[ia[j]] == e)
                rng = z3.And(0 <= j, j < k)
                ran, bad = state["calls"] == 1, outcome["raised"] is not None
                src = s.srcl is not None and s.srcl[0] is not None and (s.srcl[0].eq(args.arr) or s.srcl[0].eq(vals.arr))
                out.append(("results stored", z3.BoolVal(True) if src or not ran or bad else z3.ForAll([j], z3.Implies(rng, g(resl.arr[j])), patterns=[ia[j]])))
                form = lambda e: z3.Or(z3.And(H.dom[ia[j]], H.val[ia[j]] == SER(e)), z3.And(S.dom[ia[j]], S.val[ia[j]] == SER(e)))
                out.append(("results sendable", z3.BoolVal(True) if src or not ran or bad else z3.ForAll([j], z3.Implies(rng, form(resl.arr[j])), patterns=[ia[j]])))
                out.append(("failure stored", z3.BoolVal(True) if src or not bad else z3.ForAll([j], z3.Implies(rng, g(raised.t)), patterns=[ia[j]])))
                out.append(("some failure stored", z3.BoolVal(True) if src or ran and not bad else z3.ForAll([j], z3.Implies(rng, z3.And(D.dom[ia[j]], ISEXC(D.val[ia[j]]))), patterns=[ia[j]])))
                for nm, l in local_lists(s):
                    if l.tup or l is ids or l is args or l is resl or nm.startswith("self."):
                        continue
                    a, m = view(it_, l, EU(None))
                    if a is None or src or not l.items is None and not l.items:
                        continue
                    out.append((f"{nm}: length", m == n.t))
                    out.append((f"{nm}: finished references", z3.ForAll([j], z3.Implies(rng, a[j] == ia[j]), patterns=[ia[j]])))
                out.append(("others stored", z3.Implies(z3.Not(isout), z3.And(D.dom[x.t] == d0[0][x.t], D.val[x.t] == d0[1][x.t]))))
            if s.srcl is not None and s.srcl[0].sort() == z3.ArraySort(IntS, U):
                sa = s.srcl[0]
                out.append(("no failed argument so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(ISEXC(sa[j]))), patterns=[sa[j]])))
            return out

        isout = z3.And(0 <= POS(x.t), POS(x.t) < n.t, ids.arr[POS(x.t)] == x.t) if outs == "n" else None
        it.inv.append(inv)
        k, r = call_catch(it, meth(it, o, "execute_received_task"), [ids, Builtin("task", task), args, kw])
        p.check("the worker goes on", k == "ret")
        if k != "ret":
            return
        if coro:
            p.check("one coroutine is started, nothing is done before", len(created) == 1 and not done and state["calls"] == 0)
            p.check("it stays referenced while it runs", len(bt) == 1)
            try:
                created[0].thunk()
            except PyRaise:
                p.check("the worker goes on", False)
                return
        failed = p.int("failed_index").t
        p.check("exactly one completion message", len(done) == 1)
        d = done[0]
        p.check("to the root monitor, as a finished task", z3.And(intt(d["dest_rank"]) == M.t, d["operation_type"] == it.getattr(glob(it, MPI + "common", "Operation"), "TASK_DONE")))
        p.check("requests waiting for the results are looked at once", [y[0] for y in req.log] == ["get", "wait"] and all(y[1] is ids or same_value(it, y[1], ids) is not None and y[1] is ids for y in req.log))
        data = d["operation_data"]
        a, m = view(it, data, EU(None))
        if state["calls"] == 0:
            p.cover("an argument failed")
        if outs == "none":
            p.check("no reference: an empty report", m == 0)
            p.check("no reference: nothing is stored", z3.And(D.dom[x.t] == d0[0][x.t], D.val[x.t] == d0[1][x.t]))
        else:
            if outs == "one":
                p.check("the report names the reference", z3.And(m == 1, a[0] == ids.t))
                i, good = ids.t, res.t
                other = x.t != i
            else:
                p.assume(z3.And(0 <= q, q < n.t))
                p.check("the report names all references", z3.And(m == n.t, a[q] == ids.arr[q]))
                i, good = ids.arr[q], resl.arr[q]
                other = z3.Not(isout)
            if state["calls"] == 0:
                p.check("not run: each reference holds a failure", z3.And(D.dom[i], ISEXC(D.val[i])))
            elif outcome["raised"] is not None:
                p.check("raised: each reference holds the exception", z3.And(D.dom[i], D.val[i] == raised.t))
                p.cover("raised")
            else:
                p.check("returned: each reference holds its own value", z3.And(D.dom[i], D.val[i] == good))
                p.check("returned: the value can be sent", z3.Or(z3.And(S.dom[i], S.val[i] == SER(good)), z3.And(H.dom[i], H.val[i] == SER(good))))
                p.cover("returned")
            p.check("no other reference is affected", z3.Implies(other, z3.And(D.dom[x.t] == d0[0][x.t], D.val[x.t] == d0[1][x.t])))
        if state["calls"] == 1:
            qa = p.int("argument_index").t
            p.assume(z3.And(0 <= qa, qa < args.n))
            p.check("a task runs only if none of its positional arguments failed", z3.Not(ISEXC(args.arr[qa])))
        if coro:
            p.check("tasks that may have become ready are looked at", state["chk"] == 1)
        p.post()

    return fn


for c in (False, True):
    for w in ("none", "one", "n"):
        UNITS.append(Unit(f"TaskStore.execute_received_task: {'coroutine' if c else 'function'}, {w} result{'s' if w == 'n' else ''}", execute(c, w), budget=180))


def ptr(p):
    it = Interp(p)
    o = task_store(p, it)
    id_hook(it)
    it.attr_hook = data_id_attr
    it.gover[(TS, "ObjectStore")] = Single(Obj_())
    tid = p.choose(2)
    task = p.u("task", "MpiDataID" if tid else "plain")
    if tid:
        p.assume(HAS(task.t))
    args, kwargs = symlist(it, "args", EU("plain")), sym_dict(it, "kwargs", EU("plain"), keyty="str")
    na, nk = symlist(it, "new_args", EU("plain")), sym_dict(it, "new_kwargs", EU("plain"), keyty="str")
    pa, pk = p.bool("args_pending"), p.bool("kwargs_pending")
    out = p.u("output", "MpiDataID")
    un = []

    def mat(it_, v):
        """contract of materialize_data_ids (C05)"""
        it_.p.check("references are resolved by the store", isinstance(v["unwrap_data_id_impl"], Bound) and v["unwrap_data_id_impl"].self_ is o)
        un.append(v["data_ids"])
        if v["data_ids"] is args:
            return it_.mktuple([na, Sym(z3.Or(pa.t, boolt(v["is_pending"])), "bool")])
        it_.p.check("the arguments of the request are resolved", v["data_ids"] is kwargs)
        return it_.mktuple([nk, Sym(z3.Or(pk.t, boolt(v["is_pending"])), "bool")])

    it.summaries[MPI + "common:materialize_data_ids"] = mat
    it.gover[(MPI + "common", "unwrapped_data_ids_list")] = Builtin("unwrapped_data_ids_list", lambda it_, a, k: "ids")
    ran = []
    it.summaries[TS + ":TaskStore.execute_received_task"] = lambda it_, v: ran.append(v)
    req = p.reg(DictObj(items={"task": task, "args": args, "kwargs": kwargs, "output": out}))
    k, r = call_catch(it, meth(it, o, "process_task_request"), [req])
    p.check("no exception", k == "ret")
    if ran:
        p.check("never run before all dependencies are available", z3.Not(z3.Or(pa.t, pk.t)))
        p.check("run exactly once", len(ran) == 1)
        v = ran[0]
        p.check("with the resolved arguments", v["args"] is na and v["kwargs"] is nk)
        p.check("the function itself, or the value of its reference", it.box(v["task"]) == (VALUE(task.t) if tid else task.t))
        p.check("for its references", it.box(v["output_data_ids"]) == out.t)
        p.check("and not kept", r is None)
        p.cover("run")
    else:
        p.check("kept only while a dependency is missing", z3.Or(pa.t, pk.t))
        p.check("the same request is kept", r is req)
        p.check("with the same function and references", r is req and req.items["task"] is task and req.items["output"] is out)
        p.check("with arguments resolved so far", r is req and req.items["args"] in (na, args) and req.items["kwargs"] in (nk, kwargs))
        p.cover("kept")
    p.post()


UNITS.append(Unit("TaskStore.process_task_request", ptr))
