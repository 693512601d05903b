"""Step contracts of the endless loops of workers and monitors: an arbitrary iteration from an arbitrary reachable state
(the invariants are inductive), for an arbitrary message."""
from contracts.store import *
from pyvc.interp import _Star

WL, ML = MPI + "worker.loop", MPI + "monitor.loop"
COMM, COMMON = MPI + "communication", MPI + "common"
PAYLOAD = {
    "EXECUTE": "pull", "GET": "obj", "PUT_DATA": "pull", "PUT_OWNER": "obj", "PUT_SHARED_DATA": "pull", "WAIT": "obj", "ACTOR_CREATE": "pull", "ACTOR_EXECUTE": "pull",
    "CLEANUP": "ser", "CANCEL": None, "SHUTDOWN": None,
}


def bools(s):
    return [(n, v) for n, (d, k) in s.head.vars.items() for v in [d.get(k)] if isinstance(v, bool) or isinstance(v, Sym) and v.k == "bool"]


def op(it, name):
    return it.getattr(glob(it, COMMON, "Operation"), name)


class Rec(Native):
    """an object whose methods are recorded"""

    def __init__(self, log, who, **meths):
        for n, f in meths.items():
            setattr(self, "f_" + n, Builtin(n, lambda i, a, k, n=n, f=f: (log.append((who + "." + n, list(a), dict(k))), f(i, *a) if f else None)[1]))


def aio(it):
    it.ext["functools"] = ExtModule("functools")
    it.ext["functools.wraps"] = Builtin("wraps", lambda i, a, k: Builtin("wraps()", lambda i2, a2, k2: a2[0]))
    it.ext["functools.partial"] = Builtin("partial", lambda i, a, k: Builtin("partial()", lambda i2, a2, k2: i2.call(a[0], list(a[1:]) + list(a2), {**k, **k2})))

    class Loop(Native):
        def m_run_in_executor(self, it_, ex, f):
            return it_.call(f)

    it.ext["asyncio"] = ExtModule("asyncio")
    it.ext["asyncio.get_event_loop"] = Builtin("get_event_loop", lambda i, a, k: Loop())
    it.ext["asyncio.get_running_loop"] = Builtin("get_running_loop", lambda i, a, k: Loop())
    it.ext["asyncio.sleep"] = Builtin("sleep", lambda i, a, k: None)


class Finalizer:
    def __init__(self, it, p, mod, log):
        fin = p.bool("mpi_is_finalized")
        it.ext["mpi4py"] = ExtModule("mpi4py")
        it.ext["mpi4py.MPI"] = ExtModule("mpi4py.MPI")
        it.ext["mpi4py.MPI.Is_finalized"] = Builtin("Is_finalized", lambda i, a, k: fin)
        it.ext["mpi4py.MPI.Finalize"] = Builtin("Finalize", lambda i, a, k: log.append(("MPI.Finalize", [], {})))
        it.ext["mpi4py.MPI.BYTE"] = p.u("BYTE")
        self.fin = fin
        it.gover[(mod, "MPI")] = it.ext["mpi4py.MPI"]


def worker_step(kinds=None):
    """kinds: the operations whose step is examined (all of them count for the reachable states)"""

    def fn(p):
        # the operation that is received, or None for an iteration without a message
        kind = ALL_WORKER[p.choose(len(ALL_WORKER))]
        examined = kinds is None or kind in kinds
        it = Interp(p)
        aio(it)
        log = []
        G = it.ghost.attrs
        G.update(cancelled=False, posted=False, pend_t=False, pend_a=False)
        me, rootmon, src = p.int("own_rank"), p.int("root_monitor"), p.int("source_rank")
        comm = Rec(log, "comm", Barrier=None, iprobe=lambda i, *a: p.bool("message_waiting"))

        class MS(Native):
            def __init__(self):
                self.f_global_comm, self.f_global_rank = comm, me

            def m_get_monitor_by_worker_rank(self, it_, r=None):
                return rootmon if r == 0 else it_.p.int("other_monitor")

        it.gover[(WL, "mpi_state")] = MS()
        it.gover[(COMM, "MPIState")] = Single(MS())
        F = Finalizer(it, p, WL, log)
        it.gover[(WL, "MpiBackoff")] = Cfg(p.u("backoff"))
        pend_req = [None, p.u("pending_request", "dict")][p.choose(2)] if kind in ("EXECUTE", "ACTOR_EXECUTE") else None
        it.truth_hook = lambda i, v: z3.BoolVal(True) if v is pend_req else NotImplemented

        def gset(**kw):
            for k, v in kw.items():
                G[k] = v

        ts = Rec(
            log, "task_store",
            process_task_request=lambda i, r: (i.p.check("nothing is executed after the cancellation", z3.Not(boolt(G["cancelled"]))), pend_req)[1],
            put=lambda i, r: gset(pend_t=True), put_actor=lambda i, r: gset(pend_a=True),
            check_all_pending_tasks=lambda i: i.p.check("pending tasks are not executed after the cancellation", z3.Implies(boolt(G["cancelled"]), z3.Not(z3.Or(boolt(G["pend_t"]), boolt(G["pend_a"]))))),
            clear_pending_tasks=lambda i: gset(pend_t=False), clear_pending_actor_tasks=lambda i: gset(pend_a=False),
        )
        rs = Rec(log, "request_store", process_get_request=None, process_wait_request=None, discard_data_request=None, clear_get_requests=None, clear_wait_requests=None)
        name, cls, inst = p.u("method_name", "str"), p.u("class"), p.u("instance")
        amap = sym_dict(it, "actors", EU(None), keyty="MpiDataID")
        old = {}
        handler = p.u("handler", "MpiDataID")
        empty = p.bool("all_sent")
        ls = Rec(log, "local_store", put_data_owner=None, clear=None)
        os_ = Rec(log, "object_store", get=lambda i, d: Sym(z3.Function("value_of", U, U)(d.t), "u", "str"))
        ao = Rec(log, "async", check=None, is_empty=lambda i: empty, extend=None)
        sh = Rec(log, "shared_store", finalize=None)
        for n, o in (("TaskStore", ts), ("RequestStore", rs), ("LocalObjectStore", ls), ("ObjectStore", os_), ("AsyncOperations", ao), ("SharedObjectStore", sh)):
            it.gover[(WL, n)] = Single(o)
        it.gover[(WL, "actor_map")] = amap
        METH = z3.Function("method_of", U, U, U)
        it.gover[(WL, "getattr")] = Builtin("getattr", lambda i, a, k: Sym(METH(i.box(a[0]), i.box(a[1])), "u"))

        def create(i, a, k):
            log.append(("create", list(a), dict(k)))
            i.p.check("no actor is created after the cancellation", z3.Not(boolt(G["cancelled"])))
            return inst

        ctor = Builtin("class", create)
        i_, v_ = p.u("id", "MpiDataID"), p.u("requester")
        body = {
            "EXECUTE": lambda: it.mkdict({"task": p.u("task"), "args": p.u("args"), "kwargs": p.u("kwargs"), "output": p.u("output")}),
            "GET": lambda: it.mkdict({"source": v_, "id": i_, "is_blocking_op": p.bool("blocking")}),
            "PUT_DATA": lambda: it.mkdict({"id": i_, "data": v_}), "PUT_SHARED_DATA": lambda: it.mkdict({"id": i_, "data": v_}),
            "PUT_OWNER": lambda: it.mkdict({"id": i_, "owner": v_}), "WAIT": lambda: it.mkdict({"id": i_}),
            "ACTOR_CREATE": lambda: it.mkdict({"class": ctor, "args": symlist(it, "args", EU(None)), "kwargs": sym_dict(it, "kwargs", EU(None), keyty="str"), "handler": handler}),
            "ACTOR_EXECUTE": lambda: it.mkdict({"task": i_, "args": p.u("args"), "kwargs": p.u("kwargs"), "output": p.u("output"), "handler": handler}),
            "CLEANUP": lambda: tuples, "CANCEL": lambda: None, "SHUTDOWN": lambda: None, None: lambda: None,
        }
        MKID = z3.Function("data_id_of", U, U)
        tuples = symlist(it, "collected", EU("tuple"))
        it.summaries[COMMON + ":MpiDataID.__new__"] = NotImplemented
        del it.summaries[COMMON + ":MpiDataID.__new__"]

        def mkid(i, a, k):
            if len(a) == 1 and isinstance(a[0], _Star):
                return Sym(MKID(i.box(a[0].v)), "u", "MpiDataID")
            raise Unsupported("identifier in another form")

        it.gover[(COMMON, "MpiDataID")] = Builtin("MpiDataID", mkid)
        req = body[kind]()
        cancelled0 = []

        def recv_op(it_, v):
            if kind is None:
                raise PathEnd()
            it_.p.check("one message per step", not any(x[0] == "recv_op" for x in log))
            log.append(("recv_op", [], {}))
            if kind == "SHUTDOWN":
                # the root monitor sends it only after this worker was ready (monitor_loop)
                it_.p.assume(boolt(G["posted"]))
            if kind == "CANCEL":
                # sent once, by the first shutdown() of the controller
                it_.p.assume(z3.Not(boolt(G["cancelled"])))
            cancelled0.append(boolt(G["cancelled"]))
            old.update(dom=amap.dom, val=amap.val)
            if kind == "ACTOR_EXECUTE":
                # the actor was created by the request that the same process sent before (Actor.__init__), messages of a process stay in order
                it_.p.assume(z3.Implies(z3.Not(boolt(G["cancelled"])), amap.dom[handler.t]))
            if kind == "CANCEL":
                G["cancelled"] = True
            return it_.mktuple([op(it_, kind), src])

        it.summaries[COMM + ":mpi_recv_operation"] = recv_op

        def payload(how):
            def f(it_, v):
                log.append(("payload", how, v.get("source_rank", v.get("owner_rank"))))
                return req

            return f

        it.summaries[MPI + "controller.common:pull_data"] = payload("pull")
        it.summaries[COMM + ":mpi_recv_object"] = payload("obj")
        it.summaries[COMM + ":recv_serialized_data"] = payload("ser")
        it.summaries[COMM + ":recv_complex_data"] = payload("complex")

        def send_op(it_, v):
            pp = it_.p
            pp.check("the only operation a worker sends by itself is that it is ready", boolt(it_.equal(v["op_type"], op(it_, "READY_TO_SHUTDOWN"))))
            pp.check("to the monitor of the root process", intt(v["dest_rank"]) == rootmon.t)
            pp.check("after it was cancelled", boolt(G["cancelled"]))
            pp.check("once", z3.Not(boolt(G["posted"])))
            chk = [x[0] for x in log]
            pp.check("after all of its messages were sent", empty.t if "async.is_empty" in chk else False)
            log.append(("ready", [], {}))
            G["posted"] = True

        it.summaries[COMM + ":mpi_send_operation"] = send_op

        def inv(it_, s, k):
            out = []
            if s.srcl is not None:
                return out
            out.append(("posted only if cancelled", z3.Implies(boolt(G["posted"]), boolt(G["cancelled"]))))
            out.append(("no pending task after the cancellation", z3.Implies(boolt(G["cancelled"]), z3.Not(z3.Or(boolt(G["pend_t"]), boolt(G["pend_a"]))))))
            for n, v in bools(s):
                for g in ("cancelled", "posted"):
                    out.append((f"{n} is {g}", boolt(v) == boolt(G[g])))
            return out

        it.inv.append(inv)

        def calls(n):
            return [x for x in log if x[0] == n]

        def final(it_, ended=False):
            pp = it_.p
            if not calls("recv_op"):
                if kind is not None:
                    raise PathEnd()
                if not examined:
                    return
                # no message was taken: nothing happened but waiting for the own messages
                pp.check("an iteration without a message does nothing", all(x[0] in ("async.check", "async.is_empty", "comm.iprobe", "comm.Barrier", "ready") for x in log))
                pp.check("it only waits for its own messages", boolt(G["cancelled"]))
                pp.cover("no message")
                pp.post()
                return
            if not examined:
                return
            can = cancelled0[0]
            ad0, av0 = old["dom"], old["val"]
            pl = calls("payload")
            want = PAYLOAD[kind]
            pp.check("the payload of the message is received, once and in its form", [x[1] for x in pl] == ([want] if want else []))
            pp.check("from the sender of the message", z3.And(z3.BoolVal(True), *[intt(x[2]) == src.t for x in pl]))
            E = {}
            if kind == "EXECUTE":
                E = {"task_store.process_task_request": lambda a: a[0] is req}
                E.update({"task_store.put": lambda a: a[0] is pend_req} if pend_req is not None else {"task_store.check_all_pending_tasks": lambda a: True})
            elif kind == "GET":
                E = {"request_store.process_get_request": lambda a: len(a) == 3 and a[0] is v_ and a[1] is i_ and a[2] is req.items["is_blocking_op"]}
            elif kind in ("PUT_DATA", "PUT_SHARED_DATA"):
                E = {"request_store.discard_data_request": lambda a: a[0] is i_, "task_store.check_all_pending_tasks": lambda a: True}
            elif kind == "PUT_OWNER":
                E = {"local_store.put_data_owner": lambda a: a[0] is i_ and a[1] is v_}
            elif kind == "WAIT":
                E = {"request_store.process_wait_request": lambda a: a[0] is i_}
            elif kind == "ACTOR_CREATE":
                kw = req.items["kwargs"]
                E = {"create": lambda a: len(a) == 1 and isinstance(a[0], _Star) and a[0].v is req.items["args"]}
            elif kind == "ACTOR_EXECUTE":
                E = {"task_store.process_task_request": lambda a: a[0] is req}
                E.update({"task_store.put_actor": lambda a: a[0] is pend_req} if pend_req is not None else {"task_store.check_all_pending_tasks": lambda a: True})
            elif kind == "CANCEL":
                E = {n: (lambda a: True) for n in ("task_store.clear_pending_tasks", "task_store.clear_pending_actor_tasks", "request_store.clear_get_requests", "request_store.clear_wait_requests")}
            for n, ok in E.items():
                c = calls(n)
                if kind in ("CANCEL",):
                    pp.check(f"{n}: done", len(c) >= 1)
                else:
                    many = n == "task_store.check_all_pending_tasks"
                    pp.check(f"{n}: done once unless cancelled", z3.Or(can, z3.BoolVal(len(c) == 1 or many and len(c) >= 1)))
                pp.check(f"{n}: with what was received", all(ok(x[1]) for x in c))
                if n == "create" and c:
                    pp.check("create: with the keywords", list(c[0][2]) == ["**"] and c[0][2]["**"] is kw)
            state = ("task_store.process_task_request", "task_store.put", "task_store.put_actor", "request_store.process_get_request", "local_store.put_data_owner", "request_store.process_wait_request", "create", "task_store.clear_pending_tasks", "task_store.clear_pending_actor_tasks", "request_store.clear_get_requests", "request_store.clear_wait_requests")
            for n in state:
                if n not in E:
                    pp.check("nothing else is done", not calls(n))
            if kind in ("EXECUTE", "ACTOR_EXECUTE", "GET", "WAIT", "PUT_OWNER", "ACTOR_CREATE"):
                for n in E:
                    pp.check("nothing is done after the cancellation", z3.Implies(can, z3.BoolVal(not calls(n))))
            hid = p.u("any_handler", "MpiDataID").t
            if kind == "ACTOR_CREATE":
                pp.check("the new instance is the one of the handle, others stay", z3.If(z3.And(z3.Not(can), hid == handler.t), z3.And(amap.dom[hid], amap.val[hid] == inst.t), z3.And(amap.dom[hid] == ad0[hid], z3.Implies(ad0[hid], amap.val[hid] == av0[hid]))))
            else:
                pp.check("the instances of all actors stay", z3.And(amap.dom[hid] == ad0[hid], z3.Implies(ad0[hid], amap.val[hid] == av0[hid])))
            if kind == "ACTOR_EXECUTE" and calls("task_store.process_task_request"):
                t = req.items["task"]
                pp.check("the method of that name of the instance of the handle is run", t.t == METH(av0[handler.t], z3.Function("value_of", U, U)(i_.t)) if isinstance(t, Sym) else False)
            if kind == "CLEANUP":
                c = calls("local_store.clear")
                pp.check("the collected identifiers are removed, once", len(c) == 1)
                a, m = view(it_, c[0][1][0], EU("MpiDataID"))
                q = p.int("index").t
                pp.check("all of them", z3.And(m == zt(tuples.n), z3.Implies(z3.And(0 <= q, q < m), a[q] == MKID(tuples.arr[q]))))
            else:
                pp.check("nothing is removed", not calls("local_store.clear"))
            if kind == "SHUTDOWN":
                pp.check("the shared memory is released, once", len(calls("shared_store.finalize")) == 1)
                pp.check("MPI is finalized if it is not", z3.BoolVal(len(calls("MPI.Finalize")) == 1) == z3.Not(F.fin.t))
                pp.check("the worker ends", ended)
            else:
                pp.check("the worker goes on", not ended and not calls("shared_store.finalize") and not calls("MPI.Finalize"))
            pp.cover(kind)
            pp.post()

        it.iter_end = final
        k, r = call_catch(it, glob(it, WL, "worker_loop"))
        if k == "ret" and isinstance(r, Coroutine):
            try:
                r = r.thunk()
            except PyRaise as e:
                k, r = "exc", e.value
        if k == "exc" and kind is None:
            raise PathEnd()
        p.check("no exception", k == "ret")
        if k == "ret":
            final(it, ended=True)

    return Unit("worker_loop: any step" if kinds is None else "worker_loop step: " + ", ".join(map(str, kinds)), fn, budget=100)


ALL_WORKER = list(PAYLOAD) + [None]


MPAY = {"TASK_DONE": "obj", "WAIT": "obj", "GET_TASK_COUNT": None, "RESERVE_SHARED_MEMORY": "obj", "REQUEST_SHARED_DATA": "obj", "CLEANUP": "ser", "READY_TO_SHUTDOWN": None, "SHUTDOWN": None}


def monitor_step(kinds=None):
    def fn(p):
        names = list(MPAY)
        kind = names[p.choose(len(names))]
        examined = kinds is None or kind in kinds
        it = Interp(p)
        log = []
        G = it.ghost.attrs
        e = p.int("rank")
        p.track("e", e.t)
        me, src = p.int("own_rank"), p.int("source_rank")
        workers, mons = symlist(it, "workers", EInt), symlist(it, "monitors", EInt)
        for l in (workers, mons):
            it.cnt_facts(l)
        cw, cm = cnt_of(it, workers, "e"), cnt_of(it, mons, "e")
        # roles: unit "MPIState"
        p.assume(z3.And(zt(workers.n) >= 1, cw + cm <= 1, z3.Implies(e.t == 0, cw + cm == 0), z3.Implies(e.t == me.t, cm == 1)))
        G.update(nready=0, sent=0, toroot=0)
        comm = Rec(log, "comm", Barrier=None)

        class MS(Native):
            def __init__(self):
                self.f_global_comm, self.f_global_rank, self.f_workers, self.f_monitor_processes = comm, me, workers, mons

        it.gover[(COMM, "MPIState")] = Single(MS())
        F = Finalizer(it, p, ML, log)
        count = p.int("task_counter")
        tc = Rec(log, "counter", increment=None)
        tc.f_task_counter = count
        wh = Rec(log, "waits", add_wait_request=None, process_wait_requests=None)
        dt = Rec(log, "tracker", add_to_completed=None)
        buf = p.u("shared_buffer")
        ss = Rec(log, "shared", get_shared_buffer=lambda i, a, b: buf, finalize=None)
        i_, size, awaited, num, ids = p.u("id", "MpiDataID"), p.int("size"), p.u("awaited"), p.int("num_returns"), p.u("outputs")
        info = it.mkdict({"first_index": p.int("first"), "last_index": p.int("last"), "service_index": p.int("service")})
        known = bool(p.choose(2)) if kind in ("RESERVE_SHARED_MEMORY", "REQUEST_SHARED_DATA") else True
        made = it.mkdict({"first_index": p.int("first2"), "last_index": p.int("last2"), "service_index": p.int("service2")})
        sm = Rec(log, "manager", get=lambda i, d: info if known else None, put=lambda i, d, s: made, clear=None)
        for n, o in (("TaskCounter", tc), ("WaitHandler", wh), ("DataIDTracker", dt), ("SharedObjectStore", ss)):
            it.gover[(ML, n)] = Single(o)
        it.gover[(ML, "SharedMemoryManager")] = Builtin("SharedMemoryManager", lambda i, a, k: sm)
        MKID = z3.Function("data_id_of", U, U)
        tuples = symlist(it, "collected", EU("tuple"))

        def mkid(i, a, k):
            if len(a) == 1 and isinstance(a[0], _Star):
                return Sym(MKID(i.box(a[0].v)), "u", "MpiDataID")
            raise Unsupported("identifier in another form")

        it.gover[(COMMON, "MpiDataID")] = Builtin("MpiDataID", mkid)
        req = {
            "TASK_DONE": lambda: ids, "WAIT": lambda: it.mkdict({"data_ids": awaited, "num_returns": num}), "RESERVE_SHARED_MEMORY": lambda: it.mkdict({"id": i_, "size": size}),
            "REQUEST_SHARED_DATA": lambda: it.mkdict({"id": i_}), "CLEANUP": lambda: tuples,
        }.get(kind, lambda: None)()

        def recv_op(it_, v):
            it_.p.check("one message per step", not any(x[0] == "recv_op" for x in log))
            log.append(("recv_op", [], {}))
            if kind == "READY_TO_SHUTDOWN":
                # each worker is ready once (worker_loop)
                it_.p.assume(intt(G["nready"]) < zt(workers.n))
                G["nready"] = mkint(intt(G["nready"]) + 1)
            return it_.mktuple([op(it_, kind), src])

        it.summaries[COMM + ":mpi_recv_operation"] = recv_op

        def payload(how):
            def f(it_, v):
                log.append(("payload", how, v.get("source_rank", v.get("owner_rank"))))
                return req

            return f

        it.summaries[COMM + ":mpi_recv_object"] = payload("obj")
        it.summaries[COMM + ":recv_serialized_data"] = payload("ser")
        allready = lambda: intt(G["nready"]) == zt(workers.n)

        def send_op(it_, v):
            pp = it_.p
            pp.check("the only operation a monitor sends is the end", boolt(it_.equal(v["op_type"], op(it_, "SHUTDOWN"))))
            pp.check("the end is announced only after all workers are ready", allready())
            pp.check("before the controller is told", z3.BoolVal(not any(x[0] == "to_root" for x in log)))
            G["sent"] = mkint(intt(G["sent"]) + z3.If(intt(v["dest_rank"]) == e.t, 1, 0))

        def send_obj(it_, v):
            d, data = v["dest_rank"], v["data"]
            o = op(it_, "SHUTDOWN")
            if isinstance(data, int) and not isinstance(data, bool) and data == o and isinstance(d, int):
                it_.p.check("the controller is told only after all workers are ready", allready())
                it_.p.check("it is the controller", d == 0)
                it_.p.check("the shared memory is released afterwards", not any(x[0] in ("shared.finalize", "MPI.Finalize") for x in log))
                log.append(("to_root", [], {}))
            else:
                log.append(("reply", [data, d], {}))

        it.summaries[COMM + ":mpi_send_operation"] = send_op
        it.summaries[COMM + ":mpi_send_object"] = send_obj
        it.summaries[COMM + ":mpi_send_buffer"] = lambda it_, v: log.append(("buffer", [v["buffer"] if "buffer" in v else v.get("data"), v["dest_rank"]], {}))

        def inv(it_, s, k):
            out = []
            if s.srcl is None:
                out.append(("not all ready", intt(G["nready"]) < zt(workers.n)))
                out.append(("ready counted", intt(G["nready"]) >= 0))
                out.append(("nobody is told", intt(G["sent"]) == 0))
                for n, l in local_lists(s):
                    out.append((f"{n} ready", zt(length(it_, l)) == intt(G["nready"])))
                for n, v in bools(s):
                    out.append((f"{n} off", z3.Not(boolt(v))))
                for n, v in locals_int(s):
                    out.append((f"{n} ready", intt(v) == intt(G["nready"])))
            else:
                arr, n, el = s.srcl
                c = pcnt(arr, e.t, k) if arr.sort() == z3.ArraySort(IntS, IntS) else None
                if c is not None:
                    for nm, b in (("all", z3.IntVal(0)), ("after workers", cw), ("after monitors", cm), ("w", z3.If(e.t == me.t, 0, cw)), ("m", z3.If(e.t == me.t, 0, cm))):
                        out.append((f"told {nm}", intt(G["sent"]) == b + z3.If(e.t == me.t, 0, c)))
            return out

        it.inv.append(inv)

        def calls(n):
            return [x for x in log if x[0] == n]

        def final(it_, ended=False):
            if not examined:
                return
            pp = it_.p
            pl = calls("payload")
            want = MPAY[kind]
            pp.check("the payload of the message is received, once and in its form", [x[1] for x in pl] == ([want] if want else []))
            pp.check("from the sender of the message", z3.And(z3.BoolVal(True), *[intt(x[2]) == src.t for x in pl]))
            E = {
                "TASK_DONE": {"counter.increment": lambda a: True, "tracker.add_to_completed": lambda a: a[0] is ids, "waits.process_wait_requests": lambda a: True},
                "WAIT": {"waits.add_wait_request": lambda a: a[0] is awaited and a[1] is num, "waits.process_wait_requests": lambda a: True},
                "RESERVE_SHARED_MEMORY": {} if known else {"manager.put": lambda a: a[0] is i_ and a[1] is size},
                "CLEANUP": {"manager.clear": lambda a: True},
            }.get(kind, {})
            for n, ok in E.items():
                c = calls(n)
                pp.check(f"{n}: done once, with what was received", len(c) == 1 and ok(c[0][1]))
            for n in ("counter.increment", "tracker.add_to_completed", "waits.add_wait_request", "manager.put", "manager.clear"):
                if n not in E:
                    pp.check("nothing else is done", not calls(n))
            order = [x[0] for x in log]
            if kind == "TASK_DONE":
                pp.check("completed before the waits are looked at", order.index("tracker.add_to_completed") < order.index("waits.process_wait_requests"))
            if kind == "WAIT":
                pp.check("the request is known before it is looked at", order.index("waits.add_wait_request") < order.index("waits.process_wait_requests"))
            rep, bufs = calls("reply"), calls("buffer")
            if kind in ("GET_TASK_COUNT", "RESERVE_SHARED_MEMORY"):
                pp.check("one answer, to the asking process", z3.And(z3.BoolVal(len(rep) == 1), intt(rep[0][1][1]) == src.t) if len(rep) == 1 else False)
                a = rep[0][1][0]
                if kind == "GET_TASK_COUNT":
                    pp.check("the number of finished tasks", a is count)
                else:
                    use = info if known else made
                    pp.check("the reservation of the object", isinstance(a, DictObj) and a.items is not None and all(a.items.get(x) is y for x, y in use.items.items()))
                    pp.check("the first asking process is told so", a.items.get("is_first_request") is (not known))
            else:
                pp.check("no answer", not rep)
            if kind == "REQUEST_SHARED_DATA":
                g = calls("shared.get_shared_buffer")
                pp.check("the bytes of the reservation are read", len(g) == 1 and g[0][1][0] is info.items["first_index"] and g[0][1][1] is info.items["last_index"])
                pp.check("and sent to the asking process", z3.And(z3.BoolVal(len(bufs) == 1 and bufs[0][1][0] is buf), intt(bufs[0][1][1]) == src.t) if len(bufs) == 1 else False)
            else:
                pp.check("no buffer is sent", not bufs)
            if kind == "CLEANUP":
                c = calls("manager.clear")
                a, m = view(it_, c[0][1][0], EU("MpiDataID"))
                q = p.int("index").t
                pp.check("all collected identifiers", z3.And(m == zt(tuples.n), z3.Implies(z3.And(0 <= q, q < m), a[q] == MKID(tuples.arr[q]))))
            fin = lambda: z3.And(z3.BoolVal(len(calls("shared.finalize")) == 1), z3.BoolVal(len(calls("MPI.Finalize")) == 1) == z3.Not(F.fin.t))
            if not ended:
                pp.check("goes on: not everybody is ready", z3.And(z3.Not(allready()), z3.BoolVal(kind != "SHUTDOWN")))
                pp.check("goes on: nobody is told to end", z3.And(intt(G["sent"]) == 0, z3.BoolVal(not calls("to_root"))))
                pp.check("goes on: nothing is released", not calls("shared.finalize") and not calls("MPI.Finalize"))
            elif kind == "SHUTDOWN":
                pp.check("told to end: releases and ends, telling nobody", z3.And(fin(), intt(G["sent"]) == 0, z3.BoolVal(not calls("to_root"))))
                pp.cover("told to end")
            else:
                pp.check("ends when all workers are ready", z3.And(allready(), z3.BoolVal(kind == "READY_TO_SHUTDOWN")))
                pp.check("every other worker and monitor is told, once", intt(G["sent"]) == z3.If(e.t == me.t, 0, cw + cm))
                pp.check("and the controller, once", len(calls("to_root")) == 1)
                pp.check("and releases its memory", fin())
                pp.cover("ends the cluster")
            pp.cover(kind)
            pp.post()

        it.iter_end = final
        k, r = call_catch(it, glob(it, ML, "monitor_loop"))
        if kind == "REQUEST_SHARED_DATA" and not known:
            p.check("an unknown object is an error", k == "exc")
            p.post()
            return
        p.check("no exception", k == "ret")
        if k == "ret":
            final(it, ended=True)

    return Unit("monitor_loop: any step" if kinds is None else "monitor_loop step: " + ", ".join(kinds), fn, budget=100)
