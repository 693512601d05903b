"""C12: garbage collection."""
from contracts.store import *

UNITS = []
NOTE = (
    "Proof, for all counters, thresholds, clock readings, cleanup lists and topologies, of every GarbageCollector method, of TaskCounter and of the receiving side (LocalObjectStore.clear, monitor step); "
    "objects dropped while the collector runs are modelled at each external call. Whole clusters are run (bounded). Known finding: see known_findings.jsonl. Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = [
    "the counter that the root monitor returns is the number of TASK_DONE messages it has received (TaskCounter, monitor step)",
    "an object may be dropped (GarbageCollector.collect called) at any external call of the collector",
]
GC = MPI + "controller.garbage_collector"


def setup(p):
    it = Interp(p)
    o, me = local_store(p, it)
    it.gover[(GC, "garbage_collector")] = None
    it.gover[(GC, "LocalObjectStore")] = Single(o)
    g = new(it, glob(it, GC, "GarbageCollector"))
    it.call(meth(it, g, "__init__"), [o])
    e = p.u("e")
    p.track("e", e.t)
    l = symlist(it, "dropped", EU(None))
    it.cnt_facts(l)
    for n in ("_cleanup_counter", "_cleanup_threshold", "_cleanup_list_threshold", "_task_counter", "_timestamp", "_time_threshold"):
        if n not in g.attrs:
            raise Unsupported(f"GarbageCollector.{n} is gone")
        g.attrs[n] = p.int(n)
    p.assume(g.attrs["_cleanup_threshold"].t >= 1)
    g.attrs["_cleanup_list"] = l
    return it, g, o, me, e, l


@unit(UNITS, "GarbageCollector.__init__")
def u_init(p):
    it = Interp(p)
    o, me = local_store(p, it)
    it.gover[(GC, "garbage_collector")] = None
    g = it.call(glob(it, GC, "GarbageCollector"), [o])
    p.check("nothing is dropped at first", zt(length(it, g.attrs["_cleanup_list"])) == 0)
    p.check("no task was submitted at first", g.attrs["_task_counter"] == 0)
    p.post()


@unit(UNITS, "GarbageCollector.collect / increment_task_counter")
def u_collect(p):
    it, g, o, me, e, l = setup(p)
    c0, t0 = cnt_of(it, l, "e"), g.attrs["_task_counter"].t
    x = p.u("id")
    it.call(meth(it, g, "collect"), [x])
    p.check("the dropped identifier is recorded exactly once more", cnt_of(it, g.attrs["_cleanup_list"], "e") == c0 + z3.If(x.t == e.t, 1, 0))
    it.call(meth(it, g, "increment_task_counter"), [])
    p.check("each submission is counted once", intt(g.attrs["_task_counter"]) == t0 + 1)
    p.post()


@unit(UNITS, "GarbageCollector.regular_cleanup", budget=120)
def u_regular(p):
    it, g, o, me, e, l = setup(p)
    T = g.attrs["_task_counter"].t
    c0 = cnt_of(it, l, "e")
    n_sent, extra = [0], [z3.IntVal(0)]
    EX = p.int("executed").t
    state = {"asked": 0, "answered": 0}
    it.ghost.attrs["sent"] = it.mklist([])

    def drop(it_):
        """some object is dropped now"""
        if it_.p.choose(2) == 0:
            x = it_.p.u("dropped_now")
            it_.call(meth(it_, g, "collect"), [x])
            extra[0] = extra[0] + z3.If(x.t == e.t, z3.IntVal(1), z3.IntVal(0))

    class Async(Native):
        def m_check(self, it_):
            drop(it_)

    class St(MState):
        def m_get_monitor_by_worker_rank(self, it_, rank=0):
            it_.p.check("requires: the root monitor is the one of the controller", rank == 0)
            return Sym(z3.Int("root_monitor"), "int")

    def send(it_, v):
        it_.p.check("the root monitor is asked", intt(v["dest_rank"]) == z3.Int("root_monitor"))
        it_.p.check("it is asked for the number of executed tasks", v["op_type"] == it_.getattr(glob(it_, MPI + "common", "Operation"), "GET_TASK_COUNT"))
        state["asked"] += 1
        drop(it_)

    def recv(it_, v):
        it_.p.check("requires: an answer is awaited after one question", state["asked"] == 1 and state["answered"] == 0)
        it_.p.check("the answer comes from the root monitor", intt(v["source_rank"]) == z3.Int("root_monitor"))
        state["answered"] += 1
        drop(it_)
        return Sym(EX, "int")

    def req(it_, v):
        lst = v["cleanup_list"]
        it_.p.check("a cleanup is sent only if all submitted tasks are executed", z3.And(state["answered"] == 1, EX == T, intt(g.attrs["_task_counter"]) == T))
        it_.p.check("one cleanup per call", n_sent[0] == 0)
        n_sent[0] += 1
        # the message is written from the list as it is now; objects dropped while it is sent come later
        it_.ghost.attrs["sent"] = copy_seq(it_, lst, False)
        drop(it_)

    it.summaries[MPI + "communication:mpi_send_operation"] = send
    it.summaries[MPI + "communication:mpi_recv_object"] = recv
    it.summaries[GC + ":GarbageCollector._send_cleanup_request"] = req
    it.gover[(GC, "AsyncOperations")] = Single(Async())
    it.gover[(MPI + "communication", "MPIState")] = Single(St(me))
    it.ext["time"] = ExtModule("time")
    it.ext["time.perf_counter"] = Builtin("perf_counter", lambda it_, a, k: it_.p.int("clock"))
    k, r = call_catch(it, meth(it, g, "regular_cleanup"), [])
    p.check("no exception", k == "ret")
    sent = it.ghost.attrs["sent"]
    p.check("every dropped identifier is either sent or kept, exactly once", cnt_of(it, sent, "e") + cnt_of(it, g.attrs["_cleanup_list"], "e") == c0 + extra[0])
    p.check("submissions are not forgotten", intt(g.attrs["_task_counter"]) == T)
    if n_sent[0]:
        p.cover("sends")
    else:
        p.cover("waits")
    p.post()


@unit(UNITS, "GarbageCollector._send_cleanup_request", budget=120)
def u_send(p):
    it, g, o, me, e, l = setup(p)
    q = p.int("any_rank")
    p.track("q", q.t)
    W, M = symlist(it, "workers", EInt), symlist(it, "monitors", EInt)
    it.cnt_facts(W)
    it.cnt_facts(M)
    it.gover[(MPI + "communication", "MPIState")] = Single(MState(me, workers=W, monitor_processes=M))
    it.ghost.attrs["dests"] = it.mklist([])
    it.ghost.attrs["handlers"] = 0
    ser = []

    class Ser(Native):
        def m_serialize_pickle(self, it_, x):
            ser.append(x)
            return "bytes"

    it.gover[(GC, "SimpleDataSerializer")] = Builtin("SimpleDataSerializer", lambda it_, a, k: Ser())

    def isend(it_, v):
        it_.p.check("a cleanup message", v["operation_type"] == it_.getattr(glob(it_, MPI + "common", "Operation"), "CLEANUP"))
        it_.p.check("with the given list", v["operation_data"] == "bytes" and len(ser) == 1 and ser[0] is l)
        it_.list_append(it_.ghost.attrs["dests"], v["dest_rank"])
        it_.ghost.attrs["handlers"] = mkint(intt(it_.ghost.attrs["handlers"]) + 1)
        return "handlers"

    class Async(Native):
        def m_extend(self, it_, h):
            it_.p.check("the send handlers are kept", h == "handlers")
            it_.ghost.attrs["handlers"] = mkint(intt(it_.ghost.attrs["handlers"]) - 1)

    it.summaries[MPI + "communication:isend_serialized_operation"] = isend
    it.gover[(GC, "AsyncOperations")] = Single(Async())

    def inv(it_, s, k):
        if s.srcl is None:
            return []
        return [("sent so far", cnt_of(it_, it_.ghost.attrs["dests"], "q") == z3.If(q.t == me.t, 0, pcnt(s.srcl[0], q.t, k))), ("handlers", intt(it_.ghost.attrs["handlers"]) == 0)]

    it.inv.append(inv)
    k, r = call_catch(it, meth(it, g, "_send_cleanup_request"), [l])
    p.check("no exception", k == "ret")
    p.check("one message to every worker and monitor, none to the sender or others", cnt_of(it, it.ghost.attrs["dests"], "q") == z3.If(q.t == me.t, 0, cnt_of(it, W, "q") + cnt_of(it, M, "q")))
    p.check("every handler is kept", intt(it.ghost.attrs["handlers"]) == 0)
    p.post()


from contracts import c03  # noqa: E402

UNITS.append(next(u for u in c03.UNITS if u.name == "LocalObjectStore.clear"))
UNITS.append(next(u for u in c03.UNITS if u.name == "LocalObjectStore.put"))

LOOP = MPI + "monitor.loop"


@unit(UNITS, "TaskCounter.increment")
def u_tc(p):
    it = Interp(p)
    o = new(it, glob(it, LOOP, "TaskCounter"))
    n = p.int("n")
    o.attrs["task_counter"] = n
    it.call(meth(it, o, "increment"), [])
    p.check("one more", intt(o.attrs["task_counter"]) == n.t + 1)
    f = it.call(glob(it, LOOP, "TaskCounter"), [])
    p.check("starts at zero", f.attrs["task_counter"] == 0)
    p.post()
