"""C18: topology roles are consistent and shutdown ends every process exactly once."""
from contracts import steps
from contracts.steps import *

UNITS = []
NOTE = (
    "Proof, for any number of processes and any distribution over hosts, of the role assignment (MPIState) and of cluster_resources; for any state, of shutdown, and of an arbitrary step of worker_loop and monitor_loop from an arbitrary reachable state. "
    "The composition over processes (each process meets its step contract, channels are FIFO) is argued in DESIGN.md; whole simulated and real clusters are started and shut down (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = [
    "MPI: allgather gives one entry per process; Split_type numbers the processes of a host from 0 in the order of their ranks; processes of a host report the same, others another address",
    "MPI delivers the messages of a pair of processes in order",
]
HOST, HR, AT = z3.Function("host_of", IntS, U), z3.Function("host_rank_of", IntS, IntS), z3.Function("rank_at", U, IntS, IntS)
PAIR, FST, SND = z3.Function("pair", U, IntS, U), z3.Function("first_of_pair", U, U), z3.Function("second_of_pair", U, IntS)
NPROC, HPOS, REP = z3.Function("processes_on", U, IntS), z3.Function("host_position", U, IntS), z3.Function("some_rank_on", U, IntS)
VALS, POSN = z3.Function("ranks_on", U, z3.ArraySort(IntS, IntS)), z3.Function("position_on_host", IntS, IntS)
N = z3.Int("process_count")
onhost = lambda r: z3.And(0 <= r, r < N)


class Sub(Native):
    """the part of the topology that belongs to one host"""

    def __init__(self, top, h):
        self.top, self.h = top, h

    def key(self, k):
        return Sym(PAIR(self.h.t, intt(k)), "u", "pair")

    def setitem(self, it, k, v):
        it.setitem(self.top.flat(it), self.key(k), v)

    def getitem(self, it, k):
        return it.getitem(self.top.flat(it), self.key(k))

    def len(self, it):
        self.top.filled(it)
        return NPROC(self.h.t)

    def m_values(self, it):
        self.top.filled(it)
        h = self.h.t
        l = it.p.reg(ListObj(n=NPROC(h), arr=VALS(h), el=EInt))
        l.of_host = h
        e = it.p.tracked_terms["e"]
        it.cnt_facts(l)
        it.p.assume(z3.And(NPROC(h) >= 0, pcnt(VALS(h), e, NPROC(h)) == z3.If(z3.And(onhost(e), HOST(e) == h), 1, 0)))
        return l

    def m_items(self, it):
        raise Unsupported("items of a host")


class Seq(Native):
    def __init__(self, i):
        self.i = i

    def iter(self, it):
        return self.i

    def len(self, it):
        return self.i.n()


class Topology(Native):
    def __init__(self, it, full):
        self.full = full
        self.hosts = None
        f = sym_dict(it, "topology", EInt, keyty="pair")
        if not full:
            f.dom = z3.K(U, z3.BoolVal(False))
        it.ghost.attrs["flat"] = f

    def flat(self, it):
        return it.ghost.attrs["flat"]

    def filled(self, it):
        """the topology lists every process of the cluster at its place"""
        f, e = self.flat(it), it.p.tracked_terms["e"]
        if not self.full:
            q = PAIR(HOST(e), HR(e))
            it.p.check("every process is at its place in the topology", z3.Implies(onhost(e), z3.And(f.dom[q], f.val[q] == e)))
            hh, k = z3.Const("h!t", U), z3.Int("k!t")
            t = AT(hh, k)
            it.p.check("and nothing else", z3.ForAll([hh, k], z3.Implies(f.dom[PAIR(hh, k)], z3.And(onhost(t), HOST(t) == hh, HR(t) == k, f.val[PAIR(hh, k)] == t)), patterns=[PAIR(hh, k)]))
        hh, k, r = z3.Const("h!t", U), z3.Int("k!t"), z3.Int("r!t")
        # proved for an arbitrary process above, so for all
        it.p.assume(z3.ForAll([r], z3.Implies(onhost(r), z3.And(f.dom[PAIR(HOST(r), HR(r))], f.val[PAIR(HOST(r), HR(r))] == r)), patterns=[HOST(r)]))
        it.p.assume(z3.ForAll([hh, k], z3.Implies(f.dom[PAIR(hh, k)], z3.And(onhost(AT(hh, k)), HOST(AT(hh, k)) == hh, HR(AT(hh, k)) == k, f.val[PAIR(hh, k)] == AT(hh, k))), patterns=[PAIR(hh, k)]))

    def getitem(self, it, h):
        return Sub(self, h)

    def iter(self, it):
        p = it.p
        self.filled(it)
        if self.hosts is None:
            l = self.hosts = symlist(it, "hosts", EU("host"))
            j, r = z3.Int("j!h"), z3.Int("r!h")
            p.assume(z3.ForAll([r], z3.Implies(onhost(r), z3.And(0 <= HPOS(HOST(r)), HPOS(HOST(r)) < zt(l.n), l.arr[HPOS(HOST(r))] == HOST(r))), patterns=[HOST(r)]))
            p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zt(l.n)), z3.And(HPOS(l.arr[j]) == j, onhost(REP(l.arr[j])), HOST(REP(l.arr[j])) == l.arr[j])), patterns=[l.arr[j]]))
        return it.iter(self.hosts)

    def m_items(self, it):
        i = self.iter(it)
        return Seq(Iter(i.n, lambda k: it.mktuple([i.get(k), Sub(self, i.get(k))])))

    def m_values(self, it):
        i = self.iter(it)
        return Seq(Iter(i.n, lambda k: Sub(self, i.get(k))))

    def m_keys(self, it):
        t = self

        class Keys(Native):
            def iter(self, it_):
                return t.iter(it_)

            def len(self, it_):
                t.iter(it_)
                return zt(t.hosts.n)

        return Keys()

    def len(self, it):
        self.iter(it)
        return zt(self.hosts.n)


def cluster(p, it):
    """facts about any distribution of N >= 2 processes"""
    r, hh, k = z3.Int("r!c"), z3.Const("h!c", U), z3.Int("k!c")
    p.assume(N >= 2)
    p.assume(z3.ForAll([r], z3.Implies(onhost(r), z3.And(AT(HOST(r), HR(r)) == r, 0 <= HR(r), HR(r) < NPROC(HOST(r)))), patterns=[HOST(r)]))
    p.assume(z3.ForAll([hh, k], z3.And(FST(PAIR(hh, k)) == hh, SND(PAIR(hh, k)) == k), patterns=[PAIR(hh, k)]))
    # the processes of a host are numbered without gaps, in the order of their ranks
    p.assume(z3.ForAll([hh, k], z3.Implies(z3.And(0 <= k, k < NPROC(hh)), z3.And(onhost(AT(hh, k)), HOST(AT(hh, k)) == hh, HR(AT(hh, k)) == k)), patterns=[AT(hh, k)]))
    p.assume(HR(0) == 0)
    p.assume(AT(HOST(0), 0) == 0)


def init_unit(shared):
    def fn(p):
        it = Interp(p)
        e = p.int("rank")
        p.track("e", e.t)
        cluster(p, it)
        me = p.int("own_rank")
        p.assume(onhost(me.t))
        it.ext["socket"] = ExtModule("socket")
        it.ext["socket.gethostname"] = Builtin("gethostname", lambda i, a, k: p.u("hostname", "str"))
        it.ext["socket.gethostbyname"] = Builtin("gethostbyname", lambda i, a, k: Sym(HOST(me.t), "u", "host"))

        class HostComm(Native):
            def m_Get_rank(self, it_):
                return Sym(HR(me.t), "int")

            def m_Get_size(self, it_):
                return Sym(NPROC(HOST(me.t)), "int")

        class Info(Native):
            def iter(self, it_):
                return Iter(lambda: N, lambda k: it_.mktuple([Sym(HOST(intt(k)), "u", "host"), mkint(intt(k)), Sym(HR(intt(k)), "int")]))

        class Comm(Native):
            def m_Get_rank(self, it_):
                return me

            def m_Get_size(self, it_):
                return Sym(N, "int")

            def m_Split_type(self, it_, t):
                return HostComm()

            def m_Split(self, it_, *a):
                return HostComm()

            def m_allgather(self, it_, x):
                if isinstance(x, ListObj):
                    it_.p.check("each process tells its host, its rank and its rank on the host", z3.And(it_.box(x.items[0]) == HOST(me.t), intt(x.items[1]) == me.t, intt(x.items[2]) == HR(me.t)) if len(x.items) == 3 else False)
                    return Info()
                raise Unsupported("Microsoft MPI")

        it.ext["mpi4py.MPI"] = ExtModule("mpi4py.MPI")
        it.ext["mpi4py.MPI.Get_library_version"] = Builtin("v", lambda i, a, k: "Open MPI")
        it.ext["mpi4py.MPI.COMM_TYPE_SHARED"] = p.u("SHARED")
        it.gover[(COMM, "MPI")] = it.ext["mpi4py.MPI"]
        top = []

        def dd(i, a, k):
            if a and a[0] is None:
                return sym_dict_empty(i)
            top.append(Topology(i, False))
            return top[-1]

        def sym_dict_empty(i):
            d = sym_dict(i, "host_by_rank", EU("host"), keyty="int")
            d.dom = z3.K(d.dom.sort().domain(), z3.BoolVal(False))
            return d

        it.gover[(COMM, "defaultdict")] = Builtin("defaultdict", dd)
        it.gover[(COMM, "MpiSpawn")] = Cfg(p.bool("spawn"))
        it.gover[(COMM, "MpiHosts")] = Cfg(None)
        it.summaries[COMMON + ":is_shared_memory_supported"] = lambda it_, v: shared
        hh, kk = z3.Const("h!i", U), z3.Int("k!i")
        obj = []

        def inv(it_, s, k):
            out = []
            f = it_.ghost.attrs.get("flat")
            if f is None:
                return out
            if s.srcl is None and not any(t_.hosts is not None for t_ in top):
                t = AT(hh, kk)
                q = PAIR(hh, kk)
                out.append(("topology so far", z3.ForAll([hh, kk], z3.And(f.dom[q] == z3.And(0 <= t, t < k, HOST(t) == hh, HR(t) == kk), z3.Implies(f.dom[q], f.val[q] == t)), patterns=[q])))
                for nm, o in s.head.objs.items():
                    if isinstance(o, DictObj) and o is not f and o.items is None and "host_by_rank" in nm:
                        b = it_.box(e) if o.dom.sort().domain() == U else e.t
                        out.append(("hosts so far", z3.And(o.dom[b] == z3.And(0 <= e.t, e.t < k), z3.Implies(o.dom[b], o.val[b] == HOST(e.t)))))
            elif s.srcl is not None and s.srcl[0].sort() == z3.ArraySort(IntS, IntS):
                mon = z3.And(onhost(e.t), HR(e.t) == 1) if shared else (e.t == 1)
                for nm, l in [(nm, o) for nm, o in s.head.objs.items() if isinstance(o, ListObj) and not o.tup]:
                    try:
                        out.append((f"{nm}: workers of the host so far", cnt_of(it_, l, "e") == z3.If(z3.Or(e.t == 0, mon), 0, pcnt(s.srcl[0], e.t, k))))
                        if (nm, "e") in s.cnt0:
                            out.append((f"{nm}: and those of the hosts before", cnt_of(it_, l, "e") == s.cnt0[nm, "e"] + z3.If(z3.Or(e.t == 0, mon), 0, pcnt(s.srcl[0], e.t, k))))
                    except Exception:
                        continue
            else:
                seen = z3.And(onhost(e.t), HPOS(HOST(e.t)) < k)
                for nm, l in [(nm, o) for nm, o in s.head.objs.items() if isinstance(o, ListObj) and not o.tup]:
                    try:
                        c = cnt_of(it_, l, "e")
                    except Exception:
                        continue
                    out.append((f"{nm}: monitors so far", c == z3.If(z3.And(seen, HR(e.t) == 1), 1, 0)))
                    mon = (HR(e.t) == 1) if shared else (e.t == 1)
                    out.append((f"{nm}: workers so far", c == z3.If(z3.And(seen, e.t != 0, z3.Not(mon)), 1, 0)))
                if shared:
                    out.append(("hosts so far have two processes", z3.Implies(z3.And(me.t == 0, seen), NPROC(HOST(e.t)) >= 2)))
            return out

        it.inv.append(inv)
        cls = glob(it, COMM, "MPIState")
        k, o = call_catch(it, cls, [Comm()])
        t = top[0] if top else None
        if k == "exc":
            p.check("fails only in the controller, if a host has a single process", z3.And(z3.BoolVal(shared and exc_name(o) == "ValueError"), me.t == 0))
            j = z3.Int("j!x")
            l = t.hosts
            p.check("there is a host with a single process", z3.Not(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zt(l.n)), NPROC(l.arr[j]) >= 2))))
            p.cover("refused")
            p.post()
            return
        mons, workers = o.attrs["monitor_processes"], o.attrs["workers"]
        cm, cw = cnt_of(it, mons, "e"), cnt_of(it, workers, "e")
        two = NPROC(HOST(e.t)) >= 2
        p.check("only processes have a role", z3.Implies(z3.Not(onhost(e.t)), z3.And(cm == 0, cw == 0)))
        p.check("every process is exactly one of controller, monitor or worker", z3.Implies(onhost(e.t), z3.If(e.t == 0, 1, 0) + cm + cw == 1))
        if shared:
            p.check("the monitor of a host is its second process", cm == z3.If(z3.And(onhost(e.t), HR(e.t) == 1), 1, 0))
            p.check("the controller has made sure that every host has one", z3.Implies(z3.And(me.t == 0, onhost(e.t)), two))
        else:
            p.check("one monitor for the cluster", cm == z3.If(e.t == 1, 1, 0))
        r = p.u("x")
        for nm, want in (("is_root_process", e.t == 0), ("is_monitor_process", cm > 0)):
            p.check(f"{nm} tells the role of a process", boolt(it.call(meth(it, o, nm), [e])) == want)
        p.check("of the own process if none is given", boolt(it.call(meth(it, o, "is_root_process"))) == (me.t == 0))
        p.assume(onhost(e.t))
        second = AT(HOST(e.t), 1)  # an instance of the facts about the cluster
        p.assume(z3.Implies(two, z3.And(onhost(second), HOST(second) == HOST(e.t), HR(second) == 1)))
        p.assume(two) if shared else None
        k, m = call_catch(it, meth(it, o, "get_monitor_by_worker_rank"), [e])
        p.check("a process of a host with a monitor has one", k == "ret")
        if k == "ret":
            p.check("the monitor of a process is that of its host", z3.And(HOST(intt(m)) == HOST(e.t), HR(intt(m)) == 1) if shared else intt(m) == 1)
        p.cover("roles")
        p.post()

    return fn


UNITS.append(Unit("MPIState: roles with a monitor per host", init_unit(True), budget=150))
UNITS.append(Unit("MPIState: roles with one monitor", init_unit(False), budget=150))


@unit(UNITS, "cluster_resources", budget=100)
def u_res(p):
    it = Interp(p)
    A = MPI + "controller.api"
    e = p.int("rank")
    p.track("e", e.t)
    cluster(p, it)
    mons = symlist(it, "monitors", EInt)
    it.cnt_facts(mons)
    cm = cnt_of(it, mons, "e")
    top = Topology(it, True)
    st = new(it, glob(it, COMM, "MPIState"))
    st.attrs.update(topology=top, monitor_processes=mons, global_rank=p.int("own_rank"))
    it.gover[(COMM, "MPIState")] = Single(st)
    lens = []
    res = sym_dict(it, "resources", EInt, keyty="host")
    res.dom = z3.K(U, z3.BoolVal(False))
    it.ghost.attrs["res"] = res

    def ln(i, a, k):
        l = a[0]
        lens.append(l)
        return mkint(zt(length(i, l)))

    it.gover[(A, "len")] = Builtin("len", ln)

    class Row(Native):
        def __init__(self, h):
            self.h = h

        def setitem(self, it_, k, v):
            it_.p.check("the number of CPUs is reported", k == "CPU")
            if not lens or lens[-1].items is not None and len(lens[-1].items):
                raise Unsupported("the number of workers in another form")
            l = lens[-1]
            it_.p.check("it is the length of the list", intt(v) == zt(length(it_, l)))
            it_.p.check("that has the workers of this host, each once, and nothing else", cnt_of(it_, l, "e") == z3.If(z3.And(onhost(e.t), HOST(e.t) == self.h.t, e.t != 0, cm == 0), 1, 0))
            it_.setitem(res, self.h, v)

    class Res(Native):
        def getitem(self, it_, h):
            return Row(h)

    R = Res()
    it.gover[(A, "defaultdict")] = Builtin("defaultdict", lambda i, a, k: R)
    it.gover[(A, "dict")] = Builtin("dict", lambda i, a, k: a[0])
    h = p.u("host", "host")
    # a host of the cluster: that of some process
    r0 = p.int("some_process")

    def inv(it_, s, k):
        if s.srcl is None or top.hosts is None:
            return []
        if s.srcl[0].sort() == z3.ArraySort(IntS, IntS):
            out = []
            for nm, l in [(nm, o) for nm, o in s.head.objs.items() if isinstance(o, ListObj) and not o.tup and o is not mons]:
                try:
                    out.append((f"{nm}: workers of the host so far", cnt_of(it_, l, "e") == z3.If(z3.Or(e.t == 0, cm > 0), 0, pcnt(s.srcl[0], e.t, k))))
                except Exception:
                    continue
            return out
        return [("hosts so far", z3.Implies(onhost(r0.t), res.dom[HOST(r0.t)] == (HPOS(HOST(r0.t)) < k)))]

    it.inv.append(inv)
    k, r = call_catch(it, glob(it, A, "cluster_resources"))
    p.check("no exception", k == "ret")
    if k == "ret" and r is not R:
        raise Unsupported("the report in another form")
    p.check("every host is in the report", z3.Implies(onhost(r0.t), res.dom[HOST(r0.t)]))
    p.post()


@unit(UNITS, "shutdown", budget=60)
def u_shut(p):
    it = Interp(p)
    A = MPI + "controller.api"
    e = p.int("rank")
    p.track("e", e.t)
    log = []
    F = Finalizer(it, p, A, log)
    workers = symlist(it, "workers", EInt)
    it.cnt_facts(workers)
    cw = cnt_of(it, workers, "e")
    rootmon = p.int("root_monitor")
    G = it.ghost.attrs
    G["sent"] = 0
    done = bool(p.choose(2))
    it.gover[(A, "is_mpi_shutdown")] = done

    class MS(Native):
        def __init__(self):
            self.f_workers, self.f_global_comm, self.f_global_rank = workers, p.u("comm"), 0

        def m_get_monitor_by_worker_rank(self, it_, r=None):
            return rootmon if r in (0, None) else it_.p.int("other_monitor")

    it.gover[(COMM, "MPIState")] = Single(MS())
    it.gover[(A, "AsyncOperations")] = Single(Rec(log, "async", finish=None))
    it.gover[(A, "SharedObjectStore")] = Single(Rec(log, "shared", finalize=None))

    def send(it_, v):
        it_.p.check("a cancellation is sent", boolt(it_.equal(v["op_type"], op(it_, "CANCEL"))))
        it_.p.check("after all other messages", any(x[0] == "async.finish" for x in log))
        it_.p.check("before the answer is awaited", not any(x[0] == "answer" for x in log))
        G["sent"] = mkint(intt(G["sent"]) + z3.If(intt(v["dest_rank"]) == e.t, 1, 0))

    def recv(it_, v):
        log.append(("answer", [], {}))
        it_.p.check("the answer of the root monitor is awaited", intt(v["source_rank"]) == rootmon.t)
        return op(it_, "SHUTDOWN")

    it.summaries[COMM + ":mpi_send_operation"] = send
    it.summaries[COMM + ":mpi_recv_object"] = recv
    it.inv.append(lambda it_, s, k: [("cancelled so far", intt(G["sent"]) == pcnt(s.srcl[0], e.t, k))] if s.srcl is not None else [])
    f = glob(it, A, "shutdown")
    k, r = call_catch(it, f)
    p.check("no exception", k == "ret")
    names = [x[0] for x in log]
    if done:
        p.check("nothing is done again", z3.And(z3.BoolVal(not log), intt(G["sent"]) == 0))
        p.cover("again")
    else:
        p.check("one cancellation to each worker", intt(G["sent"]) == cw)
        p.check("one answer is awaited", names.count("answer") == 1)
        p.check("the shared memory is released, once, after the answer", names.count("shared.finalize") == 1 and names.index("shared.finalize") > names.index("answer"))
        p.check("MPI is finalized if it is not", z3.BoolVal(names.count("MPI.Finalize") == 1) == z3.Not(F.fin.t))
        log.clear()
        G["sent"] = 0
        k, r = call_catch(it, f)
        p.check("the next shutdown does nothing", z3.And(z3.BoolVal(k == "ret" and not log), intt(G["sent"]) == 0))
        p.cover("first")
    p.post()


UNITS.append(steps.worker_step())
UNITS.append(steps.monitor_step())
