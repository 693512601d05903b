"""Contracts of actor creation and actor method calls on all backends."""
from contracts.store import *
from pyvc.interp import _Star

B = "unidist.core.backends."
REF = z3.Function("ref", U, U)
UNWRAP = z3.Function("unwrapped", U, U)
METHOD_UNITS, CREATE_UNITS = [], []
COMMON, COMM, ACT = MPI + "common", MPI + "communication", MPI + "controller.actor"


class Args:
    """arbitrary positional and keyword arguments of a call"""

    def __init__(self, p, it, *without):
        self.p, self.it = p, it
        self.args, self.kw = symlist(it, "args", EU(None)), sym_dict(it, "kwargs", EU(None), keyty="str")
        for o in without:
            p.assume(z3.Not(self.kw.dom[it.str_const(o)]))
        self.a0, self.n0, self.d0, self.v0 = self.args.arr, zt(self.args.n), self.kw.dom, self.kw.val
        self.q, self.key = p.int("index").t, p.u("key", "str").t

    def pos(self):
        return [_Star(self.args)]

    def same_list(self, l, conv=lambda t: t):
        x, m = view(self.it, l, EU(None))
        return z3.And(m == self.n0, z3.Implies(z3.And(0 <= self.q, self.q < m), x[self.q] == conv(self.a0[self.q])))

    def same_dict(self, d, conv=lambda t: t):
        if d is self.kw:
            return z3.And(d.dom[self.key] == self.d0[self.key], z3.Implies(self.d0[self.key], d.val[self.key] == conv(self.v0[self.key])))
        if d.items is not None:
            if d.items:
                raise Unsupported("keywords in another form")
            return z3.Not(self.d0[self.key])
        return z3.And(d.dom[self.key] == self.d0[self.key], z3.Implies(self.d0[self.key], d.val[self.key] == conv(self.v0[self.key])))

    def arrive(self, a, k, what="", conv=lambda t: t):
        """checks that a call has these arguments; gives the other keywords"""
        a, k = star_form(self.it, a, k)
        self.p.check(what + "each positional argument in its place", self.same_list(a[0].v, conv))
        self.p.check(what + "each keyword with its value", self.same_dict(k.pop("**"), conv))
        return k


    def converted(self, conv):
        """invariant of loops that collect the converted arguments"""
        A, j = self, z3.Int("j!c")

        def inv(it_, s, k):
            out = []
            if s.srcl is None or s.srcl[2].sort != U:
                return out
            sa = s.srcl[0]
            pos = sa.eq(A.a0)
            rng = z3.And(0 <= j, j < k)
            for nm, (dd, kk) in s.head.vars.items():
                l = dd.get(kk)
                if isinstance(l, ListObj) and l is not A.args and pos:
                    a, m = view(it_, l, EU(None))
                    if a is not None:
                        out.append((f"{nm}: converted arguments", z3.And(m == k, z3.ForAll([j], z3.Implies(rng, a[j] == conv(A.a0[j]))))))
                if isinstance(l, DictObj) and not l.items and l is not A.kw and not pos:
                    if l.items is not None:
                        out += [(f"{nm}: {x}", t) for x, t in (("names so far", z3.BoolVal(True)), ("each name", k == 0), ("converted keywords", z3.BoolVal(True)))]
                        continue
                    out.append((f"{nm}: names so far", z3.Implies(l.dom[A.key], A.kw.dom[A.key])))
                    out.append((f"{nm}: each name", z3.ForAll([j], z3.Implies(rng, l.dom[sa[j]]), patterns=[sa[j]])))
                    out.append((f"{nm}: converted keywords", z3.Implies(l.dom[A.key], l.val[A.key] == conv(A.kw.val[A.key]))))
            return out

        return inv


def given(p):
    """num_returns of the call and the one that counts"""
    c = p.choose(4)
    if c == 3:
        return None, 1, 1
    if c == 2:
        n = p.int("num_returns")
        p.assume(n.t > 1)
        return n, n, 2
    return c, c, c


def method_unit(backend, cls, alias):
    mod = f"{B}{backend}.actor"

    def fn(p):
        it = Interp(p)
        g, eff, case = given(p)
        it.gover[(mod, "ObjectRef")] = Builtin("ObjectRef", lambda i, a, k: Sym(REF(enc(i, EU(None), a[0])), "u", "ObjectRef"))
        it.gover[(mod, "unwrap_object_refs")] = Builtin("unwrap", lambda i, a, k: Sym(UNWRAP(enc(i, EU(None), a[0])), "u"))
        A = Args(p, it, "num_returns")
        conv = UNWRAP if backend == "dask" else (lambda t: t)
        subs = []
        out = symlist(it, "data_ids", EU(None))
        name = "some_method"
        fut = p.u("future")
        ITEM = z3.Function("item_future", U, IntS, U)
        RES = z3.Function("result_future", U, U)

        def result(it_):
            if case == 0:
                return None
            if case == 1:
                return Sym(z3.Const("data_id", U), "u")
            it_.p.assume(zt(out.n) == intt(eff))
            return out

        def sub(it_, a, k):
            it_.p.check("the method is called once", not subs)
            subs.append(1)
            k = A.arrive(a, k)
            it_.p.check("the number of results of this call counts", boolt(it_.equal(k.pop("num_returns", 1), eff)))
            it_.p.check("no other keywords", not k)
            return result(it_)

        class Method(Native):
            def call(self, it_, *a, **k):
                raise Unsupported("call of a method in another form")

        class Handle(Native):
            pass

        h = Handle()
        if backend == "mpi":
            h.f_some_method = Builtin("some_method", sub)
        elif backend == "pymp":
            m = Method()
            m.f_submit = Builtin("submit", sub)
            h.f_some_method = m
        elif backend == "pyseq":
            m = h.f_some_method = Builtin("some_method", lambda i, a, k: None)

            class Py(Native):
                def __init__(self):
                    def s(i, a, k):
                        i.p.check("the method of the instance", a[0] is m)
                        return sub(i, a[1:], k)

                    self.f_submit = Builtin("submit", s)

            it.gover[(mod, "py")] = Py()
        else:
            ran = []

            class ActorFuture(Native):
                """what a method of a Dask actor returns"""

                def m_result(self, it_):
                    return self.v

            class Client(Native):
                def __init__(self):
                    self.f_submit = Builtin("submit", self.sub)

                def sub(self, it_, a, k):
                    k = dict(k)
                    it_.p.check("a call is never taken for another one", k.pop("pure", None) is False)
                    f, rest = a[0], a[1:]
                    if not subs:
                        subs.append(1)
                        # run what is submitted: it has to call the method of the actor with the arguments
                        called = []

                        def target(i, aa, kk):
                            called.append(1)
                            A.arrive(aa, kk, conv=conv)
                            return fut

                        h2 = Handle()
                        h2.f_some_method = Builtin("some_method", target)
                        it_.p.check("on the handle of the actor", any(x is h for x in rest))
                        it_.call(f, [h2 if x is h else x for x in rest], k)
                        it_.p.check("the method is called once", len(called) == 1)
                        return fut
                    it_.p.check("no other keywords", not k)
                    it_.p.check("of the call", rest and rest[0] is fut)
                    af = ActorFuture()
                    if len(rest) == 1:
                        af.v = p.u("value")
                        r = it_.call(f, [af])
                        it_.p.check("the value that the method returned", r is af.v)
                        return Sym(RES(fut.t), "u")
                    idx = rest[1]
                    seq = symlist(it_, "values", EU(None))
                    it_.p.assume(z3.And(zt(seq.n) == intt(eff), 0 <= intt(idx), intt(idx) < intt(eff)))
                    af.v = seq
                    r = it_.call(f, [af, idx])
                    it_.p.check("the i-th element belongs to the i-th reference", enc(it_, EU(None), r) == seq.arr[intt(idx)])
                    return Sym(ITEM(fut.t, intt(idx)), "u")

            it.gover[(mod, "get_client")] = Builtin("get_client", lambda i, a, k: Client())
        it.inv.append(A.converted(UNWRAP))
        o = it.call(glob(it, mod, cls), [h, name])
        before = dict(o.attrs)
        kw = {"**": A.kw}
        if g is not None:
            kw["num_returns"] = g
        k, r = call_catch(it, meth(it, o, "_remote"), A.pos(), kw)
        p.check("no exception", k == "ret")
        if k != "ret":
            return
        p.check("the method is called", len(subs) == 1)
        p.check("the method of the handle stays", all(o.attrs.get(n) is v for n, v in before.items()))
        q = A.q
        if case == 0:
            p.check("no reference for no result", r is None)
        elif case == 1:
            ref = RES(fut.t) if backend == "dask" else z3.Const("data_id", U)
            p.check("one reference, to the result", r.t == REF(ref) if isinstance(r, Sym) else False)
        else:
            p.check("a list of references", isinstance(r, ListObj) and not r.tup)
            x, m = view(it, r, EU("ObjectRef"))
            p.check("one reference per result", m == intt(eff))
            p.check("the i-th reference refers to the i-th result", z3.Implies(z3.And(0 <= q, q < m), x[q] == REF(ITEM(fut.t, q) if backend == "dask" else out.arr[q])))
        p.cover(f"case {case}")
        p.post()

    METHOD_UNITS.append(Unit(f"{cls}._remote", fn, budget=100))


method_unit("pyseq", "PySeqActorMethod", "py")
method_unit("pymp", "PyMpActorMethod", None)
method_unit("mpi", "MPIActorMethod", None)
method_unit("dask", "DaskActorMethod", None)


def create_unit(backend, cls):
    mod = f"{B}{backend}.actor"

    def fn(p):
        it = Interp(p)
        A = Args(p, it, "num_cpus", "resources", "owner_rank", "handler_id", "actor")
        made = []

        class Handle(Native):
            f_some_method = None

        h = Handle()
        h.f_some_method = p.u("method")

        def create(it_, a, k, rest=()):
            it_.p.check("one instance is created", not made)
            made.append(1)
            k = A.arrive(a, k)
            it_.p.check("no other keywords", all(k.get(n) is v for n, v in rest) and len(k) == len(rest))
            return h

        user = Builtin("class", create) if backend == "pyseq" else p.u("class")

        def core(it_, a, k):
            it_.p.check("of the declared class", a[0] is user)
            return create(it_, a[1:], k)

        class Core(Native):
            def __init__(self):
                self.f_Actor = Builtin("Actor", core)

        if backend in ("mpi", "pymp"):
            it.gover[(mod, backend)] = Core()
        if backend == "dask":

            class Fut(Native):
                def m_result(self, it_):
                    return h

            class Client(Native):
                def __init__(self):
                    self.f_submit = Builtin("submit", self.sub)

                def sub(self, it_, a, k):
                    it_.p.check("of the declared class", a[0] is user)
                    create(it_, a[1:], k, rest=[("actor", True)])
                    return Fut()

            it.gover[(mod, "get_client")] = Builtin("get_client", lambda i, a, k: Client())
        opts = [None, None]
        decl = [None, None]
        c = p.choose(5)
        if c:
            v = p.u("option")
            p.assume(v.t != NONE)
            (opts if c > 2 else decl)[(c - 1) % 2] = v
        o = it.call(glob(it, mod, cls), [user] + decl)
        p.check("declaring creates nothing", not made)
        kw = {"**": A.kw}
        for n, v in zip(("num_cpus", "resources"), opts):
            if v is not None or p.choose(2):
                kw[n] = v
        k, r = call_catch(it, meth(it, o, "_remote"), A.pos(), kw)
        if c:
            p.check("an option that the backend does not support is refused", k == "exc" and exc_name(r) == "NotImplementedError" and not made)
            p.cover("refused")
            p.post()
            return
        p.check("no exception", k == "ret")
        if k != "ret":
            return
        p.check("created once", len(made) == 1)
        m = it.call(meth(it, r, "__getattr__"), ["some_method"])
        p.check("its methods are those of the one instance", isinstance(m, InstObj) and any(v is h for v in m.attrs.values()) and "some_method" in [v for v in m.attrs.values() if isinstance(v, str)])
        if backend in ("mpi", "dask"):
            red = it.call(meth(it, r, "__reduce__"))
            f, st = it.unpack(red, 2)
            r2 = it.call(f, list(st.items))
            p.check("restoring a handle creates nothing", len(made) == 1)
            p.check("a restored handle is one of the same instance", r2.cls is r.cls and r2 is not r)
            m2 = it.call(meth(it, r2, "__getattr__"), ["some_method"])
            p.check("its methods are those of the same instance", set(m2.attrs) == set(m.attrs) and all(m2.attrs[n] is v or m2.attrs[n] == v for n, v in m.attrs.items()))
        p.cover("created")
        p.post()

    CREATE_UNITS.append(Unit(f"{cls}: creation and handles", fn, budget=60))


for b_, c_ in (("pyseq", "PySeqActor"), ("pymp", "PyMpActor"), ("mpi", "MPIActor"), ("dask", "DaskActor")):
    create_unit(b_, c_)


class Env:
    """the environment of the MPI actor code"""

    def __init__(self, p, it):
        self.p, self.it = p, it
        self.log = log = []
        self.rank, self.hid, self.out = p.int("scheduled_rank"), p.u("new_handler", "MpiDataID"), p.u("output")
        self.full = p.bool("all_workers_reserved")
        e = self

        class RR(Native):
            def m_schedule_rank(s, it_):
                log.append(("schedule",))
                if it_.p.branch(e.full.t):
                    raise PyRaise(it_.mkexc("Exception", "All ranks blocked"))
                return e.rank

            def m_reserve_rank(s, it_, r):
                log.append(("reserve", r))

            def m_release_rank(s, it_, r):
                log.append(("release", r))

        class GC(Native):
            def m_increment_task_counter(s, it_):
                log.append(("count",))

        class LS(Native):
            def m_generate_data_id(s, it_, g):
                log.append(("new id",))
                it_.p.check("the identifier is tracked", g is e.gc)
                return e.hid

            def m_put_data_owner(s, it_, d, r):
                log.append(("owner", d, r))

            def m_generate_output_data_id(s, it_, r, g, num=1):
                log.append(("outputs", r, num))
                it_.p.check("the identifier is tracked", g is e.gc)
                return e.out

        class Async(Native):
            def m_extend(s, it_, h):
                log.append(("held", h))

        self.gc = GC()
        self.hs = it.mklist([p.u("handle")])
        it.gover[(ACT, "RoundRobin")] = Single(RR())
        it.gover[(ACT, "LocalObjectStore")] = Single(LS())
        it.gover[(ACT, "AsyncOperations")] = Single(Async())
        it.gover[(ACT, "garbage_collector")] = self.gc
        it.gover[(COMM, "MPIState")] = Single(MState(p.int("own_rank")))

        def send(it_, v):
            log.append(("send", v["operation_type"], v["operation_data"], v["dest_rank"]))
            return it_.mktuple([self.hs, None])

        it.summaries[COMM + ":isend_complex_operation"] = send
        it.summaries[MPI + "controller.common:push_data"] = lambda it_, v: log.append(("push", v["dest_rank"], v["value"]))

    def of(self, n):
        return [x for x in self.log if x[0] == n]

    def op(self, n):
        return self.it.getattr(glob(self.it, COMMON, "Operation"), n)


@unit(CREATE_UNITS, "MPI Actor: creation, restoring and release", budget=60)
def u_mpi_actor(p):
    it = Interp(p)
    it.attr_hook = data_id_attr
    E = Env(p, it)
    A = Args(p, it, "owner_rank", "handler_id")
    user = p.u("class")
    cls = glob(it, ACT, "Actor")
    k, a = call_catch(it, cls, [user] + A.pos(), {"**": A.kw})
    log = E.log
    if k == "exc":
        p.check("fails only if no worker is free", E.full.t)
        p.check("and then nothing is reserved or sent", not E.of("reserve") and not E.of("send"))
        p.cover("no worker")
        p.post()
        return
    s = E.of("send")
    p.check("exactly one request", len(s) == 1)
    _, opt, data, dest = s[0]
    p.check("it asks for the creation", boolt(it.equal(opt, E.op("ACTOR_CREATE"))))
    p.check("of the worker that was chosen", intt(dest) == E.rank.t)
    d = data.items
    p.check("of the declared class", d["class"] is user)
    p.check("with the given positional arguments", A.same_list(d["args"]))
    p.check("with the given keyword arguments", A.same_dict(d["kwargs"]))
    p.check("under a new identifier", d["handler"] is E.hid and len(E.of("new id")) == 1)
    p.check("the worker is reserved, once", z3.And(z3.BoolVal(len(E.of("reserve")) == 1), *[intt(x[1]) == E.rank.t for x in E.of("reserve")]))
    p.check("and recorded as the owner", z3.And(z3.BoolVal(len(E.of("owner")) == 1 and E.of("owner")[0][1] is E.hid), *[intt(x[2]) == E.rank.t for x in E.of("owner")]))
    p.check("the request is kept until it is sent", len(E.of("held")) == 1 and E.of("held")[0][1] is E.hs)
    p.check("nothing is released", not E.of("release"))
    # handles
    f, st = it.unpack(it.call(meth(it, a, "__reduce__")), 2)
    log.clear()
    p.check("serializing a handle has no effect", True)
    b = it.call(f, list(st.items))
    p.check("restoring a handle sends nothing and chooses no worker", not E.of("send") and not E.of("schedule") and not E.of("new id"))
    p.check("it reserves the worker of the actor where it is restored, once", z3.And(z3.BoolVal(len(E.of("reserve")) == 1), *[intt(x[1]) == E.rank.t for x in E.of("reserve")]))
    p.check("it is recorded as the owner", z3.And(z3.BoolVal(all(x[1] is E.hid for x in E.of("owner")) and len(E.of("owner")) == 1), *[intt(x[2]) == E.rank.t for x in E.of("owner")]))
    f2, st2 = it.unpack(it.call(meth(it, b, "__reduce__")), 2)
    c = it.call(f2, list(st2.items))
    for o in (a, b, c):
        p.check("every handle addresses the one worker and instance", z3.And(intt(it.getattr(o, "_owner_rank")) == E.rank.t, z3.BoolVal(it.getattr(o, "_handler_id") is E.hid)))
    p.check("a handle of a handle sends nothing", not E.of("send") and not E.of("schedule"))
    for o in (a, b):
        log.clear()
        it.call(meth(it, o, "__del__"))
        p.check("a handle that disappears releases its reservation, once", z3.And(z3.BoolVal(len(log) == 1 and len(E.of("release")) == 1), *[intt(x[1]) == E.rank.t for x in E.of("release")]))
    p.cover("created")
    p.post()


@unit(CREATE_UNITS, "MPI ActorMethod.__call__", budget=60)
def u_mpi_method(p):
    it = Interp(p)
    it.attr_hook = data_id_attr
    E = Env(p, it)
    A = Args(p, it, "num_returns")
    a = new(it, glob(it, ACT, "Actor"))
    rank, hid, mid, n = p.int("owner_rank"), p.u("handler", "MpiDataID"), p.u("method_id", "MpiDataID"), p.int("num_returns")
    a.attrs.update(_owner_rank=rank, _handler_id=hid)
    m = it.call(glob(it, ACT, "ActorMethod"), [a, mid])
    k, r = call_catch(it, m, A.pos(), {"**": A.kw, "num_returns": n})
    p.check("no exception", k == "ret")
    if k != "ret":
        return
    log = E.log
    s = E.of("send")
    p.check("exactly one request", len(s) == 1)
    _, opt, data, dest = s[0]
    p.check("to run a method of an actor", boolt(it.equal(opt, E.op("ACTOR_EXECUTE"))))
    p.check("sent to the worker of the actor", intt(dest) == rank.t)
    d = data.items
    p.check("of that actor", d["handler"] is hid)
    p.check("the method of the handle", d["task"] is mid)
    p.check("with the positional arguments in order", A.same_list(d["args"]))
    p.check("with the keyword arguments", A.same_dict(d["kwargs"]))
    p.check("with the references of the results", d["output"] is E.out and r is E.out)
    o = E.of("outputs")
    p.check("which belong to the worker of the actor", z3.And(z3.BoolVal(len(o) == 1), intt(o[0][1]) == rank.t, intt(o[0][2]) == n.t) if len(o) == 1 else False)
    i = log.index(s[0])
    pushed = [x for x in log[:i] if x[0] == "push"]
    p.check("dependencies are pushed to that worker only, before the request", z3.And(z3.BoolVal(len(pushed) == len(E.of("push"))), *[intt(x[1]) == rank.t for x in pushed]))
    p.check("the method", any(x[2] is mid for x in pushed))
    p.check("the positional arguments", z3.Or(z3.BoolVal(False), *[A.same_list(x[2]) for x in pushed if isinstance(x[2], ListObj)]))
    p.check("the keyword arguments", z3.Or(z3.BoolVal(False), *[A.same_dict(x[2]) for x in pushed if isinstance(x[2], DictObj)]))
    p.check("the submission is counted once", len(E.of("count")) == 1)
    p.check("the request is kept until it is sent", len(E.of("held")) == 1 and E.of("held")[0][1] is E.hs)
    p.check("no other worker is chosen", not E.of("schedule"))
    p.post()


@unit(CREATE_UNITS, "MPI Actor.__getattr__", budget=60)
def u_mpi_getattr(p):
    it = Interp(p)
    E = Env(p, it)
    cls = glob(it, ACT, "Actor")
    a = new(it, cls)
    NAME = z3.Function("stored_name", U, U)
    d = sym_dict(it, "known_methods", EU("MpiDataID"), keyty="str")
    y = z3.Const("y!g", U)
    # every cached identifier refers to the stored name of its method, and this stays so
    p.assume(z3.ForAll([y], z3.Implies(d.dom[y], NAME(d.val[y]) == y), patterns=[d.val[y]]))
    p.assume(z3.ForAll([y], z3.Implies(d.dom[y], d.val[y] != NONE), patterns=[d.val[y]]))
    d0, v0 = d.dom, d.val
    if "actor_methods" not in cls.attrs:
        raise Unsupported("cached methods in another form")
    cls.attrs["actor_methods"] = d
    puts = []

    def put(it_, v):
        x = it_.p.u("stored", "MpiDataID")
        it_.p.assume(z3.And(NAME(x.t) == v["data"].t, x.t != NONE))
        puts.append(v["data"])
        return x

    it.summaries[MPI + "controller.api:put"] = put
    it.gover[(ACT, "put")] = Builtin("put", lambda i, ar, k: put(i, {"data": ar[0]}))
    n, x = p.u("name", "str"), p.u("other", "str").t
    m = it.call(meth(it, a, "__getattr__"), [n])
    ids = [v for v in m.attrs.values() if isinstance(v, Sym)]
    p.check("a method of this actor", any(v is a for v in m.attrs.values()))
    p.check("the stored name of the method", z3.And(z3.BoolVal(len(ids) == 1), *[NAME(v.t) == n.t for v in ids]))
    p.check("the cached names stay right", z3.Implies(d.dom[x], NAME(d.val[x]) == x))
    p.check("a name is stored at most once", len(puts) <= 1 and not E.log)
    p.check("known names are not stored again", z3.Implies(d0[n.t], z3.BoolVal(not puts)))
    p.post()


PA = B + "pymp.core.actor"


@unit(CREATE_UNITS, "multiprocessing Actor: creation, calls and release", budget=60)
def u_mp_actor(p):
    it = Interp(p)
    A = Args(p, it)
    log = []
    user = p.u("class")
    full, bad = p.bool("all_workers_grabbed"), p.bool("creation_fails")
    wid = p.int("worker_id")

    class Worker(Native):
        def m_add_task(self, it_, t):
            log.append(("task", t))

    w = Worker()

    class PMgr(Native):
        def m_grab_worker(self, it_):
            log.append(("grab",))
            if it_.p.branch(full.t):
                raise PyRaise(it_.mkexc("RuntimeError", "no available workers"))
            return it_.mktuple([w, wid])

        def m_free_worker(self, it_, i):
            log.append(("free", i))

    class Inst(Native):
        f_some_method = None

    inst = Inst()
    inst.f_some_method = Builtin("some_method", lambda i, a, k: None)
    reg = {}

    class Mgr(Native):
        def m_start(self, it_):
            log.append(("start",))

        def getattr(self, it_, n):
            if n in reg:

                def mk(i, a, k):
                    log.append(("create",))
                    i.p.check("of the declared class", reg[n] is user)
                    A.arrive(a, k)
                    if i.p.branch(bad.t):
                        raise PyRaise(i.p.u("user_exception"))
                    return inst

                return Builtin("create", mk)
            return Native.getattr(self, it_, n)

    class MgrCls(Native):
        def m_register(self, it_, n, c):
            reg[n] = c

        def call(self, it_, *a):
            return Mgr()

    store = p.u("store")
    it.gover[(PA, "BaseManager")] = MgrCls()
    it.gover[(PA, "ProcessManager")] = Single(PMgr())
    it.gover[(PA, "ObjectStore")] = Single(store)
    cls = glob(it, PA, "Actor")
    # the object exists before its constructor runs and is deleted also if that fails
    a = new(it, cls)
    init = it.class_lookup(cls, "__init__")
    k, r = call_catch(it, Bound(init, a), [user] + A.pos(), {"**": A.kw})
    names = [x[0] for x in log]
    if k == "exc":
        p.check("fails only if the class fails or no worker is free", z3.Or(full.t, bad.t))
        log.clear()
        k2, r2 = call_catch(it, meth(it, a, "__del__"))
        p.check("then no worker is released", k2 == "ret" and not log)
        p.cover("failed")
        p.post()
        return
    p.check("one instance is created", names.count("create") == 1)
    p.check("one worker is reserved", names.count("grab") == 1)
    m = it.call(meth(it, a, "__getattr__"), ["some_method"])
    p.check("methods are those of the instance", any(v is inst for v in m.attrs.values()) and any(v is a for v in m.attrs.values()) and any(v is store for v in m.attrs.values()) and "some_method" in [v for v in m.attrs.values() if isinstance(v, str)])
    DUMP = z3.Function("dumps", U, U)
    it.gover[(PA, "pkl")] = ExtModule("cloudpickle")
    it.ext["cloudpickle.dumps"] = Builtin("dumps", lambda i, a_, k_: Sym(DUMP(a_[0].t), "u"))
    log.clear()
    t = p.u("task")
    it.call(meth(it, a, "submit"), [t])
    p.check("a call goes to the reserved worker, once", len(log) == 1 and log[0][0] == "task")
    p.check("it is the call that was submitted", log[0][1].t == DUMP(t.t))
    log.clear()
    it.call(meth(it, a, "__del__"))
    p.check("a handle that disappears releases its worker, once", z3.And(z3.BoolVal(len(log) == 1 and log[0][0] == "free"), intt(log[0][1]) == wid.t) if len(log) == 1 and log[0][0] == "free" else False)
    p.cover("created")
    p.post()


@unit(METHOD_UNITS, "multiprocessing ActorMethod.submit", budget=60)
def u_mp_method(p):
    it = Interp(p)
    A = Args(p, it, "num_returns")
    case = p.choose(3)
    n = {0: 0, 1: 1}.get(case)
    if n is None:
        n = p.int("num_returns")
        p.assume(n.t > 1)
    MK = z3.Function("new_data_id", IntS, U)
    it.ghost.attrs["made"] = 0
    tasks, sent = [], []

    class Delayed(Native):
        pass

    class Store(Native):
        def m_put(self, it_, v):
            it_.p.check("references are made without a value", v == "delayed")
            c = it_.ghost.attrs["made"]
            it_.ghost.attrs["made"] = mkint(intt(c) + 1)
            return Sym(MK(intt(c)), "u", "DataID")

    class Inst(Native):
        pass

    inst, store = Inst(), Store()
    bm = inst.f_some_method = Builtin("some_method", lambda i, a, k: None)

    class Act(Native):
        def m_submit(self, it_, t):
            sent.append(t)

    act = Act()
    it.gover[(PA, "Delayed")] = Builtin("Delayed", lambda i, a, k: "delayed")
    t = p.u("task")

    def mktask(i, a, k):
        i.p.check("the method of the instance", a[0] is bm)
        i.p.check("the store of the process", a[2] is store)
        k = A.arrive(a[3:], k)
        i.p.check("no other keywords", not k)
        tasks.append(a[1])
        return t

    it.gover[(PA, "Task")] = Builtin("Task", mktask)
    j = z3.Int("j!m")

    def inv(it_, s, k):
        out = [("identifiers made", intt(it_.ghost.attrs["made"]) == k)]
        for nm, l in local_lists(s):
            if l.tup or l is A.args:
                continue
            a, m = view(it_, l, EU("DataID"))
            if a is not None:
                out.append((f"{nm}: new identifiers", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), a[j] == MK(j)))))
        return out

    it.inv.append(inv)
    o = it.call(glob(it, PA, "ActorMethod"), [inst, act, "some_method", store])
    k, r = call_catch(it, meth(it, o, "submit"), A.pos(), {"**": A.kw, "num_returns": n})
    p.check("no exception", k == "ret")
    if k != "ret":
        return
    p.check("one task, submitted once to the actor", len(tasks) == 1 and len(sent) == 1 and sent[0] is t)
    p.check("the references of the task are the returned ones", tasks[0] is r)
    if case == 0:
        p.check("no reference for no result", z3.And(z3.BoolVal(r is None), intt(it.ghost.attrs["made"]) == 0))
    elif case == 1:
        p.check("one new reference", z3.And(r.t == MK(z3.IntVal(0)), intt(it.ghost.attrs["made"]) == 1) if isinstance(r, Sym) else False)
    else:
        x, m = view(it, r, EU("DataID"))
        p.check("one new reference per result", z3.And(z3.BoolVal(isinstance(r, ListObj) and not r.tup), m == n.t, z3.Implies(z3.And(0 <= A.q, A.q < m), x[A.q] == MK(A.q))))
    p.cover(f"case {case}")
    p.post()


@unit(CREATE_UNITS, "Actor handle of the public API: restoring", budget=30)
def u_api_actor(p):
    it = Interp(p)

    class Back(Native):
        pass

    b = Back()
    o = it.call(glob(it, "unidist.core.base.actor", "Actor"), [b])
    f, st = it.unpack(it.call(meth(it, o, "__reduce__")), 2)
    o2 = it.call(f, list(st.items))
    p.check("a restored handle is one of the same backend actor", o2.cls is o.cls and o2.attrs["_actor_cls"] is b)
    p.post()
