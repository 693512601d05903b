"""C04: num_returns decides the number of references and which value each one holds."""
from contracts import c06, c13
from contracts.store import *
from pyvc.interp import _Star

UNITS = []
NOTE = (
    "Proof, for all functions, argument lists, declared and overriding num_returns and results, of the submission functions of all backends (_remote, submit), of identifier generation, of the executing side of the sequential, "
    "multiprocessing (Worker.run step) and MPI backends (execute_received_task). Whole clusters are run (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = [
    "a task that declares n > 1 returns a sequence of n values",
    "cloudpickle.loads(cloudpickle.dumps(task)) is an equal task",
    "Dask's Client.submit(f, future, i) gives a future of f(value of future, i)",
]
UNITS += [u for u in c06.UNITS if "generate_output_data_id" in u.name]
UNITS += [u for u in c13.UNITS if "execute_received_task" in u.name]

REF = z3.Function("ObjectRef", U, U)
UNWRAP = z3.Function("unwrapped", U, U)
B = "unidist.core.backends."


def declared_and_given(p):
    """(declared num_returns, overriding num_returns, the one that counts)"""
    def one(nm, none):
        c = p.choose(4 if none else 3)
        if c == 3:
            return None, None
        if c == 2:
            n = p.int(nm)
            p.assume(n.t > 1)
            return n, 2
        return c, c

    d, dc = one("declared", True)
    g, gc = one("given", True)
    if g is not None:
        return d, g, g, gc
    if d is not None:
        return d, g, d, dc
    return d, g, 1, 1


def map_facts(it, l):
    return l


def remote_unit(backend, cls, alias):
    mod = f"{B}{backend}.remote_function"

    def fn(p):
        it = Interp(p)
        d, g, eff, case = declared_and_given(p)
        f = p.u("function")
        it.gover[(mod, "ObjectRef")] = Builtin("ObjectRef", lambda i, a, k: Sym(REF(enc(i, EU(None), a[0])), "u", "ObjectRef"))
        it.gover[(mod, "unwrap_object_refs")] = Builtin("unwrap", lambda i, a, k: Sym(UNWRAP(enc(i, EU(None), a[0])), "u"))
        unwraps = backend in ("mpi", "dask")
        ISID = z3.Function("is_data_id", U, BoolS)
        it.gover[(mod, "is_data_id")] = Builtin("is_data_id", lambda i, a, k: Sym(ISID(enc(i, EU(None), a[0])), "bool"))
        PUT = z3.Function("put", U, U)
        args = symlist(it, "args", EU(None))
        a0, n0 = args.arr, args.n
        kw = sym_dict(it, "kwargs", EU(None), keyty="str")
        kd0, kv0 = kw.dom, kw.val
        q, key = p.int("index").t, p.u("key", "str").t
        subs, puts = [], []
        out = symlist(it, "data_ids", EU(None))

        def submit(it_, a, k):
            k = dict(k)
            nr = k.pop("num_returns", 1)
            if backend == "dask":
                it_.p.check("a task is never taken for another one", k.pop("pure", None) is False)
            fun = a[0]
            rest = a[1:]
            first = not subs
            if backend == "dask" and not first:
                raise Unsupported("unexpected submission")
            it_.p.check("the task is submitted once", first)
            subs.append(1)
            if backend == "mpi":
                it_.p.check("the function is the declared one", z3.Or(enc(it_, EU(None), fun) == f.t, enc(it_, EU(None), fun) == PUT(f.t)))
            else:
                it_.p.check("the function is the declared one", enc(it_, EU(None), fun) == f.t)
            if backend != "dask":
                it_.p.check("the number of results of this call counts", boolt(it_.equal(nr, eff)))
            rest, k = star_form(it_, rest, k)
            x, m = view(it_, rest[0].v, EU(None))
            it_.p.check("as many arguments", m == zt(n0))
            w = UNWRAP if unwraps else (lambda t: t)
            it_.p.check("each argument in its place", z3.Implies(z3.And(0 <= q, q < zt(n0)), x[q] == w(a0[q])))
            kk = k.pop("**", None)
            it_.p.check("no other keywords", not k and kk is not None)
            it_.p.check("the same keywords", kk.dom[key] == kd0[key])
            it_.p.check("each keyword with its value", z3.Implies(kd0[key], kk.val[key] == w(kv0[key])))
            if backend == "dask":
                return p.u("future")
            if case == 0:
                return None
            if case == 1:
                return Sym(z3.Const("data_id", U), "u")
            it_.p.assume(zt(out.n) == intt(eff))
            return out

        class Core(Native):
            def __init__(self):
                self.f_submit = Builtin("submit", submit)

            def m_put(self, it_, v):
                it_.p.check("the function is put as it is", z3.And(enc(it_, EU(None), v) == f.t, z3.Not(ISID(f.t))))
                puts.append(1)
                return Sym(PUT(f.t), "u")

        if backend == "dask":
            fut = []

            class Client(Native):
                def __init__(self):
                    self.f_submit = Builtin("submit", self.sub)

                def sub(self, it_, a, k):
                    if not subs:
                        r = submit(it_, a, k)
                        fut.append(r)
                        return r
                    k = dict(k)
                    it_.p.check("a task is never taken for another one", k.pop("pure", None) is False)
                    it_.p.check("no other keywords", not k)
                    it_.p.check("the element of the result is taken", len(a) == 3 and isinstance(a[0], Func))
                    # the function is run on the value of the future, here an opaque sequence
                    seq = symlist(it_, "result", EU(None))
                    it_.p.assume(zt(seq.n) == intt(eff))
                    ra = [seq if x is fut[0] else x for x in a[1:]]
                    idx = next((x for x in a[1:] if x is not fut[0]), None)
                    it_.p.assume(z3.And(0 <= intt(idx), intt(idx) < intt(eff)))
                    r = it_.call(a[0], ra)
                    it_.p.check("the i-th element belongs to the i-th reference", enc(it_, EU(None), r) == seq.arr[intt(idx)])
                    return Sym(z3.Function("item_future", U, IntS, U)(fut[0].t, intt(idx)), "u")

            it.gover[(mod, "get_client")] = Builtin("get_client", lambda i, a, k: Client())
        else:
            it.gover[(mod, alias)] = Core()
        o = it.call(glob(it, mod, cls), [f, None, d, None])
        before = dict(o.attrs)
        call_kw = {"**": kw}
        if g is not None:
            call_kw["num_returns"] = g
        k, r = call_catch(it, meth(it, o, "_remote"), [_Star(args)], call_kw)
        p.check("no exception", k == "ret")
        if k != "ret":
            return
        p.check("submitted", len(subs) == 1)
        for nm, v in before.items():
            if nm == "_remote_function":
                now = enc(it, EU(None), o.attrs[nm])
                p.check("the function of later calls is the same one", z3.Or(now == f.t, z3.And(now == PUT(f.t), z3.BoolVal(bool(puts)))))
            else:
                p.check("the declaration is not changed by a call", o.attrs.get(nm) is v)
        p.check("the caller's arguments are not changed", z3.And(zt(args.n) == zt(n0), z3.BoolVal(args.arr is a0 or args.arr.eq(a0))))
        if case == 0:
            p.check("no reference for no result", r is None)
        elif case == 1:
            ref = z3.Const("data_id", U) if backend != "dask" else fut[0].t
            p.check("one reference, to the result", r.t == REF(ref) if isinstance(r, Sym) else False)
        else:
            p.check("a list of references", isinstance(r, ListObj) and not r.tup)
            x, m = view(it, r, EU("ObjectRef"))
            p.check("one reference per result", m == intt(eff))
            if backend != "dask":
                p.check("the i-th reference refers to the i-th result", z3.Implies(z3.And(0 <= q, q < m), x[q] == REF(out.arr[q])))
            else:
                p.check("the i-th reference refers to the i-th result", z3.Implies(z3.And(0 <= q, q < m), x[q] == REF(z3.Function("item_future", U, IntS, U)(fut[0].t, q))))
        p.cover(f"case {case}")
        p.post()

    UNITS.append(Unit(f"{cls}._remote", fn, budget=120))


remote_unit("pyseq", "PySeqRemoteFunction", "py")
remote_unit("pymp", "PyMpRemoteFunction", "mp")
remote_unit("mpi", "MPIRemoteFunction", "mpi")
remote_unit("dask", "DaskRemoteFunction", None)


ISEXC = z3.Function("is_exception", U, BoolS)
MK = z3.Function("new_data_id", IntS, U)
NUM = z3.Function("creation_number", U, IntS)


def in_process_store(p, it, mod, attr="store"):
    """an object store with arbitrary contents; DataID() makes identifiers that no entry has yet"""
    o = new(it, glob(it, mod, "ObjectStore"))
    d = sym_dict(it, "store", EU(None), keyty="DataID")
    o.attrs[attr] = d
    g = it.ghost.attrs
    c = p.int("ids_made")
    g["made"] = c
    y, z = z3.Const("y!d", U), z3.Int("z!d")
    p.assume(c.t >= 0)
    p.assume(z3.ForAll([z], NUM(MK(z)) == z, patterns=[MK(z)]))
    p.assume(z3.ForAll([y], z3.Implies(d.dom[y], NUM(y) < c.t), patterns=[d.dom[y]]))

    def mk(i, a, k):
        n = intt(g["made"])
        g["made"] = Sym(n + 1, "int")
        return Sym(MK(n), "u", "DataID")

    it.gover[(mod, "DataID")] = PyType("DataID", mk)
    it.gover[(mod, "ObjectStore")] = Single(o)
    return o, d, c


def hook(it, isid):
    it.p.assume(z3.Not(ISEXC(NONE)))
    def h(it_, v, t):
        nm = getattr(t, "name", None)
        if isinstance(v, Sym) and v.k == "u":
            if nm == "DataID":
                return True if v.ty == "DataID" else isid(v.t)
            if nm in ("Exception", "BaseException"):
                return ISEXC(v.t)
            if nm in ("list", "tuple", "dict"):
                return False
        return NotImplemented

    it.isinst_hook = h


def args_inv(args, kw, key, MAT, FAILED, gate, *no):
    """invariant of the loops that replace the references among the arguments"""
    j = z3.Int("j!s")

    def inv(it_, s, k):
        out = []
        rng = z3.And(0 <= j, j < k)
        if s.srcl is None or s.srcl[2].sort != U or not gate():
            return out
        sa = s.srcl[0]
        pos = sa.eq(args.arr)
        at = (lambda jj: args.arr[jj]) if pos else (lambda jj: kw.val[sa[jj]])
        out.append(("no failed argument so far", z3.ForAll([j], z3.Implies(rng, z3.Not(FAILED(at(j)))), patterns=[sa[j]])))
        for nm, (dd, kk) in s.head.vars.items():
            l = dd.get(kk)
            if isinstance(l, ListObj) and not l.tup and l is not args and pos:
                a, m = view(it_, l, EU(None))
                if a is not None:
                    out.append((f"{nm}: values of arguments", z3.And(m == k, z3.ForAll([j], z3.Implies(rng, a[j] == MAT(args.arr[j]))))))
            if isinstance(l, DictObj) and not l.items and l is not kw and l not in no and not pos:
                if l.items is not None:
                    out += [(f"{nm}: {x}", t) for x, t in (("names so far", z3.BoolVal(True)), ("each name", k == 0), ("values of keywords", z3.BoolVal(True)))]
                    continue
                out.append((f"{nm}: names so far", z3.Implies(l.dom[key], kw.dom[key])))
                out.append((f"{nm}: each name", z3.ForAll([j], z3.Implies(rng, l.dom[sa[j]]), patterns=[sa[j]])))
                out.append((f"{nm}: values of keywords", z3.Implies(l.dom[key], l.val[key] == MAT(kw.val[key]))))
        return out

    return inv


@unit(UNITS, "sequential submit", budget=150)
def u_seq_submit(p):
    it = Interp(p)
    A, M = B + "pyseq.core.api", B + "pyseq.core.object_store"
    o, d, c = in_process_store(p, it, M)
    it.gover[(A, "ObjectStore")] = Single(o)
    it.gover[(A, "DataID")] = it.gover[(M, "DataID")]
    ISID = z3.Function("is_data_id", U, BoolS)
    hook(it, ISID)
    d0, v0 = d.dom, d.val
    y = z3.Const("y!p", U)
    p.assume(z3.ForAll([y], z3.Implies(ISID(y), d0[y]), patterns=[ISID(y)]))  # references of arguments were made before
    args = symlist(it, "args", EU(None))
    kw = sym_dict(it, "kwargs", EU(None), keyty="str")
    case = p.choose(3)
    n = case
    if case == 2:
        n = p.int("num_returns")
        p.assume(n.t > 1)
    MAT = lambda t: z3.If(ISID(t), v0[t], t)
    FAILED = lambda t: z3.And(ISID(t), ISEXC(v0[t]))
    raised, res = p.u("raised"), p.u("result")
    resl = symlist(it, "results", EU(None))
    if case == 2:
        p.assume(resl.n == n.t)
    q, qa, key, x = p.int("index").t, p.int("argument_index").t, p.u("key", "str").t, p.u("other", "DataID").t
    st = {"calls": 0, "raised": False}

    def func(it_, a, k):
        st["calls"] += 1
        it_.p.check("the task runs once", st["calls"] == 1)
        it_.p.check("nothing is stored before the task ran", z3.And(d.dom[x] == d0[x], d.val[x] == v0[x]))
        a, k = star_form(it_, a, k)
        if list(k) != ["**"]:
            raise Unsupported("arguments in another form")
        arr, m = view(it_, a[0].v, EU(None))
        it_.p.check("as many arguments", m == zt(args.n))
        rng = z3.And(0 <= qa, qa < zt(args.n))
        it_.p.check("each argument in its place, references replaced by their values", z3.Implies(rng, arr[qa] == MAT(args.arr[qa])))
        it_.p.check("a task runs only if none of its arguments failed", z3.Implies(rng, z3.Not(FAILED(args.arr[qa]))))
        kk = k["**"]
        it_.p.check("the same keywords", kk.dom[key] == kw.dom[key])
        it_.p.check("each keyword with its value", z3.Implies(kw.dom[key], z3.And(kk.val[key] == MAT(kw.val[key]), z3.Not(FAILED(kw.val[key])))))
        if it_.p.branch(it_.p.bool("task_raises").t):
            st["raised"] = True
            it_.p.assume(ISEXC(raised.t))
            raise PyRaise(raised)
        return resl if case == 2 else res

    j = z3.Int("j!s")

    def get(it_, v):
        """proved under C02: the value of one reference; a failure is raised"""
        t = v["data_ids"]
        if not isinstance(t, Sym):
            raise Unsupported("get of a list")
        if it_.p.branch(ISEXC(d.val[t.t])):
            raise PyRaise(Sym(d.val[t.t], "u"))
        return Sym(d.val[t.t], "u")

    def inv(it_, s, k):
        out = []
        if case == 2 and s.srcl is None:
            made = intt(it_.ghost.attrs["made"])
            out.append(("identifiers made", made == c.t + k))
            for nm, l in local_lists(s):
                if l is args or l is resl or l.tup:
                    continue
                a, m = view(it_, l, EU("DataID"))
                if a is not None:
                    out.append((f"{nm}: new identifiers", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), a[j] == MK(c.t + j)))))
            for nm, (dd, kk) in s.head.vars.items():
                l = dd.get(kk)
                if isinstance(l, ListObj) and l is not args and not l.tup:
                    a, m = view(it_, l, EU(None))
                    if a is not None:
                        out.append((f"stored from {nm}", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(d.dom[MK(c.t + j)], d.val[MK(c.t + j)] == a[j])), patterns=[MK(c.t + j)])))
            out.append(("older entries", z3.Implies(NUM(x) < c.t, z3.And(d.dom[x] == d0[x], d.val[x] == v0[x]))))
            out.append(("entries", z3.Implies(z3.Not(z3.And(c.t <= NUM(x), NUM(x) < made, x == MK(NUM(x)))), z3.And(d.dom[x] == d0[x], d.val[x] == v0[x]))))
        return out

    it.inv.append(inv)
    it.inv.append(args_inv(args, kw, key, MAT, FAILED, lambda: not st["calls"], d))
    it.summaries[M + ":ObjectStore.get"] = get
    k, r = call_catch(it, glob(it, A, "submit"), [Builtin("func", func), _Star(args)], {"**": kw, "num_returns": n})
    p.check("a failing task does not fail its submission", k == "ret")
    if k != "ret":
        return
    ok = st["calls"] == 1 and not st["raised"]
    if case == 0:
        p.check("no reference for no result", r is None)
        p.check("nothing is stored", z3.And(d.dom[x] == d0[x], d.val[x] == v0[x]))
    else:
        if case == 1:
            p.check("one new reference", z3.Not(d0[r.t]) if isinstance(r, Sym) else False)
            ref, good, isnew = r.t, res.t, x == r.t
        else:
            p.check("a list of references", isinstance(r, ListObj) and not r.tup)
            arr, m = view(it, r, EU("DataID"))
            p.check("one reference per result", m == n.t)
            p.assume(z3.And(0 <= q, q < n.t))
            q2 = p.int("index2").t
            p.check("the references are new", z3.Not(d0[arr[q]]))
            p.check("the references are distinct", z3.Implies(z3.And(0 <= q2, q2 < n.t, q2 != q), arr[q2] != arr[q]))
            ref, good = arr[q], resl.arr[q]
            isnew = z3.And(c.t <= NUM(x), NUM(x) < c.t + n.t, x == MK(NUM(x)))
        p.check("each reference has a value", d.dom[ref])
        if ok:
            p.check("returned: each reference holds its own value", d.val[ref] == good)
        elif st["raised"]:
            p.check("raised: each reference holds the exception", d.val[ref] == raised.t)
        else:
            p.check("not run: each reference holds a failure", ISEXC(d.val[ref]))
        p.check("no other reference is affected", z3.Implies(z3.Not(isnew), z3.And(d.dom[x] == d0[x], d.val[x] == v0[x])))
    p.cover(f"{case} {st['calls']} {st['raised']}")
    p.post()


PM = B + "pymp.core."


@unit(UNITS, "multiprocessing submit", budget=100)
def u_mp_submit(p):
    it = Interp(p)
    A, M = PM + "api", PM + "object_store"
    o, d, c = in_process_store(p, it, M, "store_delayed")
    it.gover[(A, "ObjectStore")] = Single(o)
    d0, v0 = d.dom, d.val
    DELAYED = z3.Const("delayed_entry", U)
    it.gover[(A, "Delayed")] = Builtin("Delayed", lambda i, a, k: Sym(DELAYED, "u"))
    args = symlist(it, "args", EU(None))
    kw = sym_dict(it, "kwargs", EU(None), keyty="str")
    f = p.u("function")
    case = p.choose(3)
    n = case
    if case == 2:
        n = p.int("num_returns")
        p.assume(n.t > 1)
    q, x = p.int("index").t, p.u("other", "DataID").t
    sent, tasks = [], []

    class PMgr(Native):
        def m_submit(self, it_, t):
            sent.append(t)

    def mktask(it_, a, k):
        """the constructor of Task keeps what it is given (unit Task.__call__)"""
        a, k = star_form(it_, a, k, 3)
        if len(a) != 4 or list(k) != ["**"]:
            raise Unsupported("arguments in another form")
        tasks.append((a, k))
        return Sym(z3.Const("task", U), "u")

    it.gover[(A, "Task")] = Builtin("Task", mktask)
    it.gover[(A, "ProcessManager")] = Single(PMgr())
    DUMP = z3.Function("dumps", U, U)
    it.gover[(A, "pkl")] = ExtModule("cloudpickle")
    it.ext["cloudpickle.dumps"] = Builtin("dumps", lambda i, a, k: Sym(DUMP(a[0].t), "u"))
    it.summaries[M + ":ObjectStore.put"] = NotImplemented
    del it.summaries[M + ":ObjectStore.put"]
    it.gover[(M, "callable")] = Builtin("callable", lambda i, a, k: False)
    j = z3.Int("j!s")

    def inv(it_, s, k):
        out = []
        if case == 2 and s.srcl is None:
            made = intt(it_.ghost.attrs["made"])
            out.append(("identifiers made", made == c.t + k))
            for nm, l in local_lists(s):
                if l is args or l.tup:
                    continue
                a, m = view(it_, l, EU("DataID"))
                if a is not None:
                    out.append((f"{nm}: new identifiers", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), a[j] == MK(c.t + j)))))
            out.append(("stored", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(d.dom[MK(c.t + j)], d.val[MK(c.t + j)] == DELAYED)), patterns=[MK(c.t + j)])))
            out.append(("entries", z3.Implies(z3.Not(z3.And(c.t <= NUM(x), NUM(x) < made, x == MK(NUM(x)))), z3.And(d.dom[x] == d0[x], d.val[x] == v0[x]))))
        return out

    it.inv.append(inv)
    k, r = call_catch(it, glob(it, A, "submit"), [f, _Star(args)], {"**": kw, "num_returns": n})
    p.check("no exception", k == "ret")
    if k != "ret":
        return
    p.check("one task is made and submitted once", len(tasks) == 1 and len(sent) == 1)
    p.check("the task that was made", sent[0].t == DUMP(z3.Const("task", U)))
    a, kk = tasks[0]
    p.check("the declared function", a[0] is f)
    p.check("the store of the process", a[2] is o)
    x1, m = view(it, a[3].v, EU(None))
    p.check("the given arguments", z3.And(m == zt(args.n), z3.Implies(z3.And(0 <= q, q < m), x1[q] == args.arr[q])))
    p.check("the given keywords", kk["**"] is kw)
    p.check("the references of the task are the returned ones", a[1] is r)
    if case == 0:
        p.check("no reference for no result", r is None)
        p.check("nothing is stored", z3.And(d.dom[x] == d0[x], d.val[x] == v0[x]))
    elif case == 1:
        p.check("one new reference", z3.And(z3.Not(d0[r.t]), d.dom[r.t]) if isinstance(r, Sym) else False)
        p.check("no other reference is affected", z3.Implies(x != r.t, z3.And(d.dom[x] == d0[x], d.val[x] == v0[x])))
        p.check("it has no value yet", d.val[r.t] == DELAYED)
    else:
        arr, m = view(it, r, EU("DataID"))
        p.check("a list of references, one per result", z3.And(z3.BoolVal(isinstance(r, ListObj) and not r.tup), m == n.t))
        q2 = p.int("index2").t
        p.assume(z3.And(0 <= q, q < n.t))
        p.check("the references are new and distinct", z3.And(z3.Not(d0[arr[q]]), d.dom[arr[q]], z3.Implies(z3.And(0 <= q2, q2 < n.t, q2 != q), arr[q2] != arr[q])))
        p.check("they have no value yet", d.val[arr[q]] == DELAYED)
        p.check("no other reference is affected", z3.Implies(z3.Not(z3.And(c.t <= NUM(x), NUM(x) < c.t + n.t, x == MK(NUM(x)))), z3.And(d.dom[x] == d0[x], d.val[x] == v0[x])))
    p.cover(f"case {case}")
    p.post()


@unit(UNITS, "multiprocessing Task: arguments", budget=100)
def u_task(p):
    it = Interp(p)
    M = PM + "process_manager"
    ISID = z3.Function("is_data_id", U, BoolS)
    hook(it, ISID)
    it.gover[(M, "DataID")] = PyType("DataID")
    VAL = z3.Function("value_of", U, U)
    args = symlist(it, "args", EU(None))
    kw = sym_dict(it, "kwargs", EU(None), keyty="str")
    ids = p.u("data_ids")
    MAT = lambda t: z3.If(ISID(t), VAL(t), t)
    FAILED = lambda t: z3.And(ISID(t), ISEXC(VAL(t)))
    qa, key = p.int("argument_index").t, p.u("key", "str").t
    res, st = p.u("result"), {"calls": 0}

    class Store(Native):
        def m_get(self, it_, t):
            """proved under C02"""
            if it_.p.branch(ISEXC(VAL(t.t))):
                raise PyRaise(Sym(VAL(t.t), "u"))
            return Sym(VAL(t.t), "u")

    store = Store()

    def func(it_, a, k):
        st["calls"] += 1
        a, k = star_form(it_, a, k)
        if list(k) != ["**"]:
            raise Unsupported("arguments in another form")
        arr, m = view(it_, a[0].v, EU(None))
        rng = z3.And(0 <= qa, qa < zt(args.n))
        it_.p.check("as many arguments", m == zt(args.n))
        it_.p.check("each argument in its place, references replaced by their values", z3.Implies(rng, z3.And(arr[qa] == MAT(args.arr[qa]), z3.Not(FAILED(args.arr[qa])))))
        kk = k["**"]
        it_.p.check("the same keywords", kk.dom[key] == kw.dom[key])
        it_.p.check("each keyword with its value", z3.Implies(kw.dom[key], z3.And(kk.val[key] == MAT(kw.val[key]), z3.Not(FAILED(kw.val[key])))))
        return res

    it.inv.append(args_inv(args, kw, key, MAT, FAILED, lambda: not st["calls"]))
    t = it.call(glob(it, M, "Task"), [Builtin("func", func), ids, store, _Star(args)], {"**": kw})
    p.check("the task knows its references", it.getattr(t, "data_ids") is ids)
    k, r = call_catch(it, t)
    if k == "ret":
        p.check("the result of the function", r is res and st["calls"] == 1)
        p.cover("ran")
    else:
        p.check("only the failure of an argument is raised", z3.And(z3.BoolVal(st["calls"] == 0), ISEXC(r.t)) if isinstance(r, Sym) else False)
        p.cover("argument failed")
    p.post()


def run_unit_of(case):
    def fn(p):
        """One step of Worker.run for an arbitrary task, with an arbitrary store."""
        it = Interp(p)
        it.stepwise = True
        M = PM + "process_manager"
        n = p.int("num_returns")
        p.assume(n.t > 1)
        ids = {0: None, 1: p.u("data_id", "DataID"), 2: symlist(it, "data_ids", EU("DataID"))}[case]
        d = sym_dict(it, "store", EU(None), keyty="DataID")
        d0, v0 = d.dom, d.val
        res, raised = p.u("result"), p.u("raised")
        hook(it, lambda t: False)
        p.assume(ISEXC(raised.t))
        resl = symlist(it, "results", EU(None))
        POS = z3.Function("position", U, IntS)
        j = z3.Int("j!w")
        if case == 2:
            p.assume(z3.And(ids.n == n.t, resl.n == n.t))
            p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n.t), POS(ids.arr[j]) == j), patterns=[ids.arr[j]]))
        x, q = p.u("other", "DataID").t, p.int("index").t
        st = {"got": 0, "ran": 0, "raised": False, "done": 0}

        class Task(Native):
            def __init__(self):
                self.f_data_ids = ids

            def call(self, it_, *a):
                st["ran"] += 1
                it_.p.check("the task runs once", st["ran"] == 1)
                if it_.p.branch(it_.p.bool("task_raises").t):
                    st["raised"] = True
                    raise PyRaise(raised)
                return resl if case == 2 else res

        task = Task()

        class Queue(Native):
            def m_get(self, it_):
                if st["got"] == 1:
                    final(it_)
                    raise PathEnd()
                st["got"] += 1
                return p.u("pickled")

            def m_task_done(self, it_):
                st["done"] += 1

        class Store(Native):
            def __init__(self):
                self.f_d = d

            def m_put(self, it_, data, i):
                it_.setitem(self.f_d, i, data)
                return i

        def final(it_):
            pp = it_.p
            pp.check("the task ran once", st["ran"] == 1)
            pp.check("it is reported as done once", st["done"] == 1)
            same = z3.And(d.dom[x] == d0[x], d.val[x] == v0[x])
            if case == 0:
                pp.check("no reference: nothing is stored", same)
            else:
                if case == 1:
                    ref, good, mine = ids.t, res.t, x == ids.t
                else:
                    pp.assume(z3.And(0 <= q, q < n.t))
                    ref, good = ids.arr[q], resl.arr[q]
                    mine = z3.And(0 <= POS(x), POS(x) < n.t, ids.arr[POS(x)] == x)
                pp.check("raised: each reference holds the exception" if st["raised"] else "returned: each reference holds its own value", z3.And(d.dom[ref], d.val[ref] == (raised.t if st["raised"] else good)))
                pp.check("no other reference is affected", z3.Implies(z3.Not(mine), same))
            pp.cover(f"raised {st['raised']}")
            pp.post()

        def inv(it_, s, k):
            out = []
            if case == 2:
                src = raised.t if st["raised"] else None
                out.append(("stored", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(d.dom[ids.arr[j]], d.val[ids.arr[j]] == (raised.t if st["raised"] else resl.arr[j]))), patterns=[ids.arr[j]])))
                out.append(("others", z3.Implies(z3.Not(z3.And(0 <= POS(x), POS(x) < n.t, ids.arr[POS(x)] == x)), z3.And(d.dom[x] == d0[x], d.val[x] == v0[x]))))
            return out

        it.inv.append(inv)
        it.gover[(M, "pkl")] = ExtModule("cloudpickle")
        it.ext["cloudpickle.loads"] = Builtin("loads", lambda i, a, k: task)
        w = new(it, glob(it, M, "Worker"))
        w.attrs["task_queue"], w.attrs["_obj_store"] = Queue(), Store()
        k, r = call_catch(it, meth(it, w, "run"))
        p.check("the worker goes on", False)

    return fn


for cs in (0, 1, 2):
    UNITS.append(Unit(f"multiprocessing Worker.run step: {('no reference', 'one reference', 'n references')[cs]}", run_unit_of(cs), budget=100))


@unit(UNITS, "MPI controller.api.submit", budget=60)
def u_mpi_submit(p):
    """What is sent is what was given; the references are those of the task; dependencies are pushed before the task."""
    it = Interp(p)
    A = MPI + "controller.api"
    it.attr_hook = data_id_attr
    dest, me = p.int("dest_rank"), p.int("own_rank")
    task = p.u("task", "MpiDataID")
    args, kw = symlist(it, "args", EU(None)), sym_dict(it, "kwargs", EU(None), keyty="str")
    a0, n0, d0, v0 = args.arr, args.n, kw.dom, kw.val
    n = p.int("num_returns")
    out = p.u("output")
    log, state = [], {"sched": 0, "gen": 0}
    gc = None

    class RR(Native):
        def m_schedule_rank(self, it_):
            state["sched"] += 1
            return dest

    class LS(Native):
        def m_generate_output_data_id(self, it_, r, g, num=1):
            state["gen"] += 1
            it_.p.check("identifiers of this task's results, owned by its worker", z3.And(intt(r) == dest.t, intt(num) == n.t, z3.BoolVal(g is gc)))
            return out

    class GC(Native):
        def m_regular_cleanup(self, it_):
            it_.p.check("no cleanup between the push of dependencies and the task", not log)

        def m_increment_task_counter(self, it_):
            log.append(("count",))

    gc = GC()
    it.gover[(A, "garbage_collector")] = gc
    it.gover[(A, "RoundRobin")] = Single(RR())
    it.gover[(A, "LocalObjectStore")] = Single(LS())
    it.gover[(MPI + "communication", "MPIState")] = Single(MState(me))
    it.summaries[MPI + "controller.common:push_data"] = lambda it_, v: log.append(("push", v["dest_rank"], v["value"]))
    it.summaries[MPI + "common:unwrapped_data_ids_list"] = lambda it_, v: None
    hs = it.mklist([p.u("handler")])
    held = []

    def send(it_, v):
        log.append(("exec", v["dest_rank"], v["operation_type"], v["operation_data"]))
        return it_.mktuple([hs, None])

    it.summaries[MPI + "communication:isend_complex_operation"] = send

    class Async(Native):
        def m_extend(self, it_, h):
            held.append(h)

    it.gover[(A, "AsyncOperations")] = Single(Async())
    k, r = call_catch(it, glob(it, A, "submit"), [task, _Star(args)], {"**": kw, "num_returns": n})
    p.check("no exception", k == "ret")
    if k != "ret":
        return
    p.check("the references of the task are returned", isinstance(r, Sym) and r is out)
    p.check("one worker is chosen and one set of identifiers made", state == {"sched": 1, "gen": 1})
    ex = [x for x in log if x[0] == "exec"]
    p.check("one request to execute", len(ex) == 1)
    if len(ex) != 1:
        return
    i = log.index(ex[0])
    p.check("to the chosen worker", intt(ex[0][1]) == dest.t)
    p.check("a request to execute", boolt(it.equal(ex[0][2], it.getattr(glob(it, MPI + "common", "Operation"), "EXECUTE"))))
    d = ex[0][3].items
    p.check("with the function", d["task"] is task)
    p.check("with the references of the results", d["output"] is out)
    x, m = view(it, d["args"], EU(None))
    q, key = p.int("index").t, p.u("key", "str").t
    p.check("with the positional arguments in order", z3.And(m == zt(n0), z3.Implies(z3.And(0 <= q, q < m), x[q] == a0[q])))
    kk = d["kwargs"]
    p.check("with the keyword arguments", z3.And(kk.dom[key] == d0[key], z3.Implies(d0[key], kk.val[key] == v0[key])))
    pushed = [x for x in log[:i] if x[0] == "push"]
    for what, o in (("function", task), ("keyword arguments", kk)):
        p.check(f"the {what} is pushed to that worker before", z3.Or(z3.BoolVal(False), *[z3.And(intt(x[1]) == dest.t, z3.BoolVal(x[2] is o or o is kk and x[2] is kw)) for x in pushed]))
    cand = [view(it, x[2], EU(None)) + (x[1],) for x in pushed if isinstance(x[2], ListObj)]
    p.check("the positional arguments are pushed to that worker before", z3.Or(z3.BoolVal(False), *[z3.And(intt(rk) == dest.t, b == zt(n0), z3.Implies(z3.And(0 <= q, q < b), a[q] == a0[q])) for a, b, rk in cand]))
    p.check("the submission is counted once", sum(1 for x in log if x[0] == "count") == 1)
    p.check("the request is kept until it is sent", len(held) == 1 and held[0] is hs)
    p.post()
