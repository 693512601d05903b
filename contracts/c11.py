"""C11: scheduling."""
from contracts.lib import *

UNITS = []
NOTE = (
    "Proof, for all worker lists, reservations and positions of the rotation, of RoundRobin (MPI) and of ProcessManager._next/grab_worker/free_worker/submit (multiprocessing); "
    "actors' use of reservations on whole clusters is run (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = ["itertools.cycle repeats the elements of its argument in order for ever"]
COM = MPI + "controller.common"
CYC = z3.Function("cycle_element", IntS, IntS)


class Cycle(Native):
    """itertools.cycle over m elements; pos counts the elements taken"""

    def __init__(self, pos):
        self.f_pos = pos

    def next(self, it):
        v = self.f_pos
        self.f_pos = mkint(intt(v) + 1)
        it.ghost.attrs["taken"] = mkint(intt(it.ghost.attrs["taken"]) + 1)
        return Sym(CYC(POS0 + intt(it.ghost.attrs["taken"]) - 1), "int")


POS0 = z3.Int("position")


class State(Native):
    def __init__(self, workers, rank):
        self.f_workers, self.f_global_rank = workers, rank


def rr(p):
    it = Interp(p)
    W = symlist(it, "workers", EInt)
    me = p.int("own_rank")
    m = z3.Int("eligible")
    # __init__ (below): the cycle runs over the workers except the own rank
    j, i = z3.Ints("j!rr i!rr")
    p.assume(z3.And(m >= 1, z3.Or(m == W.n, m == W.n - 1), 0 <= POS0, POS0 < m))
    p.assume(z3.ForAll([j], z3.Implies(j >= 0, CYC(j + m) == CYC(j))))
    WPOS = z3.Function("worker_position", IntS, IntS)
    p.assume(z3.ForAll([j], z3.Implies(j >= 0, z3.And(CYC(j) != me.t, 0 <= WPOS(j), WPOS(j) < W.n, W.arr[WPOS(j)] == CYC(j)))))
    it.ghost.attrs["taken"] = 0
    it.gover[(MPI + "communication", "MPIState")] = Single(State(W, me))
    o = new(it, glob(it, COM, "RoundRobin"))
    res = symlist(it, "reserved", EInt)
    o.attrs["reserved_ranks"] = res
    o.attrs["rank_to_schedule"] = Cycle(Sym(POS0, "int"))
    return it, o, W, me, m, res


def isin(l, x):
    j = z3.Int("j!in")
    return z3.Exists([j], z3.And(0 <= j, j < zt(l.n), l.arr[j] == x))


@unit(UNITS, "RoundRobin.schedule_rank", budget=120)
def u_sched(p):
    it, o, W, me, m, res = rr(p)
    j = z3.Int("j!s")
    taken = lambda: intt(it.ghost.attrs["taken"])
    RES = z3.Function("is_reserved", IntS, BoolS)
    x = z3.Int("x!res")
    p.assume(z3.ForAll([x], RES(x) == isin(res, x)))

    def inv(it_, s, k):
        return [
            ("one rank per round", taken() == k),
            ("skipped ranks are reserved", z3.ForAll([j], z3.Implies(z3.And(POS0 <= j, j < POS0 + k), RES(CYC(j))), patterns=[CYC(j)])),
            ("nothing found so far", z3.And(*[z3.BoolVal(True)])),
        ]

    it.inv.append(inv)
    k, r = call_catch(it, meth(it, o, "schedule_rank"), [])
    if k == "exc":
        q = p.int("eligible_index").t
        p.assume(z3.And(0 <= q, q < m))
        p.assume(CYC(q + m) == CYC(q))
        p.check("fails only if every eligible worker is reserved", RES(CYC(q)))
        p.cover("all reserved")
    else:
        t = intt(r)
        p.check("a worker that is not reserved", z3.Not(RES(t)))
        p.check("not the process that submits", t != me.t)
        p.check("a worker of the cluster", isin(W, t))
        p.check("the next one in rotation: every worker that was passed over is reserved", z3.And(taken() >= 1, t == CYC(POS0 + taken() - 1), z3.ForAll([j], z3.Implies(z3.And(POS0 <= j, j < POS0 + taken() - 1), RES(CYC(j))))))
        p.cover("scheduled")
    p.check("reservations are not changed", same_value(it, o.attrs["reserved_ranks"], res))
    p.post()


@unit(UNITS, "RoundRobin.reserve_rank / release_rank")
def u_reserve(p):
    it, o, W, me, m, res = rr(p)
    e = p.int("e")
    p.track("e", e.t)
    it.cnt_facts(res)
    r = p.int("rank")
    c0 = cnt_of(it, res, "e")
    if p.choose(2) == 0:
        it.call(meth(it, o, "reserve_rank"), [r])
        p.check("exactly the given rank is reserved once more", cnt_of(it, o.attrs["reserved_ranks"], "e") == c0 + z3.If(e.t == r.t, 1, 0))
        p.cover("reserve")
    else:
        k, v = call_catch(it, meth(it, o, "release_rank"), [r])
        if k == "exc":
            p.assume(e.t == r.t)
            p.check("fails only if the rank is not reserved", c0 == 0)
        else:
            p.check("exactly one reservation of the given rank ends", cnt_of(it, o.attrs["reserved_ranks"], "e") == c0 - z3.If(e.t == r.t, 1, 0))
            p.cover("release")
    p.post()


@unit(UNITS, "RoundRobin.__init__")
def u_init(p):
    seen = []

    class Got(Native):
        pass

    def cyc(it_, a, k):
        seen.append(a[0])
        return Got()

    it = Interp(p, ext={"itertools.cycle": Builtin("cycle", cyc)})
    e = p.int("e")
    p.track("e", e.t)
    W = symlist(it, "workers", EInt)
    it.cnt_facts(W)
    me = p.int("own_rank")
    it.gover[(MPI + "communication", "MPIState")] = Single(State(W, me))
    o = it.call(glob(it, COM, "RoundRobin"), [])
    p.check("one rotation", len(seen) == 1 and isinstance(o.attrs["rank_to_schedule"], Got))
    p.check("no rank is reserved at first", zt(length(it, o.attrs["reserved_ranks"])) == 0)
    l = it.call(PyType("list"), [seen[0]])
    p.check("the rotation runs over the workers except the own rank, each as often as in the worker list", cnt_of(it, l, "e") == z3.If(e.t == me.t, 0, cnt_of(it, W, "e")))
    p.post()


# ---------------------------------------------------------------------------------------------------
PM = "unidist.core.backends.pymp.core.process_manager"


class Workers(Native):
    def __init__(self, n):
        self.n = n

    def len(self, it):
        return zt(zi(self.n))

    def getitem(self, it, i):
        it.p.check("requires: worker index in range", z3.And(0 <= intt(i), intt(i) < zt(zi(self.n))))
        return OneWorker(intt(i))


class OneWorker(Native):
    def __init__(self, i):
        self.i = i

    def m_add_task(self, it, task):
        g = it.ghost.attrs
        g["added"] = mkint(intt(g["added"]) + 1)
        g["last"] = Sym(self.i, "int")
        g["task"] = task


def pm(p):
    it = Interp(p)
    cls = glob(it, PM, "ProcessManager")
    o = new(it, cls)
    n = p.int("num_workers")
    p.assume(n.t >= 1)
    g = symlist(it, "grabbed", EBool)
    p.assume(g.n == n.t)
    o.attrs["workers"], o.attrs["grabbed_workers"] = Workers(n), g
    w = p.int("next_worker")
    p.assume(z3.And(0 <= w.t, w.t < n.t))
    cls.attrs["_worker_id"] = w
    it.ghost.attrs.update(added=0, last=-1, task=None)
    return it, cls, o, n.t, g, w.t


@unit(UNITS, "ProcessManager._next")
def u_next(p):
    it, cls, o, n, g, w = pm(p)
    r = intt(it.call(meth(it, o, "_next"), []))
    w1 = intt(it.getattr(o, "_worker_id"))
    p.check("the current worker is used", r == w)
    p.check("the next one follows, the first after the last", w1 == z3.If(w + 1 == n, 0, w + 1))
    p.post()


@unit(UNITS, "ProcessManager.submit", budget=120)
def u_submit(p):
    it, cls, o, n, g, w = pm(p)
    task = p.u("task")
    g0 = g.arr
    j = z3.Int("j!sm")
    wrap = lambda x: z3.If(x >= n, x - n, x)
    passed = lambda k: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, z3.If(j >= w, j - w, j - w + n) < k), g0[j]), patterns=[g0[j]])
    idx = lambda: intt(it.getattr(o, "_worker_id"))

    def inv(it_, s, k):
        out = [
            ("position", z3.And(idx() == wrap(w + k))),
            ("nothing added", intt(it_.ghost.attrs["added"]) == 0),
            ("skipped are grabbed", passed(k)),
        ]
        for nm, v in locals_int(s):
            out.append((f"{nm} counts rounds", zt(zi(v)) == k))
            out.append((f"{nm} in range", z3.And(0 <= zt(zi(v)), zt(zi(v)) <= n)))
            out.append((f"skipped are grabbed up to {nm}", passed(zt(zi(v)))))
            out.append((f"position by {nm}", idx() == wrap(w + zt(zi(v)))))
        return out

    it.inv.append(inv)
    k, r = call_catch(it, meth(it, o, "submit"), [task])
    gh = it.ghost.attrs
    if k == "exc":
        q = p.int("worker").t
        p.assume(z3.And(0 <= q, q < n))
        i = z3.If(q >= w, q - w, q - w + n)
        p.assume(wrap(w + i) == q)
        p.check("fails only if every worker serves an actor", g0[q])
        p.check("nothing is queued then", intt(gh["added"]) == 0)
        p.check("rejected with RuntimeError", exc_name(r) == "RuntimeError")
        p.cover("full")
    else:
        l = intt(gh["last"])
        p.check("the task is queued exactly once", intt(gh["added"]) == 1)
        p.check("the queued task is the given one", same_value(it, gh["task"], task))
        p.check("on a worker of the pool", z3.And(0 <= l, l < n))
        p.check("not on a worker that serves an actor", z3.Not(g0[l]))
        p.check("the rotation goes on after it", idx() == z3.If(l + 1 == n, 0, l + 1))
        d = z3.If(l >= w, l - w, l - w + n)
        p.check("every worker that was passed over serves an actor", passed(d))
        p.cover("queued")
    p.check("reservations are not changed", same_value(it, o.attrs["grabbed_workers"], ListObj(n=g.n, arr=g0, el=EBool)))
    p.post()


@unit(UNITS, "ProcessManager.grab_worker / free_worker", budget=120)
def u_grab(p):
    it, cls, o, n, g, w = pm(p)
    g0 = g.arr
    c = p.int("any_worker").t
    p.assume(z3.And(0 <= c, c < n))
    if p.choose(2) == 0:
        k, r = call_catch(it, meth(it, o, "grab_worker"), [])
        g1 = o.attrs["grabbed_workers"]
        if k == "exc":
            p.check("fails only if every worker serves an actor", g0[c])
            p.check("rejected with RuntimeError", exc_name(r) == "RuntimeError")
            p.cover("full")
        else:
            wk, i = it.unpack(r, 2)
            i = intt(i)
            p.check("the worker of the index is given", isinstance(wk, OneWorker) and wk.i == i)
            p.check("it was not serving another actor", z3.And(0 <= i, i < n, z3.Not(g0[i])))
            p.check("it is reserved, the others are unchanged", g1.arr[c] == z3.If(c == i, True, g0[c]))
            p.cover("grabbed")
    else:
        i = p.int("index")
        p.assume(z3.And(0 <= i.t, i.t < n))
        it.call(meth(it, o, "free_worker"), [i])
        g1 = o.attrs["grabbed_workers"]
        p.check("exactly the given worker is released", g1.arr[c] == z3.If(c == i.t, False, g0[c]))
        p.cover("freed")
    p.post()
