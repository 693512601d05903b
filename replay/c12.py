"""C12: dropped objects are removed everywhere, and only those."""
import gc
import random

from rt import *
from cases import CORE, Message, batch, in_root, messages, mpi_cases, pair, payload, roles
import prog

W = {"put": 6, "echo": 6, "multi": 3, "none": 1, "fail": 1, "get": 3, "get_list": 2, "drop": 9, "settle": 2, "wait": 1, "async": 1, "actor_new": 1, "actor_call": 2}


class Refs(list):
    """remembers the identifier of every reference that was ever held"""

    def __init__(self, ever):
        self.ever = ever

    def append(self, x):
        self.ever.append(pair(x.ref))
        list.append(self, x)


class Clock:
    def __init__(self):
        self.t = 10.0

    def perf_counter(self):
        self.t += 3
        return self.t

    def __getattr__(self, n):
        import time

        return getattr(time, n)


def held(w):
    """{rank: identifiers whose value or location a process keeps}"""
    out = {}
    for r in range(w.n):
        st = w.module(r, CORE + "local_object_store").LocalObjectStore
        st = getattr(st, "_LocalObjectStore__instance", None)
        if st is None:
            continue
        out[r] = {pair(k) for m in ("_data_map", "_data_owner_map") for k in list(getattr(st, m))}
    return out


def strong(w, r):
    """identifiers that the store of a process itself keeps alive (the stack of its loop may refer to some a little longer)"""
    st = getattr(w.module(r, CORE + "local_object_store").LocalObjectStore, "_LocalObjectStore__instance", None)
    out = set()
    for v in vars(st).values() if st is not None else ():
        if isinstance(v, (dict, set, list)):
            out |= {pair(k) for k in v if hasattr(k, "owner_rank")}
    return out


def forget_tracebacks(w):
    """sets the known finding C12-traceback aside: a stored exception that was raised by get refers, by its traceback, to identifiers"""
    st = getattr(w.module(0, CORE + "local_object_store").LocalObjectStore, "_LocalObjectStore__instance", None)
    for e in list(st._data_map.values()):
        while isinstance(e, BaseException):
            e.__traceback__ = None
            e = e.__context__ or e.__cause__


class Audit:
    def __init__(self, rng, shared):
        self.rng, self.ever, self.before, self.cleaned, self.pos, self.cleanups, self.shared = rng, [], {}, {}, 0, [], shared

    def start(self, u, w, d):
        g = w.module(0, CORE + "controller.garbage_collector")
        if hasattr(g, "time"):
            g.time = Clock()
        d.refs = Refs(self.ever)
        rec = w.record
        cleanup = int(getattr(w.module(0, CORE + "common").Operation, "CLEANUP"))

        def record(kind, src, dst, tag, form, data, nb):
            rec(kind, src, dst, tag, form, data, nb)
            if kind == "send" and src == 0 and tag in (111, 112) and d.refs and self.in_cleanup(w, data, tag, cleanup) and self.rng.random() < 0.5:
                # a reference disappears while the cleanup is being sent (as a collection of cycles does at any time)
                d.refs.pop(self.rng.randrange(len(d.refs)))

        w.record = record

    def in_cleanup(self, w, data, tag, cleanup):
        import pickle

        if tag == 111:
            self.last = int(pickle.loads(data)) == cleanup
        return getattr(self, "last", False)

    def look(self, u, w, d, final=False):
        mon, workers = roles(w.hosts, self.shared)
        ms = messages(w)
        self.cleanups = []
        subm = done = 0
        groups = {}
        for m in ms:
            if m.op in ("EXECUTE", "ACTOR_EXECUTE") and m.src == 0:
                subm += 1
            elif m.op == "TASK_DONE":
                done += 1
            elif m.op == "CLEANUP":
                ids = tuple(sorted(pair(x) for x in payload(w, m)))
                if (m.src, ids) not in groups:
                    ensure(subm == done, "a cleanup is sent although the number of executed tasks differs from the number of submitted ones", submitted=subm, executed=done, identifiers=ids[:5])
                groups.setdefault((m.src, ids), []).append(m.dst)
        seen = {}
        for (src, ids), dsts in groups.items():
            exp = sorted(x for x in workers + mon if x != src)
            ensure(sorted(dsts) == exp, "a cleanup is not sent exactly once to every worker and monitor", sent_to=sorted(dsts), expected=exp, ids=ids[:5])
            ensure(len(set(ids)) == len(ids), "an identifier is listed twice in a cleanup", ids=ids)
            for x in ids:
                ensure(x not in seen, "an identifier is sent in two cleanups", id=x)
                seen[x] = ids
        live = {pair(x.ref) for x in d.refs}
        ensure(not live & set(seen), "an identifier that is still referenced is cleaned up", ids=sorted(live & set(seen))[:5])
        now = held(w)
        for r, b in self.before.items():
            lost = b - now.get(r, set()) - set(seen)
            # the root process drops by itself what it has no reference to
            if r != 0:
                ensure(not lost, "a process lost an object that was not listed in a cleanup", rank=r, ids=sorted(lost)[:5])
        if final:
            for r in workers:
                left = strong(w, r) & set(seen)
                ensure(not left, "a process still keeps an object that was listed in a cleanup", rank=r, ids=sorted(left)[:5])
        self.before = now
        self.seen = seen
        return seen

    def finish(self, u, w, d, keep=False):
        """everything dropped so far is cleaned up by later calls"""
        self.at_rest(u, w, d)
        d.refs.clear()
        d.actors.clear()
        f = u.remote(prog.t_echo)
        w.settle()
        if not keep:
            forget_tracebacks(w)
        gc.collect()
        todo = set(self.ever)
        for k in range(60):
            for _ in range(6):
                u.put(k)
            u.get(f.remote(("x", k)))
            w.settle()
            gc.collect()
            if k % 5 == 4:
                seen = self.look(u, w, d, final=True)
                if todo <= set(seen):
                    return
        ensure(False, "dropped identifiers are never cleaned up", missing=sorted(todo - set(self.seen))[:8], sent=len(self.seen))

    def at_rest(self, u, w, d):
        gc.collect()
        w.settle()
        self.look(u, w, d)


def one(seed):
    rng = random.Random(seed)
    shared = rng.random() < 0.3
    a = Audit(rng, shared)
    w = prog.mpi_program(seed, steps=45, shared=shared, weights=W, before=a.start, at_rest=[a.at_rest], extra=a.finish, async_tasks=True)
    return {"seed": seed, "hosts": w.hosts, "cleaned": len(a.seen)}


def t_submit(k):
    import unidist as u

    f = u.remote(prog.t_echo)
    return u.get([f.remote(("n", i)) for i in range(k)])


def nested(seed):
    """known finding: a task that submits tasks"""

    def body(u, w):
        a = Audit(random.Random(seed), False)

        class D:
            refs, actors = [], []

        d = D()
        a.start(u, w, d)
        f = u.remote(t_submit)
        for k in range(3):
            d.refs.append(type("X", (), {"ref": f.remote(2)})())
            u.get(d.refs[-1].ref)
        a.finish(u, w, d)

    in_root(body, n=5, seed=seed)


def raised(seed):
    """known finding: the references of a failed task whose exception was raised by get"""

    def body(u, w):
        a = Audit(random.Random(seed), False)

        class D:
            refs, actors = [], []

        d = D()
        a.start(u, w, d)
        f = u.remote(t_fail)
        for k in range(3):
            d.refs.append(type("X", (), {"ref": f.remote()})())
            try:
                u.get(d.refs[-1].ref)
            except ValueError:
                pass
        a.finish(u, w, d, keep=True)

    in_root(body, n=5, seed=seed)


def t_fail():
    raise ValueError("x")


if __name__ == "__main__":
    rep = Report("C12")
    rep.seed += 1200
    k = 400 if rep.thorough else 18
    b = 420 if rep.thorough else 40

    def known():
        M = Multi()
        tick("nested")
        M.one("tasks that submit tasks", nested, rep.seed, finding="C12-nested")
        tick("traceback")
        M.one("failures raised by get", raised, rep.seed, finding="C12-traceback")
        return M.result()

    cs = [(f"random programs #{g}", lambda g=g: batch([rep.seed * 1000 + g * 5000 + i for i in range(k)], one, b)) for g in range(6)]
    cs.append(("submission from tasks", known))
    rep.run(cs, procs=8, rule="random programs that drop references, also in the middle of sending a cleanup; every operation on the wire and every store is audited at rest; distinct seeds")
