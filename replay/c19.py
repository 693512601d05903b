"""C19: actors are created once and all handles address that instance."""
import os
import pickle
import random
import tempfile
from collections import Counter, defaultdict

from rt import *
from cases import CORE, batch, init_backend, messages, pair, payload
import prog
import sim


class Acc:
    def __init__(self, uid, start=0, *, log=None):
        if log:
            with open(log, "a") as f:
                f.write(f"{uid}\n")
        prog.LOG.append(("new", uid))
        self.uid, self.start, self.calls = uid, start, []

    def call(self, k, x=None):
        self.calls.append(k)
        return (self.uid, self.start, k, x)

    def two(self, k):
        self.calls.append(k)
        return [(self.uid, k), (k, self.uid)]

    def fail(self, k):
        self.calls.append(k)
        raise prog.Boom(f"call {k}", k)

    def seen(self):
        return list(self.calls)


def t_use(h, ks):
    """calls through a handle received by a task"""
    import unidist as u

    return u.get([h.call.remote(k) for k in ks])


def t_use_copy(h, k):
    import unidist as u

    h2 = pickle.loads(pickle.dumps(h))
    return u.get([h.call.remote(k), h2.call.remote(k + 1)])


def t_id(x):
    return x


class Model:
    def __init__(self, u, rng, w, workers=None, tasks=True, copies=True, ordered=True, log=None):
        self.u, self.rng, self.w, self.tasks, self.copies, self.ordered, self.log = u, rng, w, tasks, copies, ordered, log
        self.cls = u.remote(Acc)
        self.f = u.remote(t_id)
        self.n, self.actors, self.refs, self.gone, self.trace = 0, [], [], [], []
        self.workers = workers

    def k(self):
        self.n += 1
        return self.n

    def new(self):
        uid, st = f"a{len(self.actors) + len(self.gone)}", self.rng.choice([0, 5, "s", [1, 2]])
        kw = {"log": self.log} if self.log else {}
        self.trace.append(("new", uid))
        if self.workers and len(self.actors) >= len(self.workers):
            k = len(self.w.log)
            try:
                self.cls.remote(uid, st, **kw)
            except Bad:
                raise
            except Exception:
                ensure(not any(m.op == "ACTOR_CREATE" for m in messages(self.w, k)), "an actor that could not be scheduled was created")
                return
            raise Bad("an actor was created although every worker is reserved by another one")
        h = self.cls.remote(uid, start=st, **kw) if self.rng.random() < 0.5 else self.cls.remote(uid, st, **kw)
        self.actors.append({"uid": uid, "st": st, "hs": [h], "calls": []})

    def call(self):
        if not self.actors:
            return
        a = self.rng.choice(self.actors)
        h = self.rng.choice(a["hs"])
        i = a["hs"].index(h)
        m = self.rng.randrange(7)
        k = self.k()
        if m < 3:
            x = self.rng.choice([None, 3, "v", [k], b"b" * 50])
            self.trace.append(("call", a["uid"], i, k))
            r = h.call.remote(k, x) if self.rng.random() < 0.6 else h.call.remote(k, x=x)
            self.refs.append((r, (a["uid"], a["st"], k, x)))
            a["calls"].append(k)
        elif m == 3:
            self.trace.append(("two", a["uid"], i, k))
            rs = h.two.options(num_returns=2).remote(k)
            ensure(isinstance(rs, list) and len(rs) == 2, "num_returns=2 of an actor call does not give two references", got=rs)
            self.refs += [(rs[0], (a["uid"], k)), (rs[1], (k, a["uid"]))]
            a["calls"].append(k)
        elif m == 4:
            self.trace.append(("fail", a["uid"], i, k))
            r = h.fail.remote(k)
            self.refs.append((r, prog.Boom))
            a["calls"].append(k)
        elif m == 5 and self.ordered:
            self.trace.append(("seen", a["uid"], i))
            self.refs.append((h.seen.remote(), list(a["calls"])))
        elif m == 6 and self.tasks and len(self.workers or "abc") - len(self.actors) >= 1:
            self.trace.append(("by a task", a["uid"], i, k))
            self.flush()
            if self.rng.random() < 0.5:
                ks = [k, self.k(), self.k()]
                r = self.u.remote(t_use).remote(h, ks)
                exp = [(a["uid"], a["st"], q, None) for q in ks]
            else:
                ks = [k, self.k()]
                r = self.u.remote(t_use_copy).remote(h, k)
                exp = [(a["uid"], a["st"], q, None) for q in ks]
            self.refs.append((r, exp))
            self.flush()
            a["calls"] += ks

    def copy(self):
        if not self.actors or not self.copies:
            return
        a = self.rng.choice(self.actors)
        h = self.rng.choice(a["hs"])
        self.trace.append(("copy", a["uid"]))
        a["hs"].append(pickle.loads(pickle.dumps(h)))

    def drop(self):
        if not self.actors:
            return
        a = self.rng.choice(self.actors)
        self.flush()
        self.trace.append(("drop", a["uid"], len(a["hs"])))
        a["hs"].pop(self.rng.randrange(len(a["hs"])))
        if not a["hs"]:
            self.actors.remove(a)
            self.gone.append(a)

    def submit(self):
        """ordinary tasks do not go to reserved workers"""
        if self.workers and len(self.actors) >= len(self.workers):
            return
        for _ in range(self.rng.randrange(1, 5)):
            k = self.k()
            self.refs.append((self.f.remote(k), k))

    def flush(self):
        for r, exp in self.refs:
            if exp is prog.Boom:
                try:
                    v = self.u.get(r)
                except prog.Boom as e:
                    e.__traceback__ = None  # it keeps the frames of this harness alive
                    continue
                raise Bad(f"a failed actor call gives a value: {short(v)}")
            v = self.u.get(r)
            ensure(v == exp, "a call through a handle does not give the result of the actor it stands for", got=v, expected=exp, program=self.trace[-12:])
        self.refs.clear()

    def step(self):
        self.rng.choice([self.new, self.call, self.call, self.call, self.call, self.copy, self.drop, self.submit, self.submit, self.flush])()


def audit(m, w):
    """the messages of the whole program"""
    made, users = {}, defaultdict(set)
    for q in messages(w):
        if q.op == "ACTOR_CREATE":
            p = payload(w, q)
            i = pair(p["handler"])
            ensure(i not in made, "an actor is created twice", handler=i, first=made.get(i), second=str(q))
            ensure(q.src == 0, "an actor is created by a process that only has a handle of it", message=str(q))
            made[i] = q.dst
            ensure(q.dst in m.workers, "an actor is created on a process that is not a worker", message=str(q))
        elif q.op == "ACTOR_EXECUTE":
            p = payload(w, q)
            i = pair(p["handler"])
            ensure(i in made, "a call of an actor that was not created", message=str(q), handler=i)
            ensure(made[i] == q.dst, "a call went to another worker than the actor", message=str(q), handler=i, worker=made[i])
    ensure(len(made) == len(m.actors) + len(m.gone), "the number of creation requests is not the number of actors", requests=len(made), actors=len(m.actors) + len(m.gone))
    return made


def reserved_ok(m, w, start):
    """no task submitted since `start` went to a worker that is reserved, given the actors that exist throughout"""
    made = {}
    for q in messages(w):
        if q.op == "ACTOR_CREATE":
            p = payload(w, q)
            made[len(made)] = q.dst
    live = {int(a["uid"][1:]) for a in m.actors}
    busy = {made[i] for i in live if i in made}
    ensure(len(busy) == len(live), "two actors share a worker", workers=sorted(made.items()))
    for q in messages(w, start):
        if q.op == "EXECUTE" and q.src == 0:
            ensure(q.dst not in busy, "a task went to a worker that is reserved for an actor", message=str(q), reserved=sorted(busy))


def one(seed):
    import gc

    rng = random.Random(seed)
    n = rng.randrange(4, 8)
    shared = rng.random() < 0.25
    hosts = None
    w = sim.World(n, seed=seed, hosts=hosts, env=dict(prog.SHARED) if shared else {})

    def scen(u, w):
        workers = list(range(2, n))
        m = Model(u, rng, w, workers)
        for _ in range(30):
            k = len(w.log)
            before = {a["uid"] for a in m.actors}
            m.step()
            gc.collect()
            if {a["uid"] for a in m.actors} == before:
                reserved_ok(m, w, k)
        # all workers that are not reserved take tasks
        m.flush()
        if rng.random() < 0.5:
            while m.actors:
                m.actors[-1]["hs"].clear()
                m.gone.append(m.actors.pop())
                gc.collect()
        if len(m.actors) < len(workers):
            k = len(w.log)
            for j in range(2 * n):
                m.submit()
            m.flush()
            reserved_ok(m, w, k)
            got = {q.dst for q in messages(w, k) if q.op == "EXECUTE"}
            ensure(len(got) == len(workers) - len(m.actors), "workers were not released after the last handle of their actor disappeared (or are used while reserved)", used=sorted(got), workers=workers, actors=len(m.actors))
        for a in m.actors:
            s = u.get(a["hs"][0].seen.remote())
            ensure(sorted(s) == sorted(a["calls"]), "an actor did not get exactly the calls of its handles", actor=a["uid"], got=s, expected=a["calls"])
        w.settle()
        audit(m, w)
        news = Counter(e[1] for e in prog.LOG if e[0] == "new")
        ensure(all(v == 1 for v in news.values()) and len(news) == len(m.actors) + len(m.gone), "an actor was not constructed exactly once", constructed=dict(news))
        m.actors.clear()
        gc.collect()
        w.stopping_ok = True
        u.shutdown()

    prog.LOG.clear()
    w.run(scen)
    return {"seed": seed, "processes": n}


def inproc(backend, seeds, budget):
    u = init_backend(backend)

    def one(s):
        rng = random.Random(s)
        fd, log = tempfile.mkstemp()
        os.close(fd)
        try:
            m = Model(u, rng, None, tasks=backend == "dask" and False, copies=backend == "dask", ordered=backend != "dask", log=log)
            for _ in range(25):
                if len(m.actors) >= 1 and backend != "pyseq":
                    m.rng.choice([m.call, m.call, m.copy, m.submit, m.flush])()
                else:
                    m.step()
            m.flush()
            for a in m.actors:
                s_ = u.get(a["hs"][-1].seen.remote())
                ensure(sorted(s_) == sorted(a["calls"]) if not m.ordered else s_ == a["calls"], "an actor did not get exactly the calls of its handles", got=s_, expected=a["calls"])
            got = Counter(open(log).read().split())
            exp = Counter([a["uid"] for a in m.actors + m.gone])
            ensure(got == exp, "an actor was not constructed exactly once", constructed=dict(got), actors=dict(exp))
            return {"backend": backend, "program": m.trace[:5]}
        finally:
            os.unlink(log)

    return batch(seeds, one, budget)


if __name__ == "__main__":
    rep = Report("C19")
    rep.seed += 1900
    k = 400 if rep.thorough else 18
    b = 420 if rep.thorough else 35
    cs = [(f"MPI programs #{g}", lambda g=g: batch([rep.seed * 1000 + g * 5000 + i for i in range(k)], one, b)) for g in range(5)]
    for be in ("pyseq", "pymp", "dask"):
        cs.append((f"programs on {be}", lambda be=be: inproc(be, [rep.seed * 1000 + i for i in range(k)], b)))
    rep.run(cs, procs=8, rule="random histories of actor creation, calls through any handle, copies of handles by serialization, calls by tasks, deletion; distinct seeds")
