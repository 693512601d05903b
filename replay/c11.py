"""C11: where tasks and actors go."""
import gc
import os
import random

from rt import *
from cases import CORE, batch, in_root, init_backend, roles
import prog
import sim


def rr_history(u, w, rng, workers, steps=250):
    """the scheduler of the root process under arbitrary reservations"""
    rr = need(CORE + "controller.common", "RoundRobin").get_instance()
    res, hist = [], []
    since = {x: 0 for x in workers}
    run = []
    for _ in range(steps):
        k = rng.random()
        free = [x for x in workers if x not in res]
        if k < 0.12 and free:
            x = rng.choice(free)
            rr.reserve_rank(x)
            res.append(x)
            run, since[x] = [], 0
        elif k < 0.2 and res:
            x = res.pop(rng.randrange(len(res)))
            rr.release_rank(x)
            run, since[x] = [], 0
        else:
            try:
                r = rr.schedule_rank()
            except Exception as e:
                ensure(not free, "an error is raised although a worker is free", error=e, reserved=res, workers=workers)
                hist.append("error")
                continue
            ensure(free, "a task is scheduled although every worker is reserved", rank=r, reserved=res)
            ensure(r in workers, "a process that is not a worker is chosen", rank=r, workers=workers)
            ensure(r not in res, "a reserved worker is chosen", rank=r, reserved=res)
            hist.append(r)
            run.append(r)
            m = len(free)
            ensure(sorted(run[-m:]) == sorted(free) if len(run) >= m else len(set(run)) == len(run), "consecutive submissions do not visit the eligible workers in rotation", schedule=run[-2 * m :], eligible=free)
            for x in free:
                since[x] = 0 if x == r else since[x] + 1
                ensure(since[x] < 3 * len(workers), "an eligible worker is starved", rank=x)
    for x in res:
        rr.release_rank(x)


class Keeper:
    def __init__(self, uid):
        self.uid = uid

    def who(self):
        return prog.here()


def t_where():
    return prog.here()


def t_inner(k):
    """submits tasks from a worker"""
    import unidist as u

    f = u.remote(t_where)
    return prog.here(), u.get([f.remote() for _ in range(k)])


def program(u, w, rng, workers, steps=30):
    f, A = u.remote(t_where), u.remote(Keeper)
    actors = []  # (handle, rank)
    tr = []
    ref = []
    run, free = [], list(workers)
    for _ in range(steps):
        k = rng.random()
        if k < 0.2:
            try:
                a = A.remote(1)
            except Exception as e:
                ensure(len(actors) == len(workers), "an actor is refused although a worker is free", error=e, trace=tr)
                tr.append("no room for an actor")
                continue
            ensure(len(actors) < len(workers), "two live actors share a worker", trace=tr)
            r = u.get(a.who.remote())
            ensure(r in workers and r not in [x for _, x in actors], "an actor is put on a worker of another actor or no worker", rank=r, actors=[x for _, x in actors])
            actors.append((a, r))
            tr.append(("actor", r))
            a = None
            run = []
        elif k < 0.32 and actors:
            i = rng.randrange(len(actors))
            r = actors.pop(i)[1]
            gc.collect()
            tr.append(("drop actor of", r))
            run = []
        elif k < 0.42 and actors:
            a, r = rng.choice(actors)
            ensure(u.get(a.who.remote()) == r, "a method call went to another worker", expected=r)
            a = None
        else:
            free = [x for x in workers if x not in [r for _, r in actors]]
            try:
                r = u.get(f.remote())
            except Exception as e:
                ensure(not free, "a task is refused although a worker is free", error=e, trace=tr)
                tr.append("no worker")
                continue
            ensure(free, "a task is accepted although every worker is reserved", trace=tr)
            ensure(r in free, "a task is put on a process that is reserved or no worker", rank=r, eligible=free, trace=tr)
            run.append(r)
            tr.append(r)
            m = len(free)
            ensure(sorted(run[-m:]) == sorted(free) if len(run) >= m else len(set(run)) == len(run), "consecutive submissions do not visit the eligible workers in rotation", schedule=run[-2 * m :], eligible=free, trace=tr)
    actors.clear()
    gc.collect()


def nested(u, w, rng, workers):
    """submissions of a worker go to other workers only, in rotation"""
    if len(workers) < 2:
        return
    g = u.remote(t_inner)
    for _ in range(3):
        k = rng.choice([1, 2, 4])
        me, ran = u.get(g.remote(k))
        ensure(me in workers, "a task runs on no worker", rank=me)
        ensure(me not in ran and set(ran) <= set(workers), "a worker schedules on itself or on no worker", submitter=me, chosen=ran, workers=workers)
        m = len(workers) - 1
        ensure(all(len(set(ran[i : i + m])) == len(ran[i : i + m]) for i in range(len(ran))), "submissions of a worker are not in rotation", chosen=ran)


def mpi(seed):
    rng = random.Random(seed)
    n = rng.choice([3, 4, 5, 6, 7])
    shared = n >= 4 and rng.random() < 0.4
    hosts = [0] * n
    if n >= 5 and rng.random() < 0.6:
        hosts = [0, 0] + [rng.choice([0, 1]) for _ in range(n - 4)] + [1, 1]
        if rng.random() < 0.5:
            t = hosts[1:]
            rng.shuffle(t)
            hosts = [0] + t
    if any(hosts.count(h) < 2 for h in hosts):
        shared = False
    mon, workers = roles(hosts, shared)
    kind = rng.randrange(3)
    fn = [rr_history, program, nested][kind]
    in_root(lambda u, w: fn(u, w, rng, workers), n=n, hosts=hosts, env=dict(prog.SHARED) if shared else {}, seed=seed)
    return {"kind": fn.__name__, "seed": seed, "hosts": hosts, "shared": shared, "workers": workers}


def pm_history(seed):
    """the scheduler of the multiprocessing backend with recording workers"""
    pm = need("unidist.core.backends.pymp.core.process_manager")
    rng = random.Random(seed)
    n = rng.choice([1, 2, 3, 5])

    class W:
        def __init__(self, q, store):
            self.tasks = []

        def start(self):
            pass

        def add_task(self, t):
            self.tasks.append(t)

    old = pm.Worker, pm.JoinableQueue, pm.ObjectStore.get_instance
    pm.Worker, pm.JoinableQueue = W, lambda: None
    pm.ObjectStore.get_instance = classmethod(lambda cls: None)
    try:
        pm.ProcessManager._ProcessManager__instance = None
        m = pm.ProcessManager(num_workers=n)
    finally:
        pm.Worker, pm.JoinableQueue = old[0], old[1]
        pm.ObjectStore.get_instance = old[2]
    res, run = [], []
    for t in range(150):
        k = rng.random()
        free = [i for i in range(n) if i not in res]
        if k < 0.15:
            try:
                wk, i = m.grab_worker()
            except RuntimeError:
                ensure(not free, "no worker is given to an actor although one is free", reserved=res)
                continue
            ensure(i in free, "a worker is reserved for two actors", index=i, reserved=res)
            ensure(wk is m.workers[i], "the worker and its index do not belong together")
            res.append(i)
            run = []
        elif k < 0.28 and res:
            i = res.pop(rng.randrange(len(res)))
            m.free_worker(i)
            run = []
        else:
            b = [len(x.tasks) for x in m.workers]
            try:
                m.submit(t)
            except RuntimeError:
                ensure(not free, "a task is refused although a worker is free", reserved=res)
                ensure(b == [len(x.tasks) for x in m.workers], "a refused task was queued")
                continue
            a = [len(x.tasks) for x in m.workers]
            d = [i for i in range(n) if a[i] != b[i]]
            ensure(len(d) == 1 and a[d[0]] == b[d[0]] + 1 and m.workers[d[0]].tasks[-1] == t, "a task is not queued exactly once", before=b, after=a)
            ensure(d[0] in free, "a task is queued on a reserved worker", index=d[0], reserved=res)
            run.append(d[0])
            c = len(free)
            ensure(sorted(run[-c:]) == free if len(run) >= c else len(set(run)) == len(run), "consecutive submissions do not visit the eligible workers in rotation", schedule=run[-2 * c :], eligible=free)
    return {"workers": n, "seed": seed}


def t_pid():
    return os.getpid()


class PKeeper:
    def pid(self):
        return 5


def pymp(rep):
    u = init_backend("pymp", 3)
    rng = random.Random(rep.seed)
    f, A = u.remote(t_pid), u.remote(PKeeper)
    all_ = set()
    for _ in range(3):
        tick("pymp")
        p = u.get([f.remote() for _ in range(3)])
        ensure(len(set(p)) == 3, "three submissions do not go to three workers", pids=p)
        all_ |= set(p)
    ensure(len(all_) == 3, "more workers than configured")
    n = 0
    for _ in range(8 if not rep.thorough else 40):
        tick("pymp round")
        k = rng.randrange(1, 4)
        acts = [A.remote() for _ in range(k)]
        if k < 3:
            ps = u.get([f.remote() for _ in range(6)])
            ensure(len(set(ps)) == 3 - k, "tasks are not spread over exactly the workers that are not reserved", pids=ps, actors=k)
        else:
            try:
                f.remote()
                raise Bad("a task is accepted although every worker is reserved")
            except RuntimeError:
                pass
            try:
                A.remote()
                raise Bad("an actor is accepted although every worker is reserved")
            except RuntimeError:
                pass
        u.get([a.pid.remote() for a in acts])
        del acts
        gc.collect()
        ps = u.get([f.remote() for _ in range(3)])
        ensure(len(set(ps)) == 3, "released workers do not become eligible again", pids=ps)
        n += 1
    return n, n, [("actors", k)]


if __name__ == "__main__":
    rep = Report("C11")
    b = 200 if rep.thorough else 16
    g = 1500 if rep.thorough else 40
    cs = [(f"clusters #{i}", lambda i=i: batch([rep.seed * 10**5 + i * 4000 + j for j in range(g)], mpi, b)) for i in range(5)]
    cs.append(("process manager", lambda: batch([rep.seed * 1000 + j for j in range(4000 if rep.thorough else 400)], pm_history, b)))
    cs.append(("multiprocessing", lambda: pymp(rep)))
    rep.run(cs, procs=8, rule="random cluster shapes (3..7 processes, one or two hosts, with and without shared memory), random interleavings of submissions, actor creations and releases; the rank of each execution is observed; distinct seeds")
