"""C13: tasks on a worker."""
import random
from collections import Counter

from rt import *
from cases import CORE, batch, in_root, messages, pair, payload, roles
import prog

W = {"put": 3, "echo": 8, "multi": 5, "none": 3, "one_after_zero": 1, "fail": 3, "get": 2, "get_list": 1, "drop": 1, "settle": 1, "wait": 2, "async": 3, "slow": 3, "actor_new": 1, "actor_call": 4}


def ids_of(x):
    if x is None:
        return ()
    if isinstance(x, (list, tuple)) and not (len(x) == 2 and all(isinstance(y, int) for y in x)):
        return tuple(pair(y) for y in x)
    return (pair(x),)


class Audit:
    def __init__(self, shared):
        self.shared = shared

    def rest(self, u, w, d):
        import sim

        for _ in range(100):
            # asynchronous tasks sleep in real time
            w.settle()
            ms = [m.op for m in messages(w)]
            if sum(o in ("EXECUTE", "ACTOR_EXECUTE") for o in ms) <= ms.count("TASK_DONE"):
                break
            sim._real_sleep(0.005)
        mon, workers = roles(w.hosts, self.shared)
        root_monitor = next(m for m in mon if w.hosts[m] == w.hosts[0]) if self.shared else mon[0]
        got, done, gets, n = {r: Counter() for r in workers}, {r: Counter() for r in workers}, Counter(), 0
        for m in messages(w):
            if m.op in ("EXECUTE", "ACTOR_EXECUTE"):
                got[m.dst][tuple(sorted(ids_of(payload(w, m)["output"])))] += 1
                n += 1
            elif m.op == "TASK_DONE":
                ensure(m.dst == root_monitor, "a completed task is not reported to the root monitor", sent_to=m.dst, monitor=root_monitor)
                done[m.src][tuple(sorted(ids_of(payload(w, m) or None)))] += 1
            elif m.op == "GET":
                q = payload(w, m)
                if not q["is_blocking_op"]:
                    ensure(q["source"] == m.src, "a request does not name the process that asks", message=str(m), names=q["source"])
                    gets[(m.src, m.dst, pair(q["id"]))] += 1
        for r in workers:
            more, less = done[r] - got[r], got[r] - done[r]
            ensure(not more, "a completion was reported that belongs to no received task, or twice", worker=r, references=[list(k) for k in more][:3])
            ensure(not less, "a received task was not reported as completed", worker=r, references=[list(k) for k in less][:3])
        twice = [k for k, v in gets.items() if v > 1]
        ensure(not twice, "a worker asked the same owner for the same dependency more than once", requests=twice[:3])
        self.n = n


def one(seed):
    rng = random.Random(seed)
    shared = rng.random() < 0.3
    a = Audit(shared)
    w = prog.mpi_program(seed, steps=45, shared=shared, weights=W, extra=a.rest, at_rest=[a.rest], async_tasks=True)
    return {"seed": seed, "hosts": w.hosts, "tasks": a.n}


def chain(seed):
    """chains of tasks of which each waits for the one before, on few workers, with the first one slow"""
    rng = random.Random(seed)

    def body(u, w):
        f, s = u.remote(prog.t_echo), u.remote(t_wait)
        a = Audit(False)
        k = rng.randrange(2, 7)
        rs = [s.remote()]
        exp = ["w"]
        for i in range(k):
            dep = rng.sample(range(len(rs)), rng.randrange(1, min(3, len(rs)) + 1))
            rs.append(f.remote((i, [rs[j] for j in dep])))
        vals = u.get(rs)
        ensure(len(vals) == k + 1, "get lost a value")
        a.rest(u, w, None)
        return {"seed": seed, "tasks": a.n}

    return in_root(body, n=rng.choice([3, 4, 5]), seed=seed)


def t_wait():
    prog.pause(0.01)
    return "w"


if __name__ == "__main__":
    rep = Report("C13")
    rep.seed += 1300
    k = 400 if rep.thorough else 20
    b = 420 if rep.thorough else 40
    cs = [(f"random programs #{g}", lambda g=g: batch([rep.seed * 1000 + g * 5000 + i for i in range(k)], one, b)) for g in range(6)]
    cs += [(f"chains #{g}", lambda g=g: batch([rep.seed * 1000 + g * 5000 + i for i in range(2 * k)], chain, b)) for g in range(2)]
    rep.run(cs, procs=8, rule="random programs with dependent, slow, failing and asynchronous tasks; all messages and executions audited at rest; distinct seeds")
