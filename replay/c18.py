"""C18: roles of the processes and shutdown."""
import os
import random
from collections import Counter

from rt import *
from cases import CORE, batch, in_root, messages, ops, payload, roles
import prog

W = {"put": 2, "echo": 5, "multi": 2, "none": 2, "slow": 3, "get": 2, "actor_new": 1, "actor_call": 2, "drop": 1, "wait": 1}


def layout(rng, shared):
    n = rng.randrange(3, 9)
    if shared:
        h = rng.randrange(1, max(2, n // 2))
        hosts = [x for x in range(h) for _ in range(2)][:n]
        hosts += [rng.randrange(h) for _ in range(n - len(hosts))]
        if h == 1 and n < 3:
            hosts = [0, 0, 0]
        rest = hosts[:]
        rest.remove(0)
        rng.shuffle(rest)
        hosts = [0] + rest
    else:
        h = rng.randrange(1, 4)
        hosts = [0] + [rng.randrange(h) for _ in range(n - 1)]
    return hosts


def check_roles(u, w, shared):
    mon, workers = roles(w.hosts, shared)
    names = {}
    for r in range(w.n):
        S = getattr(w.module(r, CORE + "communication").MPIState, "_MPIState__instance", None)
        if S is None:
            raise Gap("MPIState")
        names[r] = S.host
        is_ = {"controller": S.is_root_process(), "monitor": S.is_monitor_process(), "worker": r in S.workers}
        ensure(sum(is_.values()) == 1, "a process has not exactly one role", rank=r, roles=is_, hosts=w.hosts)
        want = "controller" if r == 0 else "monitor" if r in mon else "worker"
        ensure(is_[want], "a process has another role than the topology gives it", rank=r, roles=is_, expected=want, hosts=w.hosts)
        ensure(sorted(S.workers) == workers and len(S.workers) == len(workers), "the list of workers is wrong", rank=r, got=list(S.workers), expected=workers, hosts=w.hosts)
        ensure(sorted(S.monitor_processes) == sorted(mon), "the list of monitors is wrong", rank=r, got=list(S.monitor_processes), expected=mon, hosts=w.hosts)
        for q in range(w.n):
            ensure((S.is_root_process(q), S.is_monitor_process(q)) == (q == 0, q in mon), "processes disagree about roles", rank=r, about=q)
            m = S.get_monitor_by_worker_rank(q)
            ensure(m == (next(x for x in mon if w.hosts[x] == w.hosts[q]) if shared else mon[0]), "a process gets the monitor of another host", rank=r, about=q, got=m, hosts=w.hosts)
    res = u.cluster_resources()
    exp = {names[next(r for r in range(w.n) if w.hosts[r] == h)]: {"CPU": sum(w.hosts[r] == h for r in workers)} for h in set(w.hosts)}
    ensure({k: dict(v) for k, v in res.items()} == exp, "cluster_resources is not the number of workers per host", got=res, expected=exp, hosts=w.hosts)


def check_shutdown(w, shared):
    import pickle

    mon, workers = roles(w.hosts, shared)
    rm = next(x for x in mon if w.hosts[x] == 0) if shared else mon[0]
    code = {int(v): k for k, v in ops(w).items()}
    cancel, ready, down, last_ready, root = Counter(), Counter(), Counter(), -1, 0
    got_cancel = {}
    for i, e in enumerate(w.log):
        kind, src, dst, tag, form, data = e[:6]
        if tag == 111:
            op = code.get(int(pickle.loads(data)))
        elif tag == 112 and kind == "send" and dst == 0 and src == rm and form == "obj":
            v = pickle.loads(data)
            root += v is not None and isinstance(v, int) and not isinstance(v, bool) and code.get(int(v)) == "SHUTDOWN" and i > last_ready >= 0
            continue
        else:
            continue
        if kind == "send":
            if op == "CANCEL":
                ensure(src == 0, "a cancel is not sent by the controller", src=src)
                cancel[dst] += 1
            elif op == "READY_TO_SHUTDOWN":
                ensure(dst == rm, "a worker reports to another process than the root monitor", src=src, dst=dst)
                ready[src] += 1
            elif op == "SHUTDOWN":
                ensure(src == rm, "a shutdown is not sent by the root monitor", src=src)
                ensure(seen_ready(w, i, rm, code) == set(workers), "the monitor ends the cluster before all workers are ready", ready=sorted(seen_ready(w, i, rm, code)), workers=workers)
                down[dst] += 1
            elif op == "TASK_DONE":
                ensure(src not in got_cancel, "a worker executed a task after it was cancelled", worker=src)
        elif kind == "recv":
            if op == "CANCEL":
                got_cancel[dst] = i
            elif op == "READY_TO_SHUTDOWN":
                last_ready = i
    ensure(cancel == Counter(workers), "not exactly one cancel is sent to each worker", sent=dict(cancel), workers=workers)
    ensure(ready == Counter(workers), "not every worker reports once that it is ready", sent=dict(ready), workers=workers)
    ensure(down == Counter([x for x in workers + mon if x != rm]), "not every other process is notified exactly once of the shutdown", sent=dict(down), workers=workers, monitors=mon)
    ensure(root == 1, "the controller is not notified exactly once of the shutdown", times=root)


def seen_ready(w, i, rm, code):
    import pickle

    return {e[1] for e in w.log[:i] if e[0] == "recv" and e[2] == rm and e[3] == 111 and code.get(int(pickle.loads(e[5]))) == "READY_TO_SHUTDOWN"}


def one(seed):
    rng = random.Random(seed)
    shared = rng.random() < 0.5
    hosts = layout(rng, shared)

    def before(u, w, d):
        check_roles(u, w, shared)

    def after(u, w, d):
        k = len(w.log)
        for _ in range(rng.randrange(1, 4)):
            u.shutdown()
        w.settle()
        ensure(len(w.log) == k, "a second shutdown sends messages", messages=w.log[k : k + 3])
        check_shutdown(w, shared)

    w = prog.mpi_program(seed, steps=rng.choice([0, 3, 12, 25]), n=len(hosts), hosts=hosts, shared=shared, weights=W, before=before, after=after, async_tasks=False)
    return {"seed": seed, "hosts": hosts, "shared": shared}


def t_long(k, *a):
    prog.LOG.append(("long", k))
    for _ in range(k):
        prog.pause(0.01)
    return k


def busy(seed):
    """shutdown while tasks are running, queued and pending"""
    rng = random.Random(seed)
    shared = rng.random() < 0.3
    hosts = layout(rng, shared)
    import sim

    w = sim.World(len(hosts), seed=seed, hosts=hosts, env=dict(prog.SHARED) if shared else {})

    def scen(u, w):
        f = u.remote(t_long)
        rs = []
        for _ in range(rng.randrange(1, 12)):
            a = [rng.choice(rs)] if rs and rng.random() < 0.6 else []
            rs.append(f.remote(rng.randrange(4), *a))
        if rng.random() < 0.3:
            u.wait(rs, num_returns=1)
        w.stopping_ok = True
        u.shutdown()
        w.settle()
        k = len(w.log)
        u.shutdown()
        ensure(len(w.log) == k, "a second shutdown sends messages")
        check_shutdown(w, shared)
        ensure(sorted(w.finalized) == list(range(w.n)), "after shutdown not every process has ended once", ended=sorted(w.finalized), processes=w.n)

    w.run(scen)
    return {"seed": seed, "hosts": hosts, "shared": shared}


if __name__ == "__main__":
    rep = Report("C18")
    rep.seed += 1800
    k = 400 if rep.thorough else 18
    b = 420 if rep.thorough else 35
    cs = [(f"programs #{g}", lambda g=g: batch([rep.seed * 1000 + g * 5000 + i for i in range(k)], one, b)) for g in range(5)]
    cs += [(f"busy clusters #{g}", lambda g=g: batch([rep.seed * 1000 + g * 5000 + i for i in range(k)], busy, b)) for g in range(3)]
    rep.run(cs, procs=8, rule="random distributions of 3 to 8 processes over hosts, with and without shared memory; roles seen by every process, all messages of the shutdown; distinct seeds")
