"""Batches of random programs as cases for rt.Report."""
import gc
import os
import random
import sys
import time

from rt import Bad, Gap, short, tb, tick


def batch(seeds, fn, budget):
    """fn(seed) for each seed until the budget is used up; the first violation ends the batch"""
    t0 = time.time()
    n, samples, skip = 0, [], None
    for s in seeds:
        if time.time() - t0 > budget:
            break
        try:
            tick(s)
            r = fn(s)
        except Gap as e:
            skip = f"not applicable to this tree: {e}"
            break
        n += 1
        if len(samples) < 2 and r is not None:
            samples.append(short(r, 400))
        gc.collect()
    out = {"evaluations": n, "distinct": n, "samples": samples}
    if skip and not n:
        out["skip"] = skip
    return out


def mpi_cases(rep, what="random programs on the simulated MPI cluster", groups=6, quick=25, thorough=400, budget=(45, 420), **kw):
    import prog

    out = []
    for g in range(groups):
        k = thorough if rep.thorough else quick
        seeds = [rep.seed * 100000 + g * 5000 + i for i in range(k)]

        def fn(seeds=seeds):
            def one(s):
                w = prog.mpi_program(s, **kw)
                return {"seed": s, "processes": w.n, "hosts": w.hosts, "steps": w.nsteps, "program": w.driver.trace[:6]}

            return batch(seeds, one, budget[rep.thorough])

        out.append((f"{what} #{g}", fn))
    return out


def init_backend(name, cpus=3):
    os.environ.update({"UNIDIST_BACKEND": name, "UNIDIST_CPUS": str(cpus)})
    if name == "dask":
        import logging

        from distributed import Client

        for n in ("distributed", "distributed.worker", "distributed.scheduler", "distributed.core"):
            logging.getLogger(n).setLevel(logging.CRITICAL)
        Client(processes=False, n_workers=2, threads_per_worker=1, dashboard_address=None)
    import unidist as u

    u.init()
    return u


def inproc_cases(rep, backends=("pyseq", "pymp", "dask"), quick=60, thorough=1500, budget=(30, 240), steps=30, weights=None, **kw):
    out = []
    for b in backends:
        k = (thorough if rep.thorough else quick) * (5 if b == "pyseq" else 1)

        def fn(b=b, k=k):
            import prog

            u = init_backend(b)

            def one(s):
                rng = random.Random(s)
                d = prog.Driver(u, rng, nested=b == "dask", ordered=b != "dask", world=None, wait_put=True, track={"pyseq": True, "dask": "finished", "pymp": False}[b], **kw)
                try:
                    d.run(steps, weights)
                except Bad as e:
                    e.details = dict(getattr(e, "details", {}), backend=b, seed=s)
                    raise
                finally:
                    d.refs.clear()
                    d.actors.clear()
                return {"backend": b, "seed": s, "program": d.trace[:6]}

            return batch([rep.seed * 100000 + i for i in range(k)], one, budget[rep.thorough])

        out.append((f"random programs on {b}", fn))
    return out


def in_root(fn, n=3, env=None, seed=0, hosts=None, **kw):
    """fn(u, world) inside of the root process of a small simulated cluster"""
    import sim

    w = sim.World(n, seed=seed, env=env or {}, hosts=hosts, **kw)
    out = []

    def scen(u, w):
        out.append(fn(u, w))
        w.stopping_ok = True
        u.shutdown()

    w.run(scen)
    return out[0] if out else None


CORE = "unidist.core.backends.mpi.core."


def roles(hosts, shared):
    """(monitors, workers) of a cluster, from the definition: rank 0 is the controller; without shared memory rank 1 is
    the monitor, with it the second process of each host"""
    n = len(hosts)
    if shared:
        mon = [[r for r in range(n) if hosts[r] == h][1] for h in sorted(set(hosts))]
    else:
        mon = [1]
    return mon, [r for r in range(1, n) if r not in mon]


def ops(w, rank=0):
    """operation codes of the cluster under test by name"""
    from rt import need

    op = getattr(w.module(rank, CORE + "common"), "Operation", None)
    if op is None:
        raise Gap("no Operation")
    return {k: getattr(op, k) for k in dir(op) if k.isupper()}


class Message:
    def __init__(self, idx, src, dst, op, nonblocking):
        self.idx, self.src, self.dst, self.op, self.nonblocking, self.parts = idx, src, dst, op, nonblocking, []

    def __repr__(self):
        return f"{self.op} {self.src}->{self.dst} @{self.idx}"


def messages(w, start=0):
    """the operations sent so far, each with the objects and buffers that were sent after it to the same process"""
    import pickle

    names = {int(v): k for k, v in ops(w).items()}
    cur, rep, out = {}, {}, []
    for i in range(start, len(w.log)):
        kind, src, dst, tag, form, data, nb = w.log[i][:7]
        if kind != "send":
            continue
        if tag == 111:
            m = cur[(src, dst)] = Message(i, src, dst, names.get(int(pickle.loads(data)), "?"), nb)
            out.append(m)
        elif tag == 114:
            m = Message(i, src, dst, "REPLY", nb)
            m.parts.append((tag, form, data, nb))
            out.append(m)
            rep[(src, dst)] = m
        elif tag > 114 and (src, dst) in rep:
            rep[(src, dst)].parts.append((tag, form, data, nb))
        elif (src, dst) in cur:
            cur[(src, dst)].parts.append((tag, form, data, nb))
    return out


def payload(w, m):
    """the data of an operation in the form of a simple or complex message"""
    import pickle

    ps = m.parts
    if not ps or ps[0][1] != "obj":
        raise Gap(f"unknown form of the message {m}")
    head = pickle.loads(ps[0][2])
    bufs = [bytes(p[2]) for p in ps[1:] if p[1] == "buf"]

    def take(n):
        # buffers above the block size of the cluster travel in several messages
        out = b""
        while len(out) < n:
            if not bufs:
                raise Gap(f"incomplete message {m}")
            out += bufs.pop(0)
        if len(out) != n:
            raise Gap(f"unknown form of the message {m}")
        return out

    if isinstance(head, int) and bufs:
        return pickle.loads(take(head))
    if isinstance(head, dict) and "s_data_len" in head and bufs:
        deser = w.module(w.cur.rank, CORE + "serialization").deserialize_complex_data
        s_data = take(head["s_data_len"])
        return deser(s_data, [take(k) for k in head["raw_buffers_len"]], head["buffer_count"])
    return head


def pair(x):
    """(owner rank, number) of an identifier in any of its forms"""
    if isinstance(x, (tuple, list)) and len(x) == 2 and all(isinstance(y, int) for y in x):
        return tuple(x)
    if hasattr(x, "_ref"):
        x = x._ref
    if hasattr(x, "owner_rank") and hasattr(x, "data_number"):
        return (x.owner_rank, x.data_number)
    raise Gap(f"unknown form of an identifier: {x!r}")
