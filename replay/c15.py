"""C15: framing of messages."""
import inspect
import pickle
import random
import weakref

from rt import *
from cases import CORE, batch, in_root, mpi_cases
import prog
import sim


def call(f, *a, **k):
    try:
        inspect.signature(f).bind(*a, **k)
    except TypeError as e:
        raise Gap(f"{f.__name__}: {e}")
    return f(*a, **k)


class Req:
    """a non-blocking send: the buffer is read when the message is received"""

    def __init__(self):
        self.done = self.waited = False

    def Test(self, status=None):
        return self.done

    def Wait(self, status=None):
        self.done = self.waited = True
        return True

    def test(self, status=None):
        return (self.done, None)

    wait = Wait


class Wire:
    """the channel between two processes; each receive must find what was sent for it"""

    def __init__(self, rng):
        self.q, self.rng, self.reqs = [], rng, []

    def send(self, obj, dest, tag=0):
        self.q.append(["obj", dest, int(tag), pickle.dumps(obj, 5), None])

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        self.q[-1][4] = r = Req()
        self.reqs.append(r)
        return r

    def Send(self, buf, dest, tag=0):
        self.q.append(["buf", dest, int(tag), bytes(sim.raw(buf)), None])

    def Isend(self, buf, dest, tag=0):
        self.q.append(["buf", dest, int(tag), sim.raw(buf), None])
        self.q[-1][4] = r = Req()
        r.buf = buf  # as the request of mpi4py does
        self.reqs.append(r)
        return r

    def take(self, kind, tag):
        for i, m in enumerate(self.q):
            if m[2] == int(tag):
                ensure(m[0] == kind, "a message of another kind is next", expected=kind, got=m[0], tag=int(tag))
                del self.q[i]
                if m[4] is not None:
                    m[4].done = True
                return bytes(m[3])
        ensure(False, "a message is received that was not sent", kind=kind, tag=int(tag), queue=[(m[0], m[2]) for m in self.q][:6])

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        self.at(status, tag)
        return pickle.loads(self.take("obj", tag))

    def Recv(self, buf, source=-1, tag=-1, status=None):
        b = sim.raw(buf)
        d = self.take("buf", tag)
        ensure(len(b) == len(d), "the receiver reads a buffer of another size than was sent", expected=len(b), sent=len(d), tag=int(tag))
        b[:] = d

    def at(self, status, tag):
        if status is not None:
            status.source, status.tag = 5, int(tag)

    def iprobe(self, source=-1, tag=-1, status=None):
        for m in self.q:
            if m[2] == int(tag):
                self.at(status, tag)
                return True
        ensure(False, "the receiver waits for a message that was not sent", tag=int(tag), queue=[(m[0], m[2]) for m in self.q][:6])

    def __getattr__(self, n):
        raise Gap(f"Comm.{n}")


def value(rng, blk):
    import numpy as np

    k = rng.randrange(7)
    n = rng.choice([0, 1, blk - 1, blk, blk + 1, 2 * blk, 3 * blk + 1, rng.randrange(200)])
    if k == 0:
        return rng.randrange(1000)
    if k == 1:
        return "s" * n
    if k == 2:
        return np.arange(n, dtype=rng.choice(["int8", "float64"]))
    if k == 3:
        return [np.arange(n), np.ones((3, n)), {"a": np.arange(2)}]
    if k == 4:
        return {"x": value(rng, blk), "y": (value(rng, blk),)}
    if k == 5:
        return b"z" * n
    return None


def eq(a, b):
    import numpy as np

    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(eq, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    return a == b


def buffers(u, w, rng):
    C = need(CORE + "communication")
    for f in ("mpi_send_buffer", "mpi_isend_buffer", "mpi_recv_buffer"):
        need(CORE + "communication", f)
    blk = w.blocksize
    for _ in range(25):
        n = rng.choice([0, 1, blk - 1, blk, blk + 1, 2 * blk - 1, 2 * blk, 5 * blk, 5 * blk + 1, rng.randrange(6 * blk + 2)])
        data = bytes(rng.randrange(256) for _ in range(n))
        c = Wire(rng)
        k = rng.randrange(3)
        if k == 0:
            call(C.mpi_send_buffer, c, rng.choice([bytes, bytearray, memoryview])(data), 3)
            got = bytearray(n)
            call(C.mpi_recv_buffer, c, 5, got)
        elif k == 1 and n:
            call(C.mpi_send_buffer, c, data, 3, buffer_size=n)
            got = call(C.mpi_recv_buffer, c, 5)
        else:
            hs = call(C.mpi_isend_buffer, c, n, data, 3)
            got = call(C.mpi_recv_buffer, c, 5)
            ensure({id(h[0]) for h in hs} == {id(r) for r in c.reqs} and len(hs) == len(c.reqs), "not every started send is returned to the caller", returned=len(hs), started=len(c.reqs))
        ensure(bytes(got) == data, "a buffer is not received as it was sent", size=n, block=blk, kind=k)
        ensure(not c.q, "more was sent than is received", size=n, block=blk, kind=k, left=[(m[0], m[2]) for m in c.q])
    return len(data)


def operations(u, w, rng):
    """several operations are under way to a process, which consumes them in order, blocking replies out of order"""
    C = need(CORE + "communication")
    K = need(CORE + "controller.common")
    Op = need(CORE + "common", "Operation")
    Id = need(CORE + "common", "MpiDataID")
    S = need(CORE + "serialization", "serialize_complex_data")
    Simple = need(CORE + "serialization", "SimpleDataSerializer")
    for _ in range(12):
        c = Wire(rng)
        plan, keep, handlers = [], [], []
        for j in range(rng.randrange(1, 6)):
            k = rng.choice(["simple", "isimple", "task", "data", "reply", "serialized", "op"])
            v = value(rng, w.blocksize)
            i = Id(1, 1000 + len(keep))
            keep.append(i)
            if k == "simple":
                v = {"id": i, "x": j}
                call(C.send_simple_operation, c, Op.WAIT, v, 3)
            elif k == "isimple":
                v = {"id": i, "x": j}
                handlers += call(C.isend_simple_operation, c, Op.GET, v, 3)
            elif k == "task":
                h, _s = call(C.isend_complex_operation, c, Op.EXECUTE, v, 3)
                handlers += h
            elif k == "data":
                d = dict(S(v))
                d["id"] = i
                h, _s = call(C.isend_complex_operation, c, Op.PUT_DATA, d, 3, is_serialized=True)
                handlers += h
            elif k == "reply":
                if rng.random() < 0.5:
                    d = dict(S(v))
                    d["id"] = i
                    call(C.send_complex_data, c, d, 3, is_serialized=True)
                else:
                    # the data of an object together with its identifier
                    d = dict(S(v))
                    d["id"] = i
                    call(C.send_complex_data, c, d, 3, is_serialized=True)
            elif k == "serialized":
                v = [(1, x) for x in range(rng.randrange(40))]
                handlers += call(C.isend_serialized_operation, c, Op.CLEANUP, Simple().serialize_pickle(v), 3)
            else:
                call(C.mpi_send_operation, c, Op.CANCEL, 3)
            plan.append((k, v, i))
        ensure({id(h[0]) for h in handlers} == {id(r) for r in c.reqs} and len(handlers) == len(c.reqs), "not every started send is returned to the caller", returned=len(handlers), started=len(c.reqs), plan=[p[0] for p in plan])
        first, rest = [p for p in plan if p[0] == "reply"], [p for p in plan if p[0] != "reply"]
        if rng.random() < 0.5:
            order = first + rest
        else:
            order = rest + first
        opname = {"simple": Op.WAIT, "isimple": Op.GET, "task": Op.EXECUTE, "data": Op.PUT_DATA, "serialized": Op.CLEANUP, "op": Op.CANCEL}
        for k, v, i in order:
            if k == "reply":
                r = call(K.pull_data, c)
                ensure(r["id"] is i and eq(r["data"], v), "a reply is not received as it was sent", sent=v, got=r)
                continue
            op, src = call(C.mpi_recv_operation, c)
            ensure(int(op) == int(opname[k]), "another operation is received than was sent", sent=k, got=int(op))
            if k in ("simple", "isimple"):
                r = call(C.mpi_recv_object, c, src)
                ensure(r["id"] is i and r["x"] == v["x"], "an operation is not received as it was sent", sent=v, got=r)
            elif k == "task":
                r = call(K.pull_data, c, src)
                ensure(eq(r, v), "the data of a task is not received as it was sent", sent=v, got=r)
            elif k == "data":
                r = call(K.pull_data, c, src)
                ensure(r["id"] is i and eq(r["data"], v), "an object is not received as it was sent", sent=v, got=r)
            elif k == "serialized":
                r = call(C.recv_serialized_data, c, src)
                ensure(r == v, "serialized data is not received as it was sent", sent=v, got=r)
        ensure(not c.q, "more was sent than is received", plan=[p[0] for p in plan], left=[(m[0], m[2]) for m in c.q])
    return len(plan)


class Buf:
    pass


def async_ops(u, w, rng):
    A = need(CORE + "async_operations", "AsyncOperations")
    a = A()
    live = []
    for _ in range(60):
        k = rng.randrange(5)
        if k <= 1:
            new = []
            for _ in range(rng.randrange(4)):
                r, b = Req(), Buf()
                new.append((r, b))
                live.append((r, weakref.ref(b), weakref.ref(r)))
            a.extend(new)
            new = r = b = None
        elif k == 2:
            a.check()
            live = [x for x in live if not x[0].done]
        else:
            for x in live:
                if rng.random() < 0.3:
                    x[0].done = True
        for r, b, _ in live:
            if not r.done:
                ensure(b() is not None, "the buffer of a send that is not complete is not kept")
        x = r = b = None
    pend = list(live)
    reqs = [x[0] for x in pend]
    a.finish()
    ensure(all(r.done for r in reqs), "finish does not wait for every send")
    return len(reqs)


def unit(fn):
    def one(seed):
        rng = random.Random(seed)
        blk = rng.choice([1, 2, 3, 5, 8, 17, 64])
        n = in_root(lambda u, w: fn(u, w, rng), n=3, seed=seed, env={"UNIDIST_MPI_PICKLE_THRESHOLD": rng.choice(["0", "100"])}, blocksize=blk)
        return {"seed": seed, "block": blk, "n": n}

    return one


if __name__ == "__main__":
    rep = Report("C15")
    rep.seed += 1500
    k = 300 if rep.thorough else 12
    b = 300 if rep.thorough else 30
    cs = [(f"{f.__name__} #{g}", lambda f=f, g=g: batch([rep.seed * 1000 + g * 5000 + i for i in range(k)], unit(f), b)) for f in (buffers, operations, async_ops) for g in range(2)]
    cs += mpi_cases(rep, groups=6, quick=12, steps=40)
    rep.run(cs, procs=8, rule="every send/receive pair with sizes around the block size and several operations under way; random programs with small blocks on the simulated cluster, which checks kinds, tags, sizes and the completion of all sends")
