"""C07 on the real code: every short sequence of allocator operations against a set of free cells, and the manager
with recording stand-ins for the shared store and the communicator."""
import copy
import random

from rt import *

R = Report("C07")
SMM = "unidist.core.backends.mpi.core.monitor.shared_memory_manager"


def runs(free):
    out, cur = [], 0
    m = max(free) + 1 if free else 0
    for c in range(m + 1):
        if c in free:
            cur += 1
        else:
            if cur:
                out.append(cur)
            cur = 0
    return out


class Alloc:
    """FreeMemoryRange with its specification: the set of free cells"""

    def __init__(self, cls, n):
        self.n, self.o, self.free, self.live, self.hist = n, cls(n), set(range(n)), [], [("memory", n)]

    def clone(self):
        r = Alloc.__new__(Alloc)
        r.n, r.o, r.free, r.live, r.hist = self.n, copy.deepcopy(self.o), set(self.free), list(self.live), list(self.hist)
        return r

    def occupy(self, k):
        self.hist.append(("occupy", k))
        a, b = self.o.occupy(k)
        fits = any(r >= k for r in runs(self.free))
        if a is None:
            ensure(b is None, "half a failure", history=self.hist)
            ensure(not fits, "reservation fails although a free block is large enough", history=self.hist, free=sorted(self.free))
            return
        ensure(b - a == k, "wrong length", history=self.hist, got=(a, b))
        cells = set(range(a, b))
        ensure(cells <= self.free, "a reservation overlaps another one or leaves the memory", history=self.hist, got=(a, b), free=sorted(self.free))
        self.free -= cells
        self.live.append((a, b))

    def release(self, i):
        a, b = self.live.pop(i)
        self.hist.append(("release", a, b))
        self.o.release(a, b)
        self.free |= set(range(a, b))

    def probe(self):
        """the free cells seen through the allocator itself: everything can be taken, and nothing else"""
        c = self.clone()
        for k in sorted(runs(c.free), reverse=True):
            c.occupy(k)
        ensure(not c.free, "free cells cannot be allocated", history=self.hist, free=sorted(self.free))
        c.occupy(1)


def exhaustive(n, depth):
    def go():
        cls = need(SMM, "FreeMemoryRange")
        m = Multi()

        def rec(a, d):
            m.one(tuple(a.hist), a.probe)
            if d == 0 or len(m.failures) >= 3:
                return
            for k in range(1, n + 1):
                b = a.clone()
                m.one((tuple(a.hist), "occ", k), b.occupy, k)
                if len(b.live) > len(a.live):
                    rec(b, d - 1)
            for i in range(len(a.live)):
                b = a.clone()
                m.one((tuple(a.hist), "rel", i), b.release, i)
                rec(b, d - 1)

        rec(Alloc(cls, n), depth)
        return m.result()

    return go


def rand(seed, count):
    def go():
        cls = need(SMM, "FreeMemoryRange")
        rng = random.Random(seed)
        m = Multi()
        for _ in range(count):
            n = rng.choice([8, 16, 40, 100])
            a = Alloc(cls, n)

            def seq():
                for _ in range(rng.choice([20, 60, 150])):
                    if a.live and rng.random() < 0.48:
                        a.release(rng.randrange(len(a.live)))
                    else:
                        a.occupy(rng.randint(1, max(1, n // 4)))
                a.probe()

            m.one(("random", seed, _), seq)
        return m.result()

    return go


class Store:
    def __init__(self):
        self.refs, self.srv, self.deleted = {}, {}, []

    def get_ref_number(self, data_id, service_index):
        if self.srv.get(data_id) != service_index:
            return 0
        return self.refs.get(data_id, 0)

    def delete_service_info(self, data_id, service_index):
        ensure(self.srv.get(data_id) == service_index, "the record of another object is deleted", data_id=data_id, service_index=service_index)
        ensure(self.refs.get(data_id, 0) == 0, "the record of a referenced object is deleted", data_id=data_id)
        del self.srv[data_id]
        self.deleted.append(data_id)

    def __getattr__(self, n):
        raise Gap(f"shared store stand-in has no {n}")


class Comm:
    def __init__(self, remote):
        self.remote, self.ids = remote, None

    def Allreduce(self, s, r, op=None):
        from mpi4py import MPI

        if op is None or op == MPI.SUM:
            f = lambda a, b: a + b
        elif op == MPI.MAX:
            f = max
        elif op == MPI.MIN:
            f = min
        elif op in (MPI.LOR, MPI.BOR):
            f = lambda a, b: a | b
        elif op in (MPI.LAND, MPI.BAND):
            f = lambda a, b: a & b
        else:
            raise Gap("unknown reduction")
        ensure(len(s) == len(r) == len(self.ids), "the hosts reduce arrays of different lengths", got=len(s), want=len(self.ids))
        for i, x in enumerate(self.ids):
            r[i] = f(s[i], 1 if x in self.remote else 0)

    def __getattr__(self, n):
        raise Gap(f"communicator stand-in has no {n}")


def manager(seed, count):
    def go():
        mod = need(SMM)
        cls, FR = need(SMM, "SharedMemoryManager"), need(SMM, "FreeMemoryRange")
        DID = need("unidist.core.backends.mpi.core.common", "MpiDataID")
        INFO = need("unidist.core.backends.mpi.core.shared_object_store", "SharedObjectStore.INFO_SIZE")
        rng = random.Random(seed)
        m = Multi()

        def history(many):
            n, recs = rng.choice([10, 30, 64]), rng.choice([3, 6, 20])
            o = cls.__new__(cls)
            o.shared_store = st = Store()
            o._reservation_info = {}
            o.free_memory, o.free_service_indexes = FR(n), FR(recs * INFO)
            o.pending_cleanup = []
            remote = set()
            o.monitor_comm = Comm(remote) if many else None
            ids = [DID(0, i + 1) for i in range(12)]
            live, pending, hist = {}, [], [("memory", n, "records", recs, "several hosts" if many else "one host")]

            def layout():
                cells, srv = set(), set()
                for x, (a, b, s) in live.items():
                    ensure(0 <= a < b <= n and not cells & set(range(a, b)), "reservations overlap", history=hist, live=live)
                    cells |= set(range(a, b))
                    ensure(0 <= s and s + INFO <= recs * INFO and not srv & set(range(s, s + INFO)), "service records overlap", history=hist, live=live)
                    srv |= set(range(s, s + INFO))
                return set(range(n)) - cells, recs - len(live)

            for _ in range(rng.choice([10, 40])):
                op = rng.random()
                if op < 0.5:
                    free_ids = [x for x in ids if x not in live and x not in pending]
                    if not free_ids:
                        continue
                    x, k = rng.choice(free_ids), rng.randint(1, n // 2)
                    hist.append(("reserve", str(x), k))
                    cells, nrec = layout()
                    fits = any(r >= k for r in runs(cells)) and nrec > 0
                    ensure(o.get(x) is None, "a reservation is known before it is made", history=hist)
                    try:
                        r = o.put(x, k)
                    except MemoryError:
                        ensure(not fits, "reservation fails although there is space", history=hist, free=sorted(cells), records=nrec)
                        ensure(o.get(x) is None, "a failed reservation is recorded", history=hist)
                        continue
                    ensure(r["last_index"] - r["first_index"] == k, "wrong length", history=hist, got=dict(r))
                    live[x] = (r["first_index"], r["last_index"], r["service_index"])
                    st.srv[x] = r["service_index"]
                    st.refs[x] = rng.choice([0, 1, 1, 2])
                    ensure(dict(o.get(x)) == dict(r), "the recorded reservation differs", history=hist)
                    layout()
                elif op < 0.6 and many:
                    # an object that other hosts hold, reserved here or not
                    x = rng.choice(ids)
                    (remote.add if rng.random() < 0.5 else remote.discard)(x)
                    hist.append(("references on other hosts", str(x), x in remote))
                elif op < 0.75 and live:
                    x = rng.choice(list(live))
                    st.refs[x] = rng.choice([0, 0, 1, 3])
                    (remote.add if rng.random() < 0.3 else remote.discard)(x)
                    hist.append(("references", str(x), st.refs[x], "remote" if x in remote else ""))
                else:
                    ls = rng.sample([x for x in ids if x not in pending], rng.randint(0, 4))
                    hist.append(("clear", [str(x) for x in ls]))
                    listed = pending + ls
                    if many:
                        o.monitor_comm.ids = listed
                    st.deleted.clear()
                    o.clear(list(ls))
                    used = lambda x: (x in live and st.refs.get(x, 0) > 0) or (many and x in remote)
                    gone = [x for x in listed if x in live and not used(x)]
                    ensure(sorted(map(str, set(st.deleted))) == sorted(map(str, set(gone))) and len(st.deleted) == len(set(st.deleted)), "wrong set of released objects", history=hist, released=st.deleted, expected=gone)
                    for x in gone:
                        live.pop(x, None)
                    for x in ids:
                        g = o.get(x)
                        ensure((g is not None) == (x in live), "a reservation is lost or kept after its release", history=hist, object=str(x))
                    pending = [x for x in listed if used(x)]
                    cells, nrec = layout()
            # everything that is not reserved can be reserved
            cells, nrec = layout()
            for i, k in enumerate(sorted(runs(cells), reverse=True)[:nrec]):
                x = DID(1, i + 1)
                try:
                    r = o.put(x, k)
                except MemoryError:
                    raise_bad("free space cannot be reserved", history=hist, length=k, free=sorted(cells))
                ensure(set(range(r["first_index"], r["last_index"])) <= cells, "reservation of used cells", history=hist)

        for i in range(count):
            m.one(("manager", seed, i), history, i % 2 == 1)
        return m.result()

    return go


def raise_bad(what, **kw):
    ensure(False, what, **kw)


k = 4 if R.thorough else 1
cases = [(f"exhaustive-{n}-{d}", exhaustive(n, d)) for n, d in ((1, 4), (2, 7), (3, 8), (4, 7 + (k > 1)), (5, 6 + (k > 1)))]
cases += [(f"random-{s}", rand(R.seed * 100 + s, 120 * k)) for s in range(2 * k)]
cases += [(f"manager-{s}", manager(R.seed * 100 + s, 200 * k)) for s in range(2 * k)]
R.run(cases, rule="a case is an operation history; distinct histories counted")
