"""C20: sizes of the shared memory, read-only metadata."""
from contracts.lib import *

UNITS = []
NOTE = (
    "Proof, for all sizes, thresholds and settings, of _allocate_shared_memory (each of the four combinations of user settings, as monitor and as another process) and of every writing method of ImmutableDict; "
    "float products are treated as exact rationals. Whole clusters and concrete sizes are also run (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = [
    "float arithmetic in the size computation is exact (rational); the concrete part runs it with IEEE doubles up to 2**45 bytes",
    "os.fstatvfs/psutil report some non-negative amount of available memory, the same for all processes of a host",
    "MPI.Win.Allocate_shared(size) gives the calling process size bytes; Shared_query(rank) gives the part of that rank; MPI.LONG.size == 8, MPI.BYTE.size == 1",
    "memory.fill(buffer, v) sets every element (proved from the C++ source under C09)",
]
SOS = MPI + "shared_object_store"
LONG = 8


class Win(Native):
    """the window objects of the process; what was allocated is recorded in the ghost state"""

    def __init__(self, kind, n):
        self.kind, self.n = kind, n

    def m_Shared_query(self, it, rank):
        it.p.check("requires: the memory of the monitor of the host is used", rank == 1)
        return it.mktuple([SharedMem(self.kind), 1])


class SharedMem(Native):
    def __init__(self, kind):
        self.kind = kind

    def m_cast(self, it, fmt):
        it.p.check("requires: service records are C longs", fmt == "l")
        return SharedMem(self.kind)


class WinNS(Native):
    def __init__(self):
        self.allocs = []

    def m_Allocate_shared(self, it, size, disp_unit=1, info=None, comm=None):
        # the checks before the first allocation: everything has been decided
        it.p.check("a negative amount is never allocated", intt(size) >= 0)
        self.allocs.append((intt(size), intt(disp_unit)))
        return Win(len(self.allocs) - 1, size)


class State(Native):
    def __init__(self, monitor):
        self.monitor = monitor
        self.f_host_comm = Ignore()
        self.f_global_rank = Ignore()

    def m_is_monitor_process(self, it):
        return self.monitor

    def m_is_root_process(self, it):
        return False


def setup(p, data_given, serv_given, monitor):
    wins = WinNS()
    fills = []
    avail = p.int("available")
    p.assume(avail.t >= 0)
    p.input("available", avail)
    data = p.int("data_setting") if data_given else None
    serv = p.int("service_setting") if serv_given else None
    thr = p.int("threshold")
    p.assume(thr.t >= 0)
    p.input("threshold", thr)
    for v, n in ((data, "data_setting"), (serv, "service_setting")):
        if v is not None:
            p.assume(v.t >= 0)
            p.input(n, v)
    ext = {
        "mpi4py.MPI.LONG.size": LONG,
        "mpi4py.MPI.BYTE.size": 1,
        "mpi4py.MPI.Win": wins,
        "mpi4py.MPI.Info": Ignore(),
    }
    it = Interp(p, ext=ext)
    it.gover.update({
        (SOS, "MpiSharedObjectStoreMemory"): Cfg(data),
        (SOS, "MpiSharedServiceMemory"): Cfg(serv),
        (SOS, "MpiSharedObjectStoreThreshold"): Cfg(thr),
        (MPI + "communication", "MPIState"): Single(State(monitor)),
        (SOS, "fill"): Builtin("fill", lambda it_, a, k: fills.append((a[0], a[1]))),
        (SOS, "memoryview"): Builtin("memoryview", lambda it_, a, k: a[0]),
    })
    cls = glob(it, SOS, "SharedObjectStore")
    o = new(it, cls)
    # the amount that is available, as the system reports it
    it.summaries[SOS + ":SharedObjectStore._get_allowed_memory_size"] = lambda it_, v: avail
    return it, o, cls, avail.t, data, serv, thr.t, wins, fills


def alloc_unit(data_given, serv_given, monitor):
    def fn(p):
        it, o, cls, A, data, serv, thr, wins, fills = setup(p, data_given, serv_given, monitor)
        info = it.getattr(cls, "INFO_SIZE")
        p.check("a record has at least one field", info >= 1)
        rec = info * LONG
        k, r = call_catch(it, meth(it, o, "_allocate_shared_memory"), [])
        limit = z3.ToInt(z3.ToReal(A) * z3.Q(95, 100))
        want = (data.t if data_given else 0) + (serv.t if serv_given else 0)
        if k == "exc":
            p.check("rejected with an error", exc_name(r) == "ValueError")
            p.check("nothing is allocated before a setting is rejected", len(wins.allocs) == 0)
            p.check("only settings that cannot be honoured are rejected", want > limit if data_given or serv_given else z3.BoolVal(False))
            if data_given or serv_given:
                p.cover("rejected")
            p.post()
            return
        x, y = intt(it.getattr(o, "shared_memory_size")), intt(it.getattr(o, "service_memory_size"))
        p.check("the data size is not negative", x >= 0)
        p.check("the service size is not negative", y >= 0)
        p.check("together at most 95 percent of the available memory", x + y <= limit)
        if data_given:
            p.check("the data size set by the user is used", x == data.t)
        if serv_given:
            p.check("the service size set by the user is used", y == serv.t)
        cnt = intt(it.getattr(o, "service_info_max_count"))
        p.check("whole number of records", z3.And(cnt >= 0, cnt % info == 0))
        p.check("the records fit into the service size", cnt * LONG <= y)
        p.check("no record that would fit is left out", cnt * LONG > y - rec)
        p.check("data and service memory are allocated", len(wins.allocs) == 2)
        if len(wins.allocs) == 2:
            (d, du), (s, su) = wins.allocs
            p.check("the monitor allocates all of the memory, the others nothing", z3.And(d == (x if monitor else 0), s == (cnt * LONG if monitor else 0)))
            sb, vb = it.getattr(o, "shared_buffer"), it.getattr(o, "service_shared_buffer")
            p.check("the buffers are the allocated ones", isinstance(sb, SharedMem) and isinstance(vb, SharedMem) and sb.kind == 0 and vb.kind == 1)
        if monitor:
            p.check("the monitor marks all records as empty", len(fills) == 1 and isinstance(fills[0][0], SharedMem) and fills[0][0].kind == 1 and fills[0][1] == -1)
        else:
            p.check("only the monitor initializes the records", len(fills) == 0)
        p.cover("allocated")
        p.post()

    return fn


for d in (0, 1):
    for s in (0, 1):
        for m in (True, False):
            UNITS.append(Unit(f"_allocate_shared_memory: data size {'set' if d else 'free'}, service size {'set' if s else 'free'}, {'monitor' if m else 'other process'}", alloc_unit(d, s, m), budget=120))


UT = "unidist.core.backends.mpi.utils"
WRITES = {
    "__setitem__": 2,
    "__delitem__": 1,
    "pop": 1,
    "popitem": 0,
    "clear": 0,
    "update": 1,
    "setdefault": 2,
    "__ior__": 1,
}


def write_unit(name, nargs):
    def fn(p):
        it = Interp(p)
        cls = glob(it, UT, "ImmutableDict")
        mp = glob(it, MPI + "common", "MetadataPackage")
        p.check("metadata packages are read-only dictionaries", cls in mp.mro())
        for c in (cls, mp):
            m = it.class_lookup(c, name)
            p.check(f"{name} is overridden", isinstance(m, Func))
            if not isinstance(m, Func):
                continue
            o = it.call(c, [it.mkdict({"k": 1})])
            before = dict(o.items)
            for args in ([p.u(f"a{i}") for i in range(nargs)], [p.u(f"b{i}") for i in range(nargs + 1)], ["k"] * nargs):
                kk, r = call_catch(it, Bound(m, o), args)
                p.check(f"{name} raises", kk == "exc")
                p.check(f"{name} raises a TypeError", kk == "exc" and exc_name(r) == "TypeError")
                p.check(f"{name} changes nothing", dict(o.items) == before)
        p.post()

    return fn


for n, a in WRITES.items():
    UNITS.append(Unit(f"ImmutableDict.{n}", write_unit(n, a)))


def info_unit(fname, params, ptype):
    def fn(p):
        it = Interp(p)
        mp = glob(it, MPI + "common", "MetadataPackage")
        vals = [p.u("data_id", "MpiDataID") if q == "id" else p.int(q) if q in ("s_data_len", "service_index") else symlist(it, q, EInt) for q in params]
        o = it.call(meth(it, mp, fname), vals)
        p.check("a read-only dictionary", isinstance(o, DictObj) and isinstance(o.cls, Cls) and mp in o.cls.mro())
        p.check("package type", it.getitem(o, "package_type") == it.getattr(mp, ptype))
        for q, v in zip(params, vals):
            g = it.getitem(o, q)
            p.check(f"describes {q}", same_value(it, g, v))
        p.post()

    return fn


UNITS.append(Unit("MetadataPackage.get_local_info", info_unit("get_local_info", ["id", "s_data_len", "raw_buffers_len", "buffer_count"], "LOCAL_DATA")))
UNITS.append(Unit("MetadataPackage.get_shared_info", info_unit("get_shared_info", ["id", "s_data_len", "raw_buffers_len", "buffer_count", "service_index"], "SHARED_DATA")))
UNITS.append(Unit("MetadataPackage.get_task_info", info_unit("get_task_info", ["s_data_len", "raw_buffers_len", "buffer_count"], "TASK_DATA")))


@unit(UNITS, "MetadataPackage: the package types differ")
def u_types(p):
    it = Interp(p)
    mp = glob(it, MPI + "common", "MetadataPackage")
    v = [it.getattr(mp, n) for n in ("LOCAL_DATA", "SHARED_DATA", "TASK_DATA")]
    p.check("distinct", len(set(v)) == 3)
    p.post()
