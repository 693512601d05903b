"""C20: sizes of the shared memory and read-only metadata."""
import operator
import pickle
import random
import types
import warnings

from rt import *
from cases import CORE, batch, in_root
import prog


class Alloc:
    """records the allocations of one construction of the store"""

    def __init__(self):
        self.sizes, self.bufs = [], []

    def __call__(self, size, disp_unit=1, info=None, comm=None, **kw):
        ensure(size >= 0, "a negative amount of memory is allocated", size=size)
        self.sizes.append(size)
        k = len(self.sizes) - 1
        b = bytearray(b"\xa5" * size) if size <= 1 << 23 else bytearray(8)
        self.bufs.append(b)
        return types.SimpleNamespace(Shared_query=lambda r: (memoryview(b), disp_unit), Free=lambda: None, Lock=lambda *a: None, Unlock=lambda *a: None)


class Rejected(Exception):
    pass


def build(mod, cfg, state, avail, setting, monitor, frsize):
    """the store of one process, with `avail` bytes available; setting = (data size, service size, threshold)"""
    al = Alloc()
    MPI = mod.MPI
    for o, a in ((mod, "os"), (mod, "psutil"), (MPI, "Win")):
        need(o, a)
    names = ("MpiSharedObjectStoreMemory", "MpiSharedServiceMemory", "MpiSharedObjectStoreThreshold")
    saved = [need(getattr(cfg, n), "_value") for n in names]
    old = (mod.os, mod.psutil, MPI.Win, state.is_monitor_process)
    fake_os = types.SimpleNamespace(**{k: getattr(old[0], k) for k in ("O_RDONLY", "getpid", "path", "environ")})
    fake_os.open = lambda *a, **k: 77
    fake_os.close = lambda *a: None
    st = types.SimpleNamespace(f_bsize=frsize, f_frsize=frsize, f_bavail=avail // frsize, f_bfree=avail // frsize + 9, f_blocks=avail // frsize + 1000)
    fake_os.fstatvfs = lambda fd: st
    fake_os.statvfs = lambda p: st
    vm = types.SimpleNamespace(total=max(avail * 2, 1), available=max(avail, 1), free=max(avail, 1))
    try:
        mod.os, mod.psutil = fake_os, types.SimpleNamespace(virtual_memory=lambda: vm)
        MPI.Win = types.SimpleNamespace(Allocate_shared=al)
        state.is_monitor_process = lambda: monitor
        for n, v in zip(names, setting):
            if v is not None:
                getattr(cfg, n).put(v)
            else:
                getattr(cfg, n)._value = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                s = mod.SharedObjectStore()
            except ValueError as e:
                ensure(not al.sizes, "memory is allocated before a setting is rejected", sizes=al.sizes, setting=setting, available=avail)
                raise Rejected(str(e))
    finally:
        mod.os, mod.psutil, MPI.Win = old[:3]
        state.__dict__.pop("is_monitor_process", None)
        for n, v in zip(names, saved):
            getattr(cfg, n)._value = v
    s.finalizers = []
    return s, al


def settings(rng, rec):
    avail = rng.choice([0, 1, rng.randrange(100), rng.randrange(5000), rng.randrange(10**6), rng.randrange(10**8), rng.randrange(10**11), rng.randrange(2**45), 2**30, 10**9])
    top = int(avail * 0.95)
    near = lambda: rng.choice([0, 1, top, top + 1, max(0, top - 1), rng.randrange(top + 1), rng.randrange(2 * top + 2), top // 2, rng.randrange(min(top, 10**5) + 1)])
    # nothing but None leaves the size to the system
    data = rng.choice([None, near()])
    serv = rng.choice([None, near()])
    thr = rng.choice([0, 1, rng.randrange(1, 10**4), 10**5, rng.randrange(1, 10**7), 99 * rec, 99 * rec + 1, 99 * rec - 1, 10**9])
    return avail, (data, serv, thr)


def many(seeds):
    def fn(u, w):
        mod = w.module(0, CORE + "shared_object_store")
        comm = w.module(0, CORE + "communication")
        cfg = w.module(0, "unidist.config")
        need(mod, "SharedObjectStore")
        state = comm.MPIState.get_instance()
        S = mod.SharedObjectStore
        rec = S.INFO_SIZE * mod.MPI.LONG.size
        samples, n = [], 0
        for seed in seeds:
            rng = random.Random(seed)
            avail, setting = settings(rng, rec)
            fr = rng.choice([1, 1, 512, 4096])
            avail -= avail % fr
            top = avail * 95 // 100
            data, serv, thr = setting
            try:
                s, al = build(mod, cfg, state, avail, setting, False, fr)
            except Rejected as e:
                ensure(not (data is None and serv is None), "sizes chosen by the system are rejected", available=avail, setting=setting, error=str(e))
                ensure((data or 0) + (serv or 0) > top - 1, "a setting that can be honoured is rejected", available=avail, setting=setting, error=str(e))
                n += 1
                continue
            x, y = need(s, "shared_memory_size"), need(s, "service_memory_size")
            info = dict(available=avail, setting=setting, data=x, service=y)
            ensure(x >= 0 and y >= 0, "a negative size", **info)
            ensure(x + y <= top + 1, "the sizes exceed 95 percent of the available memory", **info)
            ensure(data is None or x == data, "the size of the data area is not the one set", **info)
            ensure(serv is None or y == serv, "the size of the service area is not the one set", **info)
            ensure(sum(al.sizes) == 0, "a process that is not the monitor allocates memory", sizes=al.sizes)
            ensure(s.service_info_max_count % S.INFO_SIZE == 0 and s.service_info_max_count * mod.MPI.LONG.size <= y, "the service area does not hold a whole number of records within its size", count=s.service_info_max_count, **info)
            ensure(s.service_info_max_count * mod.MPI.LONG.size > y - rec, "the service area wastes records", count=s.service_info_max_count, **info)
            if y <= 1 << 22:
                s, al = build(mod, cfg, state, avail, setting, True, fr)
                ensure((s.shared_memory_size, s.service_memory_size) == (x, y), "the monitor chooses other sizes than the other processes", monitor=(s.shared_memory_size, s.service_memory_size), **info)
                ensure(al.sizes[:1] == [x] and len(al.sizes) == 2, "the monitor does not allocate the chosen size", sizes=al.sizes, **info)
                ensure(al.sizes[1] == s.service_info_max_count * mod.MPI.LONG.size, "the service area allocated is not the one used", sizes=al.sizes, count=s.service_info_max_count)
                ensure(bytes(al.bufs[1]) == b"\xff" * len(al.bufs[1]), "the service area is not initialized as empty", **info)
            n += 1
            if len(samples) < 2:
                samples.append(info)
        return {"evaluations": n, "distinct": n, "samples": samples}

    return in_root(fn, 4, env=dict(prog.SHARED))


def whole_cluster(seed):
    """the areas of each host right after the start"""
    rng = random.Random(seed)
    serv = rng.choice([0, 31, 32, 33, 64, 1000, 4096])
    env = dict(prog.SHARED, UNIDIST_MPI_SHARED_SERVICE_MEMORY=str(serv), UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY=str(rng.randrange(1, 10**5)))
    hosts = rng.choice([[0] * 4, [0, 0, 0, 1, 1, 1], [0, 1, 0, 1, 0, 1], [0, 1, 1, 0]])

    def fn(u, w):
        from c08 import records

        for host, sts in records(w).items():
            a = {(st.shared_memory_size, st.service_info_max_count) for r, st, mod in sts}
            ensure(len(a) == 1, "processes of one host use different sizes", host=host, sizes=sorted(a))
            for r, st, mod in sts:
                b = st.service_shared_buffer
                ensure(b is not None and len(b) == st.service_info_max_count and all(v == -1 for v in b), "the service area is not empty at the start", rank=r, size=None if b is None else len(b))
                ensure(len(st.shared_buffer) == int(env["UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY"]), "the data area has not the size set", rank=r, size=len(st.shared_buffer))

    in_root(fn, len(hosts), env=env, hosts=hosts, seed=seed)
    return {"hosts": hosts, "service": serv}


def immutable(_):
    def fn(u, w):
        common = w.module(0, CORE + "common")
        M, D = common.MetadataPackage, common.MpiDataID
        i = D(0, 1)
        packs = [M.get_local_info(i, 10, [1, 2], [2]), M.get_shared_info(i, 10, [1], [1], 3), M.get_task_info(5, [], [])]
        writes = {
            "m[k] = v": lambda m, k: m.__setitem__(k, 0),
            "m[new] = v": lambda m, k: m.__setitem__("new", 0),
            "operator.setitem": lambda m, k: operator.setitem(m, k, 1),
            "del m[k]": lambda m, k: operator.delitem(m, k),
            "pop": lambda m, k: m.pop(k),
            "pop default": lambda m, k: m.pop(k, None),
            "pop missing": lambda m, k: m.pop("nothing", 1),
            "popitem": lambda m, k: m.popitem(),
            "clear": lambda m, k: m.clear(),
            "update": lambda m, k: m.update({k: 1}),
            "update kw": lambda m, k: m.update(new=1),
            "update pairs": lambda m, k: m.update([(k, 1)]),
            "setdefault": lambda m, k: m.setdefault("new", 1),
            "|=": lambda m, k: operator.ior(m, {k: 1}),
        }
        n = 0
        for m in packs:
            ref = dict(m)
            for name, f in writes.items():
                for k in ref:
                    try:
                        r = f(m, k)
                    except TypeError:
                        pass
                    else:
                        ensure(dict(m) == ref, "a metadata package was modified", by=name, key=k)
                    ensure(dict(m) == ref, "a metadata package was modified", by=name, key=k)
                    n += 1
        return {"evaluations": n, "distinct": n, "samples": [{"package": dict(p)} for p in packs[:1]]}

    return in_root(fn, 3)


if __name__ == "__main__":
    rep = Report("C20")
    rep.seed += 2000
    k = 12000 if rep.thorough else 1200
    cs = [(f"sizes #{g}", lambda g=g: many([rep.seed * 100000 + g * 20000 + i for i in range(k)])) for g in range(5)]
    cs.append(("areas of clusters", lambda: batch([rep.seed * 1000 + i for i in range(100 if rep.thorough else 20)], whole_cluster, 100)))
    cs.append(("read-only metadata", lambda: immutable(0)))
    rep.run(cs, procs=8, rule="random available memory, settings around its limits, thresholds around the change of the formula; every way of writing to a dictionary")
