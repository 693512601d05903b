"""C17: the public API in front of a recording backend, and the choice of the backend."""
import functools
import os
import random

from rt import *
from cases import batch

BASE = "unidist.core.base."


class Fn:
    def __init__(self, log, decl):
        self.log, self.decl = log, decl

    def _remote(self, *args, **kw):
        self.log.append(("call", self, args, kw))
        return ("result", len(self.log))


class Act:
    log = None

    def __init__(self, cls, num_cpus, resources, live=None):
        self.decl, self.live = (cls, num_cpus, resources), live

    def _remote(self, *args, **kw):
        a = Act(*self.decl, live=len(self.log))
        self.log.append(("create", self, args, kw, a))
        return a

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        m = Fn(self.log, ("method", self, n))
        return m


class Recorder:
    def __init__(self):
        self.log = []

    def make_remote_function(self, function, num_cpus, num_returns, resources):
        f = Fn(self.log, (function, num_cpus, num_returns, resources))
        self.log.append(("function", f))
        return f

    def make_actor(self, cls, num_cpus, resources):
        self.log.append(("actor", cls, num_cpus, resources))
        Act.log = self.log
        return Act, [cls, num_cpus, resources]

    def get(self, refs):
        self.log.append(("get", refs))
        return ("values", refs)

    def put(self, data):
        self.log.append(("put", data))
        return ("ref", len(self.log))

    def wait(self, refs, num_returns=1):
        self.log.append(("wait", refs, num_returns))
        return refs[:num_returns], refs[num_returns:]

    def get_ip(self):
        self.log.append(("get_ip",))
        return "ip"

    def num_cpus(self):
        self.log.append(("num_cpus",))
        return 77

    def cluster_resources(self):
        self.log.append(("cluster_resources",))
        return {"a": 1}

    def shutdown(self):
        self.log.append(("shutdown",))

    def is_initialized(self):
        self.log.append(("is_initialized",))
        return True


class K:
    def m(self):
        pass


class Callable:
    def __call__(self):
        pass


def func(a=None, *b, **c):
    return 1


async def afunc():
    return 1


def api(seed):
    import unidist as u

    P = need(BASE + "backend", "BackendProxy")
    Ref = need(BASE + "object_ref", "ObjectRef")
    rng = random.Random(seed)
    R = api.rec
    if R is None:
        R = api.rec = Recorder()
        p = P.get_instance(backend_cls=R)
        ensure(p is P.get_instance(), "the backend object is not kept")
        ensure(p is P.get_instance(backend_cls=Recorder()), "a second backend replaces the first one")
        ensure(need(BASE + "utils", "get_backend_proxy")() is p, "API calls do not use the backend of the process")
    for _ in range(60):
        del R.log[:]
        k = rng.randrange(9)
        cpus, res = rng.choice([None, 1, 4]), rng.choice([None, {"gpu": 1}, {}])
        nr = rng.choice([None, 0, 1, 2, 17, -1, -5, 1.5, "2", [1], {}])
        kw = {}
        if cpus is not None or rng.random() < 0.3:
            kw["num_cpus"] = cpus
        if res is not None or rng.random() < 0.3:
            kw["resources"] = res
        if nr is not None or rng.random() < 0.3:
            kw["num_returns"] = nr
        target = rng.choice([func, afunc, lambda x: x, K, Callable, Callable(), 5, "text", None, len, functools.partial(func), K().m])
        import inspect

        isf, isc = inspect.isfunction(target), inspect.isclass(target)
        if k <= 2:
            bare = not kw
            valid = (isf and (nr is None or (isinstance(nr, int) and nr >= 0))) or (isc and nr is None)
            try:
                d = u.remote(target) if bare else u.remote(**kw)(target)
            except Exception as e:
                ensure(not valid, "a valid declaration is rejected", target=target, declared=kw, error=repr(e))
                ensure(not R.log, "a rejected declaration reached the backend", log=R.log)
                continue
            ensure(valid, "an invalid declaration is accepted", target=target, declared=kw)
            ensure(len(R.log) == 1, "a declaration does not reach the backend once", log=R.log)
            if isf:
                ensure(R.log[0][0] == "function" and R.log[0][1].decl == (target, kw.get("num_cpus"), kw.get("num_returns"), kw.get("resources")) and R.log[0][1].decl[0] is target, "a declaration is changed on its way to the backend", declared=kw, got=R.log[0][1].decl)
            else:
                ensure(R.log[0] == ("actor", target, kw.get("num_cpus"), kw.get("resources")), "a declaration is changed on its way to the backend", declared=kw, got=R.log[0])
            del R.log[:]
            try:
                d(*[1] * rng.randrange(3))
            except TypeError:
                ensure(not R.log, "a direct call reached the backend", log=R.log)
            else:
                ensure(False, "a direct call of a remote function or class does not raise TypeError", target=target)
        elif k <= 5:
            d = u.remote(func)
            f = R.log[0][1]
            del R.log[:]
            before = dict(vars(d))
            ref = Ref(("ref", seed))
            args = [rng.choice([1, "a", ref, [ref]]) for _ in range(rng.randrange(4))]
            kws = {n: rng.choice([1, ref]) for n in rng.sample(["x", "y", "name"], rng.randrange(3))}
            o = {n: rng.choice(v) for n, v in {"num_cpus": [1, 2], "num_returns": [0, 1, 3], "resources": [{"r": 1}]}.items() if rng.random() < 0.5}
            exp = tuple(a._ref if a is ref else a for a in args)
            expk = {n: (a._ref if a is ref else a) for n, a in kws.items()}
            for use in ([False, True, False] if rng.random() < 0.5 else [True, False]):
                w = d.options(**o) if use else d
                w.remote(*args, **kws)
                ensure(len(R.log) == 1 and R.log[0][0] == "call" and R.log[0][1] is f, "a call does not reach the backend function once", log=R.log)
                _, _, ga, gk = R.log.pop()
                opts = {n: gk.pop(n) for n in ("num_cpus", "num_returns", "resources") if n in gk}
                ensure(tuple(ga) == exp and gk == expk, "the arguments of a call are changed on the way to the backend", passed=(args, kws), got=(ga, gk))
                want = o if use else {}
                ensure({n: v for n, v in opts.items() if v is not None} == want, "a call has other parameters than those given by options", given=want, got=opts)
            ensure(dict(vars(d)) == before, "options changed the decorated object")
        elif k <= 7:
            d = u.remote(K)
            del R.log[:]
            before = dict(vars(d))
            o = {n: rng.choice(v) for n, v in {"num_cpus": [1, 2], "resources": [{"r": 1}]}.items() if rng.random() < 0.5}
            use = rng.random() < 0.5
            a = (d.options(**o) if use else d).remote(1, z=2)
            ensure([x[0] for x in R.log] == ["create"], "an actor is not created exactly once", log=R.log)
            _, _, ga, gk, act = R.log.pop()
            opts = {n: gk.pop(n) for n in ("num_cpus", "resources") if n in gk}
            ensure(ga == (1,) and gk == {"z": 2} and {n: v for n, v in opts.items() if v is not None} == (o if use else {}), "an actor is created with other arguments than given", got=(ga, gk, opts), options=o if use else {})
            ensure(dict(vars(d)) == before, "options changed the decorated object")
            n = rng.choice([None, 0, 1, 3])
            m = a.m
            for use in (True, False):
                (m.options(num_returns=n) if use else m).remote(5, q=6)
                ensure(len(R.log) == 1 and R.log[0][1].decl[0] == "method" and R.log[0][1].decl[1] is act, "a method call does not reach the actor once", log=R.log)
                _, _, ga, gk = R.log.pop()
                got = gk.pop("num_returns", None)
                ensure(ga == (5,) and gk == {"q": 6} and got == (n if use else None), "a method is called with other arguments than given", got=(ga, gk, got))
        else:
            r1, r2, x = Ref(("r", 1)), Ref(("r", 2)), object()
            ensure(u.get(r1) == ("values", ("r", 1)) and u.get([r1, r2]) == ("values", [("r", 1), ("r", 2)]), "get is changed on the way to the backend", log=R.log)
            p = u.put(x)
            ensure(R.log[-1] == ("put", x) and R.log[-1][1] is x and isinstance(p, Ref) and p._ref == ("ref", len(R.log)), "put is changed on the way to the backend", log=R.log)
            rd, nrd = u.wait([r1, r2, p], num_returns=2)
            ensure(R.log[-1] == ("wait", [("r", 1), ("r", 2), p._ref], 2) and [y._ref for y in rd] == [("r", 1), ("r", 2)] and [y._ref for y in nrd] == [p._ref], "wait is changed on the way to the backend", log=R.log)
            u.wait([r1])
            ensure(R.log[-1] == ("wait", [("r", 1)], 1), "the default of wait is changed", log=R.log[-1])
            ensure((u.get_ip(), u.num_cpus(), u.cluster_resources(), u.is_initialized()) == ("ip", 77, {"a": 1}, True), "a query is changed on the way to the backend")
            ensure(u.is_object_ref(r1) and not u.is_object_ref(5) and not u.is_object_ref(("r", 1)), "is_object_ref is wrong")
            u.shutdown()
            ensure(R.log[-1] == ("shutdown",), "shutdown does not reach the backend", log=R.log)
    return {"seed": seed}


api.rec = None


def choice(name, first):
    """in a new process: which backend object is used"""

    def run():
        tick((name, first))
        for k in ("UNIDIST_BACKEND",):
            os.environ.pop(k, None)
        import unidist as u
        import unidist.config as cfg

        P = need(BASE + "backend", "BackendProxy")
        g = need(BASE + "utils", "get_backend_proxy")
        cfg.Backend.put(name)
        cfg.CpuCount.put(2)
        if first == "decorator":
            u.remote(func)
        elif first == "init":
            u.init()
        else:
            g()
        p = P.get_instance()
        b = p._backend_cls
        import importlib

        want = {"pyseq": "PySeqBackend", "pymp": "PyMpBackend", "dask": "DaskBackend"}[name]
        ensure(type(b).__name__ == want, "another backend is used than configured", configured=name, used=type(b).__name__)
        other = "pyseq" if name != "pyseq" else "pymp"
        cfg.Backend.put(other)
        u.remote(K)
        ensure(g() is p and P.get_instance() is p and p._backend_cls is b, "the backend of a process changed after it was first needed")
        if first != "init":
            cfg.Backend.put(name)
            if name != "dask":
                u.init()
                ensure(g() is p, "init replaced the backend of the process")
        return {"evaluations": 1, "distinct": 1, "samples": [short((name, first))]}

    return run


if __name__ == "__main__":
    rep = Report("C17")
    rep.seed += 1700
    k = 2000 if rep.thorough else 120
    b = 200 if rep.thorough else 25
    cs = [(f"api #{g}", lambda g=g: batch([rep.seed * 1000 + g * 50000 + i for i in range(k)], api, b)) for g in range(4)]
    cs += [(f"choice of {n} by {f}", choice(n, f)) for n in ("pyseq", "pymp", "dask") for f in ("decorator", "init", "proxy")]
    rep.run(cs, procs=8, rule="random declarations, calls, options and queries against a recording backend; the choice of the backend by configuration in new processes")
