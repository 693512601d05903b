"""C16: configuration values."""
import os
import random
import sys

from rt import *
from cases import batch


def fresh():
    """the configuration package with no value set"""
    for m in [m for m in sys.modules if m == "unidist.config" or m.startswith("unidist.config.")]:
        del sys.modules[m]
    import unidist.config as c
    import unidist.config.parameter as p

    return c, p


POS, NEG = ["true", "yes", "1", "True", "YES", " yes ", "tRue"], ["false", "no", "0", "False", "NO", " 0 "]


def samples(rng, kind, choices, exact):
    """(value, what is read afterwards) or (value, Bad) when it has to be rejected"""
    if choices:
        c = rng.choice(list(choices))
        return rng.choice([(c, c), (c.upper(), c), (f" {c} ", c), ("no such choice", Bad), (c + "x", Bad), (17, Bad), (None, Bad)])
    if kind is bool:
        return rng.choice([(True, True), (False, False), (rng.choice(POS), True), (rng.choice(NEG), False), ("maybe", Bad), (None, Bad), ("", Bad), ("2", Bad)])
    if kind is int:
        n = rng.choice([0, 1, 7, 10**5, 2**40])
        return rng.choice([(n, n), (str(n), n), (f" {n} ", n), ("x", Bad), ("1x", Bad), (None, Bad), ("", Bad), ("1.5", Bad), (1.5, Bad)])
    if kind is float:
        n = rng.choice([0.0, 0.5, 1.25, 1e-4, 3.0])
        t = "%.4f" % n
        return rng.choice([(n, n), (t, n), (f" {t} ", n), ("x", Bad), (None, Bad), ("", Bad), ("1,5", Bad)])
    s = rng.choice(["abc", "AbC", " Mixed Case ", "a b", "127.0.0.1:80", "ÄÖ"])
    return rng.choice([(s, s if exact else s.strip().lower())] * 4 + [(5, Bad), (None, Bad), (b"x", Bad)])


class Model:
    def __init__(self, cls, P, env, exact, has_default):
        self.cls, self.P, self.exact, self.has_default = cls, P, exact, has_default
        self.kind = cls.type
        self.user, self.env = None, env
        self.trace = []

    def expected(self):
        """("val", v, source) or ("bad",)"""
        V = self.P.ValueSource
        if self.user is not None:
            return ("val", self.user[0], V.SET_BY_USER)
        if self.env is not None:
            return ("bad",) if self.env[1] is Bad else ("val", self.env[1], V.GOT_FROM_CFG_SOURCE)
        return ("val", self.cls.default, V.DEFAULT) if self.has_default else ("any", None, V.DEFAULT)

    def get(self):
        e = self.expected()
        self.trace.append("get")
        try:
            v = self.cls.get()
        except (ValueError, KeyError, TypeError, AttributeError) as x:
            ensure(e[0] == "bad", "reading a valid configuration value failed", parameter=self.cls.__name__, error=repr(x), history=self.trace, env=self.env)
            return
        ensure(e[0] != "bad", "an invalid environment value was accepted", parameter=self.cls.__name__, env=self.env, got=v)
        if e[0] == "val":
            ensure(v == e[1] and type(v) is type(e[1]), "another configuration value is read than expected", parameter=self.cls.__name__, got=v, expected=e[1], history=self.trace, env=self.env)

    def source(self):
        e = self.expected()
        if e[0] == "bad":
            return
        self.trace.append("source")
        s = self.cls.get_value_source()
        ensure(s == e[2], "the reported source of a configuration value is wrong", parameter=self.cls.__name__, got=s, expected=e[2], history=self.trace, env=self.env)

    def put(self, rng):
        v, r = samples(rng, self.kind, self.cls.choices, self.exact)
        self.trace.append(("put", v))
        try:
            self.cls.put(v)
        except Exception as x:
            ensure(r is Bad, "a valid configuration value was rejected", parameter=self.cls.__name__, value=v, error=repr(x))
        else:
            ensure(r is not Bad, "an invalid configuration value was accepted", parameter=self.cls.__name__, value=v)
            self.user = (r,)


def history(seed):
    rng = random.Random(seed)
    old = {k: v for k, v in os.environ.items() if k.startswith("UNIDIST_")}
    try:
        for k in old:
            del os.environ[k]
        c, P = fresh()
        need("unidist.config.parameter", "EnvironmentVariable")
        Exact = P.ExactStr
        names = [n for n in dir(c) if isinstance(getattr(c, n), type) and issubclass(getattr(c, n), P.Parameter) and getattr(getattr(c, n), "varname", None)]
        ensure(names, "no configuration parameters")
        shared = getattr(c, "MpiSharedObjectStore", None)
        ms = {}
        for n in names:
            cls = getattr(c, n)
            env = None
            if rng.random() < 0.5:
                for _ in range(50):
                    v, r = samples(rng, cls.type, cls.choices, cls.type is Exact)
                    if isinstance(v, str):
                        if n == "MpiSharedObjectStore" and r is Bad:
                            continue
                        env = (v, r)
                        os.environ[cls.varname] = v
                        break
            own = "_get_default" in vars(cls)
            ms[n] = Model(cls, P, env, cls.type is Exact, not own)
        pt, st, so = ms.get("MpiPickleThreshold"), ms.get("MpiSharedObjectStoreThreshold"), ms.get("MpiSharedObjectStore")
        if pt and st and so:
            # the shared threshold takes precedence while the shared object store is on
            base = pt.expected

            def expected():
                return st.expected() if so.expected()[1] else base()

            pt.expected = expected
        for _ in range(60):
            m = ms[rng.choice(names)]
            rng.choice([m.get, m.get, m.source, lambda: m.put(rng)])()
        return {"seed": seed, "parameters": len(names), "from environment": sum(m.env is not None for m in ms.values())}
    finally:
        for k in [k for k in os.environ if k.startswith("UNIDIST_")]:
            del os.environ[k]
        os.environ.update(old)


def own(seed):
    """new parameters of every type"""
    rng = random.Random(seed)
    c, P = fresh()
    n = "VERIF_CONFIG_TEST"
    os.environ.pop(n, None)
    for t in (str, P.ExactStr, bool, int, float):
        for choices in (None, ("one", "two")) if t is str else (None,):
            dflt = {str: "one", P.ExactStr: "D", bool: True, int: 3, float: 0.5}[t]
            cls = type("Own", (P.EnvironmentVariable,), {"varname": n, "default": dflt, "choices": choices}, type=t)
            env = None
            os.environ.pop(n, None)
            if rng.random() < 0.6:
                v, r = samples(rng, t, choices, t is P.ExactStr)
                if isinstance(v, str):
                    env, os.environ[n] = (v, r), v
            m = Model(cls, P, env, t is P.ExactStr, True)
            for _ in range(12):
                rng.choice([m.get, m.get, m.source, lambda: m.put(rng), lambda: m.put(rng)])()
    os.environ.pop(n, None)
    return {"seed": seed}


def runtime_env(seed):
    rng = random.Random(seed)
    c, P = fresh()
    R = getattr(c, "MpiRuntimeEnv", None)
    if R is None:
        raise Gap("no MpiRuntimeEnv")
    cur = R.get()
    for _ in range(20):
        v = rng.choice([{"env_vars": {"A": "1"}}, {"env_vars": {}}, {}, {"conda": 1}, {"env_vars": {"B": "x"}, "pip": []}])
        try:
            R.put(v)
        except NotImplementedError:
            ensure(set(v) - {"env_vars"}, "a valid runtime environment was rejected", value=v)
        else:
            ensure(not set(v) - {"env_vars"}, "an unsupported runtime environment was accepted", value=v)
            cur = v
        ensure(R.get() == cur, "another runtime environment is read than was set", got=R.get(), expected=cur)
    return {"seed": seed}


def threshold(seed):
    """what the serializer of a cluster uses"""
    from cases import CORE, in_root
    import numpy as np

    rng = random.Random(seed)
    a, b = rng.choice([0, 50, 500, 5000]), rng.choice([0, 80, 800, 8000])
    sh = rng.random() < 0.5
    env = {"UNIDIST_MPI_PICKLE_THRESHOLD": str(a), "UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD": str(b), "UNIDIST_MPI_SHARED_OBJECT_STORE": str(sh), "UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY": "30000000", "UNIDIST_MPI_SHARED_SERVICE_MEMORY": "16384"}
    t = b if sh else a

    def body(u, w):
        f = need(CORE + "serialization", "serialize_complex_data")
        for n in (t - 1, t, t + 1, 3 * t + 7):
            if n < 1:
                continue
            out = f({"x": np.zeros(n, dtype="int8")})["raw_buffers"]
            if n != t:
                ensure(bool(out) == (n > t), "the threshold in use is not the one that takes precedence", size=n, threshold=t, shared=sh, out_of_band=len(out))

    in_root(body, n=3, seed=seed, env=env)
    return {"seed": seed, "shared": sh, "thresholds": (a, b)}


if __name__ == "__main__":
    rep = Report("C16")
    rep.seed += 1600
    k = 3000 if rep.thorough else 400
    b = 200 if rep.thorough else 25
    cs = [(f"{f.__name__} #{g}", lambda f=f, g=g, d=d: batch([rep.seed * 1000 + g * 50000 + i for i in range(k // d)], f, b)) for f, d in ((history, 1), (own, 1), (runtime_env, 4), (threshold, 8)) for g in range(2)]
    rep.run(cs, procs=8, rule="random sequences of put, get and get_value_source on all parameters and on new ones of each type, with and without environment variables, valid and invalid values; distinct seeds")
