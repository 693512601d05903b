"""C10: serialization and its inverse."""
import collections
import datetime
import decimal
import enum
import functools
import gc
import random
import sys

from rt import *
from cases import CORE, batch, in_root
import prog
import numpy as np
import pandas as pd


class Colour(enum.Enum):
    RED = 1
    BLUE = "b"


Point = collections.namedtuple("Point", "x y")


class Node:
    def __init__(self, v, kids):
        self.v, self.kids = v, kids

    def __eq__(self, o):
        return type(o).__name__ == "Node" and same(self.v, o.v) and same(self.kids, o.kids)

    def total(self):
        return len(self.kids)


class Err(Exception):
    pass


def add(a, b=2):
    return a + b


def same(a, b):
    if isinstance(a, Node) or isinstance(b, Node):
        return type(a).__name__ == type(b).__name__ and a == b
    if isinstance(a, Local) and isinstance(b, type(a).__mro__[0]) is False:
        return type(a).__name__ == type(b).__name__ and same(a.v, b.v)
    if type(a) is not type(b) and type(a).__name__ != type(b).__name__:
        return False
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.tobytes() == b.tobytes()
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b) and (not isinstance(a, pd.DataFrame) or list(a.columns) == list(b.columns)) and list(a.index) == list(b.index)
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return repr(a) == repr(b)
    if isinstance(a, BaseException):
        return same(a.args, b.args)
    if isinstance(a, type):
        return a.__name__ == b.__name__
    if isinstance(a, functools.partial):
        return same(a.args, b.args) and a.keywords == b.keywords and same(a.func, b.func)
    if hasattr(a, "__code__") or hasattr(a, "__func__"):
        return a.__code__.co_code == b.__code__.co_code and a.__name__ == b.__name__
    if isinstance(a, (set, frozenset)) and any(callable(x) for x in a):
        return len(a) == len(b)
    if isinstance(a, type({}.keys())):
        return list(a) == list(b)
    return a == b


class Local:
    pass


KEYS = [0, 1, -5, "a", "key", b"k", None, True, 1.5, (1, 2), Point(1, 2), 2**70, frozenset([1]), Colour.RED, datetime.date(2020, 1, 1), ""]


def value(rng, depth, size):
    k = rng.randrange(34)
    A = lambda dt: np.random.RandomState(rng.randrange(9999)).randint(0, 100, rng.choice(size)).astype(dt)
    if k == 0:
        return rng.choice([0, -1, 2**31, 2**63 - 1, 2**63, 2**64 - 1, 2**64, -(2**63), -(2**63) - 1, 10**30])
    if k == 1:
        return rng.choice([0.0, -0.0, 1e308, float("inf"), float("nan"), 1.1])
    if k == 2:
        return rng.choice(["", "x", "ж\u4e2d\U0001f600", "a" * 300, b"", b"\x00\xff", b"z" * 70000])
    if k == 3:
        return rng.choice([None, True, False, Ellipsis, NotImplemented, 3 + 4j, range(2, 9, 3), slice(1, None, 2)])
    if k in (4, 5, 6, 7):
        return A(rng.choice(["int64", "float32", "uint8", "bool", "complex128", "int16", "datetime64[ns]"]))
    if k == 8:
        return np.asfortranarray(np.arange(rng.choice(size) * 2).reshape(2, -1))
    if k == 9:
        return np.arange(rng.choice(size) * 2)[::2]
    if k == 10:
        return np.array(["a", None, 3, (1, 2)], dtype=object)
    if k == 11:
        return rng.choice([np.float64(1.5), np.int8(3), np.array(5), np.zeros((0, 3)), np.array(["ab", "c"]), np.zeros(3, dtype=[("a", "i4"), ("b", "f8")])])
    if k in (12, 13):
        n = rng.choice(size)
        return pd.DataFrame({"a": np.arange(n), "b": np.arange(n) / 3, "c": ["s%d" % i for i in range(n)]}, index=range(5, n + 5))
    if k == 14:
        n = rng.choice(size)
        return pd.Series(np.arange(n), name="q", index=[f"i{j}" for j in range(n)])
    if k == 15:
        return pd.DataFrame({"t": pd.date_range("2020", periods=3), "k": pd.Categorical(["x", "y", "x"])})
    if k == 16:
        return rng.choice([lambda x: x + 1, add, functools.partial(add, 5), len, np.add, Node([1], {}).total])
    if k == 17:
        y = rng.randrange(100)

        def inner(z):
            return y + z

        return inner
    if k == 18:
        class Loc(Local):
            def __init__(self):
                self.v = rng.randrange(50)

        return rng.choice([Node, int, Loc, Colour])
    if k == 19:
        return rng.choice([Colour.BLUE, Point(1, [2]), decimal.Decimal("1.10"), datetime.datetime(2021, 2, 3), collections.OrderedDict(a=1), collections.deque([1, 2]), ValueError("a", 1), Err("x"), KeyError("k")])
    if k == 20:
        return rng.choice([set(), {1, "a"}, frozenset([3]), {(1, 2), None}, {lambda: 1}, (lambda: 2,), ([], {}), ()])
    if k == 21:
        return {"a": 1, "b": 2}.keys()
    if depth <= 0:
        return rng.randrange(1000)
    n = rng.choice([0, 1, 2, 3, 5])
    sub = lambda: value(rng, depth - 1, size)
    if k in (22, 23, 24, 25):
        return [sub() for _ in range(n)]
    if k in (26, 27):
        return tuple(sub() for _ in range(n))
    if k in (28, 29, 30, 31):
        return {x: sub() for x in rng.sample(KEYS, n)}
    return Node(sub(), [sub()])


def sizes_of(thr):
    it = max(1, thr // 8)
    return [0, 1, 3, max(0, it - 1), it, it + 1, 2 * it + 3] if thr < 10**5 else [0, 1, 1000, thr // 8 - 1, thr // 8, thr // 8 + 1]


def trial(mod, rng, thr, transport):
    v = value(rng, 3, sizes_of(thr))
    s = mod.serialize_complex_data(v)
    ensure(set(s) >= {"s_data", "raw_buffers", "buffer_count"}, "serialized form is incomplete", keys=sorted(s))
    ensure(sum(s["buffer_count"]) == len(s["raw_buffers"]), "recorded buffer counts do not add up to the buffers emitted", counts=list(s["buffer_count"]), buffers=len(s["raw_buffers"]))
    for b in s["raw_buffers"]:
        ensure(memoryview(b).nbytes >= thr, "a buffer below the threshold travels outside of the message", size=memoryview(b).nbytes, threshold=thr)
    copies = [bytes(b) for b in s["raw_buffers"]]
    sd, bc = bytes(s["s_data"]), list(s["buffer_count"])
    rb = s["raw_buffers"]
    if transport:  # what a receiver has: its own memory
        rb = [bytearray(c) for c in copies]
    kept_rb, kept_bc = list(rb), list(bc)
    for _ in range(2):
        got = mod.deserialize_complex_data(s["s_data"], rb, s["buffer_count"])
        ensure(same(v, got), "the deserialized object differs", value=v, got=got, counts=bc)
        ensure(gc.isenabled(), "garbage collection is left disabled")
    ensure(len(rb) == len(kept_rb) and all(x is y for x, y in zip(rb, kept_rb)) and list(s["buffer_count"]) == kept_bc and bytes(s["s_data"]) == sd and [bytes(b) for b in s["raw_buffers"]] == copies, "reading damaged the serialized data", buffers=len(rb), before=len(kept_rb))
    return v


def external(mod, rng, thr):
    """a plain array: outside of the message exactly if it is not below the threshold"""
    for n in sizes_of(thr):
        for k in (1, 2, 3):
            v = [np.random.RandomState(n).bytes(8 * n + j) for j in range(k)]
            arrs = [np.frombuffer(x, dtype=np.uint8) for x in v]
            s = mod.serialize_complex_data(arrs)
            exp = [int(a.nbytes >= thr) for a in arrs]
            ensure(list(s["buffer_count"]) == exp, "arrays below the threshold travel inside of the message, larger ones outside", sizes=[a.nbytes for a in arrs], threshold=thr, counts=list(s["buffer_count"]))
            ensure([bytes(b) for b in s["raw_buffers"]] == [v[i] for i in range(k) if exp[i]], "buffers are not emitted in the order of their objects")


def simple(mod, rng):
    S = mod.SimpleDataSerializer
    for v in [1, "a", None, {"x": [1, 2]}, (1, 2), np.arange(4), lambda x: x * 2, add, Node(1, [2])]:
        ensure(same(v, S().deserialize_cloudpickle(S().serialize_cloudpickle(v))), "cloudpickle round trip", value=v)
        if not (callable(v) and v is not add):
            ensure(same(v, S().deserialize_pickle(S().serialize_pickle(v))), "pickle round trip", value=v)


FIND = [
    ("C10-bytearray", bytearray(b"ab"), "a bytearray"),
    ("C10-reserved-key", {"__cloud_custom__": 1, "as_bytes": b""}, "a dictionary with the key __cloud_custom__"),
    ("C10-reserved-key", {"__pickle_custom__": 2}, "a dictionary with the key __pickle_custom__"),
    ("C10-reserved-key", {"__pickle5_custom__": 2}, "a dictionary with the key __pickle5_custom__"),
]


def known(mod, M):
    def rt(v):
        s = mod.serialize_complex_data(v)
        try:
            g = mod.deserialize_complex_data(s["s_data"], s["raw_buffers"], s["buffer_count"])
        except Exception as e:
            gc.enable()
            raise Bad(f"does not round trip: {type(e).__name__}")
        ensure(same(v, g), "does not round trip", got=g)

    for f, v, n in FIND:
        M.one(n, rt, v, finding=f)


def case(thr, seed, k, budget, shared=False):
    def run():
        M = Multi()

        def inside(u, w):
            mod = need(CORE + "serialization")
            thr_ = mod.ComplexDataSerializer.PICKLE_THRESHOLD if hasattr(mod, "ComplexDataSerializer") and hasattr(mod.ComplexDataSerializer, "PICKLE_THRESHOLD") else thr
            ensure(thr_ == thr, "the configured threshold is not used", configured=thr, used=thr_)
            t0 = time.time()
            M.one("thresholds", external, mod, random.Random(seed), thr)
            M.one("simple serializer", simple, mod, random.Random(seed))
            if seed % 1000 == 0:
                known(mod, M)
            for i in range(k):
                if time.time() - t0 > budget:
                    break
                tick((thr, seed + i))
                M.one((thr, seed + i), trial, mod, random.Random(seed + i), thr, i % 2)

        env = {"UNIDIST_MPI_PICKLE_THRESHOLD": str(thr)}
        if shared:
            env = dict(prog.SHARED, UNIDIST_MPI_PICKLE_THRESHOLD="7", UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD=str(thr))
        in_root(inside, env=env)
        return M.result()

    return run


if __name__ == "__main__":
    rep = Report("C10")
    k = 40000 if rep.thorough else 2500
    b = 240 if rep.thorough else 14
    cs = []
    for j, (t, sh) in enumerate([(0, 0), (100, 0), (1000, 0), (1000, 1), (250 * 1024, 0), (1, 0)]):
        cs.append((f"round trips threshold={t}{' shared' if sh else ''}", case(t, rep.seed * 10**6 + j * 10**5, k, b, sh)))
    rep.run(cs, procs=6, rule="random nested containers of arrays, frames, functions, classes, instances, keys and scalars at and around the threshold; each serialized once and deserialized twice; distinct (threshold, seed)")
