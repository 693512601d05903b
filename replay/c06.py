"""C06: identifiers."""
import gc
import pickle
import random

from rt import *
from cases import CORE, batch, in_root
import prog


class Collector:
    def __init__(self):
        self.got = []

    def collect(self, x):
        self.got.append(x)


def history(u, w, rng, steps=150):
    MpiDataID = need(CORE + "common", "MpiDataID")
    Store = need(CORE + "local_object_store", "LocalObjectStore")
    cpkl = need("cloudpickle")
    shared = need(CORE + "shared_object_store", "SharedObjectStore").get_instance()
    st, col = Store(), Collector()
    live, used, alive_foreign = [], {}, []
    base = 0
    me = 0
    for _ in range(steps):
        k = rng.randrange(8)
        if k <= 1 or not live:
            i = st.generate_data_id(col)
            new = [i]
        elif k == 2:
            n = rng.randrange(4)
            r = st.generate_output_data_id(rng.choice([1, 2, 3]), col, n)
            ensure((r is None) if n == 0 else (not isinstance(r, list)) if n == 1 else (isinstance(r, list) and len(r) == n), "wrong number of output identifiers", asked=n, got=r)
            new = [] if n == 0 else [r] if n == 1 else list(r)
            r = None
        else:
            new = []
        for i in new:
            key = (i.owner_rank, i.data_number)
            ensure(i.owner_rank == me, "an identifier does not carry the rank of its creator", got=i.owner_rank)
            ensure(key not in used, "an identifier is given out twice", id=key)
            ensure(all(i != j and not i == j for j in live), "two identifiers are equal", id=key)
            used[key] = 1
            live.append(i)
        i = j = new = None
        if k == 3 and live:
            i = rng.choice(live)
            for d in (pickle.loads(pickle.dumps(i)), cpkl.loads(cpkl.dumps(i))):
                ensure(d is i, "a restored identifier is another object although the original is alive", id=i)
            ensure(i._gc is col, "restoring an identifier changed the original", id=i)
        if k == 4:
            # identifiers of other processes
            r, n = rng.choice([1, 2, 11]), rng.randrange(30)
            f = MpiDataID(r, n)
            ensure(f == MpiDataID(r, n) and hash(f) == hash(MpiDataID(r, n)) and f is MpiDataID(r, n), "the same pair of numbers gives different identifiers", pair=(r, n))
            for o in live:
                ensure(o != f, "identifiers of different processes collide", a=o, b=f)
            s = pickle.dumps(f)
            f = None
            g = pickle.loads(s)
            ensure((g.owner_rank, g.data_number) == (r, n) and g == MpiDataID(r, n), "a restored identifier differs from the original", pair=(r, n), got=(g.owner_rank, g.data_number))
            g = None
            gc.collect()
            ensure(not any(x[0] == r for x in col.got), "an identifier is reported for cleanup by a process that did not create it")
        if k == 5 and live:
            i = rng.choice(live)
            if hasattr(shared, "_parse_data_id"):
                p = shared._parse_data_id(i)
                ensure(tuple(p) == (i.owner_rank, i.data_number), "the numbers written to shared memory are not those of the identifier", got=p, id=i)
            a, b = rng.choice(live), rng.choice(live)
            ensure((a == b) == (a is b) and (a != b) == (a is not b), "equality is not identity of the numbers", a=a, b=b)
            ensure(a != b or hash(a) == hash(b), "equal identifiers have different hashes")
            ensure(not (a == "x") and a != 5, "an identifier equals a foreign object")
            a = b = None
        if k == 6 and len(live) > 3:
            before = list(col.got)
            i = live.pop(rng.randrange(len(live)))
            key = (i.owner_rank, i.data_number)
            s = pickle.dumps(i)
            i = None
            gc.collect()
            ensure(col.got == before + [key], "dropping the last reference does not report the identifier exactly once", expected=key, got=col.got[len(before):])
            c = pickle.loads(s)
            ensure((c.owner_rank, c.data_number) == key, "a restored identifier differs from the original")
            n = len(col.got)
            c = None
            gc.collect()
            ensure(len(col.got) == n, "a restored copy is reported for cleanup", id=key)
        i = d = o = None
    return steps


def pairs(u, w):
    """identifiers for many ranks and numbers, all alive at once"""
    MpiDataID = need(CORE + "common", "MpiDataID")
    rs = list(range(0, 25)) + [100, 101, 110, 111, 999, 1000]
    ns = list(range(0, 130)) + [999, 1000, 1001, 1111, 10**6, 2**31, 2**40, 10**9, 10**12]
    got = {}
    for r in rs:
        for n in ns:
            i = MpiDataID(r, n)
            ensure((i.owner_rank, i.data_number) == (r, n), "an identifier does not carry its rank and number", pair=(r, n), got=(i.owner_rank, i.data_number))
            got[(r, n)] = i
    ensure(len({id(x) for x in got.values()}) == len(got), "two pairs of numbers share one identifier")
    ensure(len(set(got.values())) == len(got), "identifiers of different pairs are equal")
    for p, i in got.items():
        ensure((i.owner_rank, i.data_number) == p, "an identifier changed its numbers", pair=p, got=(i.owner_rank, i.data_number))
        ensure(MpiDataID(*p) is i, "the same pair of numbers gives another identifier", pair=p)
    return len(got)


def base_ids():
    """identifiers of the in-process backends"""
    DataID = need("unidist.core.backends.common.data_id", "DataID")
    is_data_id = need("unidist.core.backends.common.data_id", "is_data_id")
    m = Multi()

    def many():
        xs = [DataID() for _ in range(3000)]
        ensure(len(set(xs)) == len(xs) and len({hash(x) for x in xs}) > 2900, "generated identifiers collide")
        for x in xs[:50]:
            y = pickle.loads(pickle.dumps(x))
            ensure(y == x and hash(y) == hash(x) and not (y != x), "a restored identifier differs from the original", id=x)
            ensure(all(x != z for z in xs if z is not x), "different identifiers are equal")

    def given():
        for v in ("a", "b", "rank_0_id_1", "rank_0_id_11", "rank_01_id_1"):
            ensure(DataID(v) == DataID(v) and hash(DataID(v)) == hash(DataID(v)), "the same value gives different identifiers")
        vs = [DataID(v) for v in ("a", "b", "rank_0_id_1", "rank_0_id_11", "rank_01_id_1")]
        ensure(len(set(vs)) == 5, "different values give equal identifiers")
        for o in (1, "a", None, b"a"):
            ensure(DataID("a") != o and not is_data_id(o), "an identifier equals a foreign object")
        ensure(is_data_id(DataID("a")), "is_data_id is wrong")

    m.one("many", many)
    m.one("given", given)
    return m.result()


def program_ids(s):
    """identifiers that appear in a random program are pairwise different and those of one object are equal everywhere"""
    seen = {}

    def extra(u, w, d):
        for x in d.refs:
            k = (x.ref._ref.owner_rank, x.ref._ref.data_number)
            ensure(k not in seen or seen[k] is x.ref._ref, "two references share an identifier", id=k)
            seen[k] = x.ref._ref

    prog.mpi_program(s, steps=40, weights={"put": 5, "multi": 5, "echo": 5}, extra=extra, drop=True)
    return {"seed": s}


if __name__ == "__main__":
    rep = Report("C06")
    k = 400 if rep.thorough else 30
    b = 200 if rep.thorough else 25
    cs = [("generated identifiers", base_ids), ("identifiers of many ranks and numbers", lambda: batch([rep.seed], lambda s: in_root(pairs, seed=s) and {"seed": s}, b))]

    def case(g, env):
        sd = [rep.seed * 7000 + g * 1000 + i for i in range(k)]

        def run():
            def one(s):
                rng = random.Random(s)
                in_root(lambda u, w: history(u, w, rng), env=env, seed=s)
                return {"seed": s}

            return batch(sd, one, b)

        return run

    cs += [(f"histories of identifiers #{g}", case(g, prog.SHARED if g % 2 else {})) for g in range(4)]
    cs += [(f"programs #{g}", lambda g=g: batch([rep.seed * 9000 + g * 1000 + i for i in range(k)], program_ids, b)) for g in range(2)]
    rep.run(cs, procs=8, rule="random interleavings of identifier creation, pickling, restoring and dropping; all pairs compared")
