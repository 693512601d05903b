"""C03: what is stored is what is read.  Random programs plus histories on the stores themselves against a dictionary."""
import random

from rt import *
from cases import CORE, batch, in_root, inproc_cases, mpi_cases
import prog

W = {"put": 9, "get": 6, "get_list": 6, "drop": 3, "echo": 5, "multi": 2, "wait": 1, "settle": 1, "async": 1}


def local_store_history(u, w, rng, steps=120):
    """LocalObjectStore against one dictionary per kind of information"""
    cls = need(CORE + "local_object_store", "LocalObjectStore")
    ser = need(CORE + "serialization", "serialize_complex_data")
    deser = need(CORE + "serialization", "deserialize_complex_data")
    MpiDataID = need(CORE + "common", "MpiDataID")
    st = cls()
    data, owner, sent, cache, ids, tr = {}, {}, {}, {}, [], []
    for _ in range(steps):
        k = rng.randrange(9)
        if not ids or k == 0:
            if rng.random() < 0.6:
                ids.append(st.generate_data_id(None))
            else:
                ids.append(MpiDataID(rng.choice([1, 2, 7]), rng.randrange(50)))
            if ids[-1] in ids[:-1]:
                ids.pop()
            continue
        i = rng.choice(ids)
        if k == 1:
            v = prog.make_value(rng)
            st.put(i, v)
            data[i] = v
        elif k == 2:
            r = rng.randrange(5)
            st.put_data_owner(i, r)
            owner[i] = r
        elif k == 3:
            r = rng.randrange(5)
            st.cache_send_info(i, r)
            sent.setdefault(i, set()).add(r)
        elif k == 4:
            v = prog.make_value(rng)
            st.cache_serialized_data(i, ser(v))
            cache[i] = v
        elif k == 5 and len(ids) > 6:
            # the last reference goes away: nothing of the others changes
            ids.remove(i)
            for d in (data, owner, sent, cache):
                d.pop(i, None)
            st.clear([i])
        elif k == 6:
            cl = rng.sample(ids, min(2, len(ids)))
            st.clear(cl)  # drops the hold of this process, not what references still exist for
        for j in ids:
            ensure(st.contains(j) == (j in data), "contains() does not tell whether get() can answer", id=j)
            if j in data:
                ensure(prog.same(st.get(j), data[j]), "the store returns another value than the one put", id=j, got=st.get(j), expected=data[j])
            ensure(st.contains_data_owner(j) == (j in owner), "contains_data_owner() is wrong", id=j)
            if j in owner:
                ensure(st.get_data_owner(j) == owner[j], "wrong owner", id=j)
            for r in range(5):
                ensure(bool(st.is_already_sent(j, r)) == (r in sent.get(j, ())), "is_already_sent() is wrong", id=j, rank=r)
            ensure(bool(st.is_already_serialized(j)) == (j in cache), "is_already_serialized() is wrong", id=j)
            if j in cache and rng.random() < 0.2:
                s = st.get_serialized_data(j)
                for _ in range(2):
                    v = deser(s["s_data"], s["raw_buffers"], s["buffer_count"])
                    ensure(prog.same(v, cache[j]), "the serialized form of an object is another value", id=j, got=v, expected=cache[j])
    return steps


def forms_history(u, w, rng, steps=60):
    """ObjectStore: plain, cached and shared forms of an object"""
    os_ = need(CORE + "object_store", "ObjectStore").get_instance()
    local = need(CORE + "local_object_store", "LocalObjectStore").get_instance()
    ser = need(CORE + "serialization", "serialize_complex_data")
    shared = need(CORE + "shared_object_store", "SharedObjectStore").get_instance()
    MpiDataID = need(CORE + "common", "MpiDataID")
    val = {}
    none = MpiDataID(0, 10**6)
    for k in range(steps):
        i = local.generate_data_id(None)
        v = prog.make_value(rng)
        form = rng.randrange(4)
        if form == 0:
            local.put(i, v)
        elif form == 1:
            local.cache_serialized_data(i, ser(v))
        elif form == 2:
            local.put(i, v)
            local.cache_serialized_data(i, ser(v))
        else:
            s = ser(v)
            if shared.is_allocated() and shared.should_be_shared(s):
                shared.put(i, s)
            else:
                local.put(i, v)
        val[i] = v
        for j in rng.sample(list(val), min(5, len(val))):
            ensure(os_.contains(j), "the store does not contain an object that was stored", id=j)
            for _ in range(2):
                ensure(prog.same(os_.get(j), val[j]), "the store returns another value than the one stored", id=j, got=os_.get(j), expected=val[j])
        if rng.random() < 0.3 and len(val) > 10:
            del val[rng.choice(list(val))]
        ensure(not os_.contains(none), "the store contains an object that was never stored")
        try:
            os_.get(none)
            raise Bad("reading an object that was never stored does not fail")
        except (ValueError, KeyError):
            pass
    return steps


def unit_case(fn, env, seeds, budget):
    def run():
        def one(s):
            rng = random.Random(s)
            in_root(lambda u, w: fn(u, w, rng), env=env, seed=s)
            return {"seed": s}

        return batch(seeds, one, budget)

    return run


def seq_store(mod, seeds, budget):
    """put and get of the in-process stores"""

    def run():
        cls = need(mod, "ObjectStore")

        def one(s):
            rng = random.Random(s)
            st = cls.get_instance()
            val = {}
            for _ in range(60):
                v = prog.make_value(rng)
                val[st.put(v)] = v
                for j in rng.sample(list(val), min(4, len(val))):
                    ensure(prog.same(st.get(j), val[j]), "the store returns another value than the one put", got=st.get(j), expected=val[j])
                js = [rng.choice(list(val)) for _ in range(rng.randrange(4))]
                got = st.get(js)
                ensure(isinstance(got, list) and len(got) == len(js) and all(prog.same(a, val[j]) for a, j in zip(got, js)), "get of a list does not return the values in order", got=got)
            return {"seed": s}

        return batch(seeds, one, budget)

    return run


if __name__ == "__main__":
    rep = Report("C03")
    rep.seed += 2000
    k = 300 if rep.thorough else 25
    b = 200 if rep.thorough else 25
    sd = [rep.seed * 1000 + i for i in range(k)]
    cs = mpi_cases(rep, weights=W, async_tasks=True, wait_put=True, groups=5)
    cs += [("histories of LocalObjectStore", unit_case(local_store_history, {}, sd, b)), ("forms of an object", unit_case(forms_history, {"UNIDIST_MPI_PICKLE_THRESHOLD": "100"}, sd, b)), ("forms of an object, shared", unit_case(forms_history, prog.SHARED, sd, b))]
    cs += [("pyseq store", seq_store("unidist.core.backends.pyseq.core.object_store", sd * 4, b)), ("pymp store", seq_store("unidist.core.backends.pymp.core.object_store", sd, b))]
    cs += inproc_cases(rep, weights=W)
    rep.run(cs, procs=8, rule="random API programs, and random histories of puts, reads, sends and drops on the stores, against dictionaries")
