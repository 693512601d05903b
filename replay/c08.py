"""C08: contents, records and reference counts of shared memory."""
import gc
import pickle
import random

from rt import *
from cases import CORE, batch, in_root, mpi_cases
import prog

W = {"put": 7, "echo": 6, "multi": 2, "get": 3, "get_list": 3, "drop": 4, "settle": 3, "wait": 1, "async": 1, "fail": 0.5}


def records(w):
    """{(host, service index): (store of the monitor)} live service records, one list per host"""
    out = {}
    for r in range(w.n):
        mod = w.module(r, CORE + "shared_object_store")
        st = getattr(mod.SharedObjectStore, "_SharedObjectStore__instance", None)
        if st is None:
            raise Gap("no shared object store")
        out.setdefault(w.hosts[r], []).append((r, st, mod))
    return out


def at_rest(u, w, d):
    gc.collect()
    w.settle()
    for host, sts in records(w).items():
        buf = sts[0][1].service_shared_buffer
        if buf is None:
            raise Gap("shared memory is off")
        S = sts[0][2].SharedObjectStore
        n = S.INFO_SIZE
        held, fins, seen = {}, {}, {}
        for r, st, mod in sts:
            for i, info in list(st._shared_info.items()):
                k = info["service_index"]
                held.setdefault((i.owner_rank, i.data_number), []).append((r, k))
            for f in getattr(st, "finalizers", ()):
                if f.alive:
                    _, _, args, _ = f.peek()
                    fins[(str(args[0]), args[1])] = fins.get((str(args[0]), args[1]), 0) + 1
        for k in range(0, len(buf), n):
            rec = tuple(buf[k : k + n])
            if rec[S.WORKER_ID_INDEX] == -1:
                ensure(set(rec) == {-1}, "a free service record is not empty", host=host, record=rec)
                continue
            key = (rec[S.WORKER_ID_INDEX], rec[S.DATA_NUMBER_INDEX])
            ensure(key not in seen, "one object has two service records on a host", host=host, id=key)
            seen[key] = k
            cnt = rec[S.REFERENCES_NUMBER]
            ensure(cnt >= 0, "negative reference count", host=host, id=key, count=cnt)
            m = sum(v for (s, kk), v in fins.items() if kk == k and s.rstrip(")").endswith(f"rank_{key[0]}_id_{key[1]}"))
            ensure(cnt == m, "the reference count is not the number of acquisitions that are not dropped yet", host=host, id=key, count=cnt, acquisitions=m)
        for key, hs in held.items():
            for r, k in hs:
                rec = tuple(buf[k : k + n])
                ensure((rec[S.WORKER_ID_INDEX], rec[S.DATA_NUMBER_INDEX]) == key, "a process can read an object whose service record belongs to another one", id=key, rank=r, record=rec)
                ensure(rec[S.REFERENCES_NUMBER] >= 1, "the reference count is zero while a process can read the object", id=key, rank=r)


class Canary:
    pass


def layout(u, w, rng, steps=40):
    """writing and reading with arbitrary reservations in an otherwise marked memory"""
    mod = need(CORE + "shared_object_store")
    st = mod.SharedObjectStore.get_instance()
    ser = need(CORE + "serialization", "serialize_complex_data")
    MpiDataID = need(CORE + "common", "MpiDataID")
    S = mod.SharedObjectStore
    size = len(st.shared_buffer)
    nrec = len(st.service_shared_buffer) // S.INFO_SIZE
    ids = []
    for _ in range(steps):
        v = prog.make_value(rng)
        s = ser(v)
        i = MpiDataID(rng.choice([0, 1, 12]), rng.randrange(10**6))
        total = len(s["s_data"]) + sum(len(b) for b in s["raw_buffers"])
        slack = rng.choice([0, 0, 0, 5, -1, -total // 2 - 1])
        first = rng.randrange(0, size - total - 200)
        last = first + total + slack
        if last < first:
            continue
        srv = rng.randrange(nrec) * S.INFO_SIZE
        before = bytes(st.shared_buffer[max(0, first - 200) : last + total + 200])
        sbefore = list(st.service_shared_buffer)
        try:
            info = st._write_to_shared_buffer(i, {"first_index": first, "last_index": last, "service_index": srv}, s)
            ok = True
        except ValueError:
            ok = False
        after = bytes(st.shared_buffer[max(0, first - 200) : last + total + 200])
        lo = first - max(0, first - 200)
        ensure(before[:lo] == after[:lo], "bytes before the reservation were changed", first=first, last=last)
        ensure(before[lo + last - first :] == after[lo + last - first :], "bytes after the reservation were changed", first=first, last=last, size=total)
        ensure(ok == (slack >= 0), "data that fits was refused" if not ok else "data that does not fit was accepted", size=total, reservation=last - first)
        ensure(list(st.service_shared_buffer) == sbefore, "a service record was published before the data was complete")
        if not ok:
            continue
        ensure(info["s_data_len"] == len(s["s_data"]) and list(info["raw_buffers_len"]) == [len(b) for b in s["raw_buffers"]] and info["service_index"] == srv and info["id"] == i and list(info["buffer_count"]) == list(s["buffer_count"]), "the description does not match the data", info=dict(info))
        st._put_service_info(srv, i, first)
        rec = list(st.service_shared_buffer[srv : srv + S.INFO_SIZE])
        exp = [0] * S.INFO_SIZE
        exp[S.WORKER_ID_INDEX], exp[S.DATA_NUMBER_INDEX], exp[S.FIRST_DATA_INDEX], exp[S.REFERENCES_NUMBER] = i.owner_rank, i.data_number, first, 1
        ensure(rec == exp, "the service record does not describe the object", got=rec, expected=exp)
        sb = list(st.service_shared_buffer)
        sb[srv : srv + S.INFO_SIZE] = sbefore[srv : srv + S.INFO_SIZE]
        ensure(sb == sbefore, "another service record was changed")
        ensure(st._check_service_info(i, srv), "the record is not recognised as that of its object")
        j = MpiDataID(i.owner_rank, i.data_number + 1)
        ensure(not st._check_service_info(j, srv) and st.get_ref_number(j, srv) == 0, "the record of an object is taken for that of another one")
        ensure(st.get_ref_number(i, srv) == 1, "reference count after the first acquisition")
        got = st._read_from_shared_buffer(i, info)
        ensure(prog.same(got, v), "another value is read than was written", got=got, expected=v)
        st._increment_ref_number(i, srv)
        ensure(st.get_ref_number(i, srv) == 2, "reference count after two acquisitions")
        k = MpiDataID(i.owner_rank + 1, i.data_number)
        st._decrement_ref_number(str(k), srv)
        ensure(st.get_ref_number(i, srv) == 2, "dropping another object changed the reference count")
        st._decrement_ref_number(str(i), srv)
        ensure(st.get_ref_number(i, srv) == 1, "reference count after one of two acquisitions was dropped")
        snap = list(st.service_shared_buffer)
        try:
            st.delete_service_info(k, srv)
            raise Bad("the record of another object was deleted without an error")
        except RuntimeError:
            pass
        ensure(list(st.service_shared_buffer) == snap, "the record of another object was changed")
        st.delete_service_info(i, srv)
        snap[srv : srv + S.INFO_SIZE] = [-1] * S.INFO_SIZE
        ensure(list(st.service_shared_buffer) == snap, "deleting a record does not empty exactly that record")
        # the drop of an object whose record is gone changes nothing
        st._decrement_ref_number(str(i), srv)
        ensure(list(st.service_shared_buffer) == snap, "dropping an object whose record is gone changed a record")
        got = v = i = None
    for f in st.finalizers:
        f.detach()
    return steps


def publication(u, w, rng, steps=6):
    """the records as another process sees them after every single write: an object's record means that its data is there"""
    mod = need(CORE + "shared_object_store")
    st = mod.SharedObjectStore.get_instance()
    ser = need(CORE + "serialization", "serialize_complex_data")
    MpiDataID = need(CORE + "common", "MpiDataID")
    S, n = mod.SharedObjectStore, mod.SharedObjectStore.INFO_SIZE
    real = st.service_shared_buffer
    if real is None:
        raise Gap("shared memory is off")
    cur, keep = {}, []

    class Watch:
        def __getitem__(self, k):
            return real[k]

        def __len__(self):
            return len(real)

        def __setitem__(self, k, x):
            real[k] = x
            if isinstance(k, slice):
                return
            rec = real[k // n * n : k // n * n + n]
            if (rec[S.WORKER_ID_INDEX], rec[S.DATA_NUMBER_INDEX]) == cur["id"]:
                first = rec[S.FIRST_DATA_INDEX]
                ensure(first >= 0 and bytes(st.shared_buffer[first : first + len(cur["data"])]) == cur["data"], "the record of an object is published before its data is in place", id=cur["id"], record=list(rec))
                ensure(rec[S.REFERENCES_NUMBER] >= 1, "the record of an object is published without a reference to it", id=cur["id"], record=list(rec))
                cur["seen"] = True

    st.service_shared_buffer = Watch()
    try:
        for j in range(steps):
            s = ser(prog.make_value(rng))
            i = MpiDataID(0, 10**6 + j)
            keep.append(i)
            cur.update(id=(0, 10**6 + j), data=bytes(s["s_data"]) + b"".join(bytes(b) for b in s["raw_buffers"]), seen=False)
            st.put(i, s)
            ensure(cur["seen"], "an object that was put has no service record", id=cur["id"])
    finally:
        st.service_shared_buffer = real
    return steps


if __name__ == "__main__":
    rep = Report("C08")
    rep.seed += 8000
    k = 200 if rep.thorough else 15
    b = 200 if rep.thorough else 25
    cs = mpi_cases(rep, weights=W, shared=True, async_tasks=True, at_rest=[at_rest], groups=6)

    def case(g):
        sd = [rep.seed * 7000 + g * 1000 + i for i in range(k)]

        def run():
            def one(s):
                rng = random.Random(s)
                in_root(lambda u, w: layout(u, w, rng), env=prog.SHARED, seed=s)
                return {"seed": s}

            return batch(sd, one, b)

        return run

    cs += [(f"layout and records #{g}", case(g)) for g in range(2)]

    def pub():
        def one(s):
            in_root(lambda u, w: publication(u, w, random.Random(s)), env=prog.SHARED, seed=s)
            return {"seed": s}

        return batch([rep.seed * 9000 + i for i in range(k)], one, b)

    cs += [("publication of records", pub)]
    rep.run(cs, procs=8, rule="random values written with random reservations next to marked memory; random programs with shared memory on one and two hosts, records compared with what each process holds whenever the cluster is at rest")
