"""C08: shared memory holds what was written, inside the reservation, while it is used."""
from contracts.store import *

UNITS = []
NOTE = (
    "Proof, for all reservations, sizes, numbers of buffers and contents of the service table, of the SharedObjectStore methods: writing stays inside the reservation and puts every byte in its place, reading uses the same places, "
    "service records are changed only for their object and published after the data, reference counts are raised and lowered symmetrically; the allocator is proved under C07 and the copy under C09. Whole clusters are run (bounded). "
    "Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = [
    "MPI windows give all processes of a host the same memory; Lock/Unlock exclude each other; memory is sequentially consistent (the service records are polled without the lock)",
    "weakref.finalize calls its function once, when the object is dropped",
    "the textual form of an identifier determines its rank and number (_parse_data_id is run by the bounded check only)",
    "parallel_memcopy copies exactly (C09), deserialize(serialize(v)) is v (C10), the monitor hands out disjoint reservations (C07)",
]
SOS = MPI + "shared_object_store"
LEN_ = z3.Function("len_", U, IntS)


def parse(it, v):
    i = v["data_id"]
    t = i.t if isinstance(i, Sym) else None
    if t is None:
        raise Unsupported("identifier in another form")
    if t.decl().name() == "id_str":
        t = t.arg(0)
    return it.mktuple([Sym(OWNER(t), "int"), Sym(NUMBER(t), "int")])


class Win(Native):
    """an MPI window: its lock"""

    def __init__(self, log):
        self.log = log

    def m_Lock(self, it, rank):
        it.p.check("the lock is not taken twice", not self.log or self.log[-1] != "lock")
        self.log.append("lock")

    def m_Unlock(self, it, rank):
        it.p.check("the lock is released by its holder", self.log and self.log[-1] == "lock")
        self.log.append("unlock")


class Cells(Native):
    """the service table; writes are recorded in order"""

    def __init__(self, p, lock, n):
        self.f_arr = ArrObj(n, p.fresh("service", z3.ArraySort(IntS, IntS)), EInt)
        p.reg(self.f_arr)
        self.writes, self.lock = [], lock
        self.first = self.f_arr.arr

    def getitem(self, it, i):
        return Sym(self.f_arr.arr[intt(i)], "int")

    def setitem(self, it, i, v):
        it.p.check("the service table is changed only under the lock", bool(self.lock) and self.lock[-1] == "lock")
        self.f_arr.arr = z3.Store(self.f_arr.arr, intt(i), intt(v))
        self.writes.append((intt(i), intt(v), self.f_arr.arr))


def store(p, it):
    it.summaries[SOS + ":SharedObjectStore._parse_data_id"] = parse
    it.attr_hook = data_id_attr
    it.gover[(MPI + "communication", "MPIState")] = Single(MState(p.int("own_rank")))
    fin = p.bool("finalized")
    it.ext["mpi4py"] = ExtModule("mpi4py")

    class MPIm(Native):
        def m_Is_finalized(self, it_):
            return False

    it.gover[(SOS, "MPI")] = MPIm()
    cls = glob(it, SOS, "SharedObjectStore")
    o = new(it, cls)
    lock = []
    n = p.int("service_size").t
    cells = Cells(p, lock, n)
    fins = []

    class WR(Native):
        def m_finalize(self, it_, obj, f, *a):
            fins.append((obj, f, a))
            return p.u("finalizer")

        def m_proxy(self, it_, x):
            return x

    it.gover[(SOS, "weakref")] = WR()
    it.gover[(MPI + "common", "weakref")] = WR()
    it.gover[(SOS, "str")] = Builtin("str", lambda i, a, k: Sym(z3.Function("id_str", U, U)(a[0].t), "u", "str") if isinstance(a[0], Sym) else "text")
    o.attrs.update(service_win=Win(lock), service_shared_buffer=cells, logger=Ignore(), finalizers=p.reg(ListObj(items=[])), win=Win([]))
    o.attrs["_shared_info"] = sym_dict(it, "_shared_info", EU(None), keyty="MpiDataID", notnone=True)
    idx = {k: it.getattr(o, k) for k in ("WORKER_ID_INDEX", "DATA_NUMBER_INDEX", "FIRST_DATA_INDEX", "REFERENCES_NUMBER", "INFO_SIZE")}
    p.check("the fields of a service record are distinct and inside the record", sorted(list(idx.values())[:4]) == sorted(set(list(idx.values())[:4])) and all(0 <= idx[k] < idx["INFO_SIZE"] for k in list(idx)[:4]))
    return o, cells, lock, fins, idx


def record(cells, idx, si, arr=None):
    a = cells.f_arr.arr if arr is None else arr
    return {k: a[si + idx[k]] for k in list(idx)[:4]}


def balanced(p, lock):
    p.check("the lock is released", len(lock) % 2 == 0)


@unit(UNITS, "SharedObjectStore._put_service_info")
def u_put_info(p):
    it = Interp(p)
    o, cells, lock, fins, idx = store(p, it)
    i, si, first = p.u("data_id", "MpiDataID"), p.int("service_index"), p.int("first_index")
    c = p.int("cell").t
    k, r = call_catch(it, meth(it, o, "_put_service_info"), [si, i, first])
    p.check("no exception", k == "ret")
    R = record(cells, idx, si.t)
    p.check("the record names the object", z3.And(R["WORKER_ID_INDEX"] == OWNER(i.t), R["DATA_NUMBER_INDEX"] == NUMBER(i.t)))
    p.check("the record says where the data is", R["FIRST_DATA_INDEX"] == first.t)
    p.check("the object has one user", R["REFERENCES_NUMBER"] == 1)
    p.check("no other record is changed", z3.Implies(z3.Or(c < si.t, c >= si.t + idx["INFO_SIZE"]), cells.f_arr.arr[c] == cells.first[c]))
    balanced(p, lock)
    # other processes poll the record without the lock: as soon as both fields of the identifier are there, the rest is
    p.assume(z3.Not(z3.And(cells.first[si.t + idx["WORKER_ID_INDEX"]] == OWNER(i.t), cells.first[si.t + idx["DATA_NUMBER_INDEX"]] == NUMBER(i.t))))
    for _, _, a in cells.writes:
        S = record(cells, idx, si.t, a)
        p.check("published only when complete", z3.Implies(z3.And(S["WORKER_ID_INDEX"] == OWNER(i.t), S["DATA_NUMBER_INDEX"] == NUMBER(i.t)), z3.And(S["FIRST_DATA_INDEX"] == first.t, S["REFERENCES_NUMBER"] == 1)))
    check_fin(p, it, o, fins, i, si)
    p.post()


def check_fin(p, it, o, fins, i, si):
    p.check("the use ends once, when the identifier is dropped", len(fins) == 1)
    if len(fins) == 1:
        obj, f, a = fins[0]
        p.check("bound to the identifier", obj is i)
        ok = isinstance(f, Bound) and f.self_ is o and getattr(f.fn, "name", "") == "_decrement_ref_number" and len(a) == 2
        if not ok:
            raise Unsupported("finalizer in another form")
        p.check("for this object and record", z3.And(intt(a[1]) == si.t, (a[0].t == z3.Function("id_str", U, U)(i.t)) if isinstance(a[0], Sym) and a[0] is not i else z3.BoolVal(False)))


@unit(UNITS, "SharedObjectStore._increment_ref_number")
def u_inc(p):
    it = Interp(p)
    o, cells, lock, fins, idx = store(p, it)
    i, si, c = p.u("data_id", "MpiDataID"), p.int("service_index"), p.int("cell").t
    k, r = call_catch(it, meth(it, o, "_increment_ref_number"), [i, si])
    p.check("no exception", k == "ret")
    ref = si.t + idx["REFERENCES_NUMBER"]
    p.check("the number of users is raised by one, nothing else", cells.f_arr.arr[c] == cells.first[c] + z3.If(c == ref, 1, 0))
    balanced(p, lock)
    check_fin(p, it, o, fins, i, si)
    p.post()


@unit(UNITS, "SharedObjectStore._decrement_ref_number / _check_service_info / get_ref_number")
def u_dec(p):
    it = Interp(p)
    o, cells, lock, fins, idx = store(p, it)
    i, si, c = p.u("data_id", "MpiDataID"), p.int("service_index"), p.int("cell").t
    R = record(cells, idx, si.t)
    mine = z3.And(R["WORKER_ID_INDEX"] == OWNER(i.t), R["DATA_NUMBER_INDEX"] == NUMBER(i.t))
    ck = it.call(meth(it, o, "_check_service_info"), [i, si])
    p.check("a record belongs to an object exactly if it names it", boolt(ck) == mine)
    n = it.call(meth(it, o, "get_ref_number"), [i, si])
    p.check("the number of users is that of the record, or none for another object", intt(n) == z3.If(mine, R["REFERENCES_NUMBER"], 0))
    p.check("reading changes nothing", not cells.writes)
    s = Sym(z3.Function("id_str", U, U)(i.t), "u", "str")
    k, r = call_catch(it, meth(it, o, "_decrement_ref_number"), [s, si])
    p.check("no exception", k == "ret")
    ref = si.t + idx["REFERENCES_NUMBER"]
    p.check("the number of users of the object's own record is lowered by one, nothing else", cells.f_arr.arr[c] == cells.first[c] - z3.If(z3.And(c == ref, mine), 1, 0))
    balanced(p, lock)
    p.check("no further finalizer", not fins)
    p.post()


@unit(UNITS, "SharedObjectStore.delete_service_info")
def u_del(p):
    it = Interp(p)
    o, cells, lock, fins, idx = store(p, it)
    i, si, c, other = p.u("data_id", "MpiDataID"), p.int("service_index"), p.int("cell").t, p.u("other", "MpiDataID").t
    R = record(cells, idx, si.t)
    mine = z3.And(R["WORKER_ID_INDEX"] == OWNER(i.t), R["DATA_NUMBER_INDEX"] == NUMBER(i.t))
    p.assume(z3.And(OWNER(other) >= 0, NUMBER(other) >= 0))
    k, r = call_catch(it, meth(it, o, "delete_service_info"), [i, si])
    p.check("deleted exactly if the record belongs to the object", boolt(k == "ret") == mine)
    balanced(p, lock)
    a = cells.f_arr.arr
    if k == "ret":
        p.check("no other record is changed", z3.Implies(z3.Or(c < si.t, c >= si.t + idx["INFO_SIZE"]), a[c] == cells.first[c]))
        S = record(cells, idx, si.t)
        p.check("the record belongs to no object afterwards", z3.Not(z3.And(S["WORKER_ID_INDEX"] == OWNER(other), S["DATA_NUMBER_INDEX"] == NUMBER(other))))
        p.cover("deleted")
    else:
        p.check("the record of another object is not changed", a[c] == cells.first[c])
        p.cover("refused")
    p.post()


@unit(UNITS, "SharedObjectStore._write_to_shared_buffer", budget=150)
def u_write(p):
    it = Interp(p)
    o, cells, lock, fins, idx = store(p, it)
    n, first, last, si = p.int("memory"), p.int("first_index"), p.int("last_index"), p.int("service_index")
    p.assume(z3.And(0 <= first.t, first.t <= last.t, last.t <= n.t))
    buf = p.reg(ArrObj(n.t, p.fresh("memory", z3.ArraySort(IntS, U)), EU("byte")))
    mem0 = buf.arr
    o.attrs["shared_buffer"] = buf
    sl = p.int("s_data_len")
    p.assume(sl.t >= 0)
    sd = p.reg(ArrObj(sl.t, p.fresh("s_data", z3.ArraySort(IntS, U)), EU("byte")))
    s0 = sd.arr
    raw = symlist(it, "raw_buffers", EU("buffer"))
    bc = symlist(it, "buffer_count", EInt)
    y, j = z3.Const("y!l", U), z3.Int("j!w")
    p.assume(z3.ForAll([y], LEN_(y) >= 0, patterns=[LEN_(y)]))
    PS = z3.Function("total_before", IntS, IntS)
    p.assume(PS(0) == 0)
    p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < raw.n), PS(j + 1) == PS(j) + LEN_(raw.arr[j])), patterns=[raw.arr[j]]))
    p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= raw.n), z3.And(PS(j) >= 0, PS(j) <= PS(raw.n))), patterns=[PS(j)]))
    BYTE = z3.Function("byte_of", U, IntS, U)
    it.gover[(SOS, "len")] = Builtin("len", lambda i, a, k: Sym(LEN_(a[0].t), "int") if isinstance(a[0], Sym) else it.wrapn(length(it, a[0])))

    def copy(i, a, k):
        src, dst = a[0], a[1]
        i.p.check("source and destination of a copy have the same length", LEN_(src.t) == zt(dst.n))
        i.p.check("a copy has at least one thread", intt(a[2]) >= 1)
        from pyvc.containers import arr_write

        arr_write(i, dst, 0, dst.n, lambda q_: BYTE(src.t, q_))

    it.gover[(SOS, "parallel_memcopy")] = Builtin("parallel_memcopy", copy)
    base = first.t + sl.t
    c, q, off, so = p.int("cell").t, p.int("buffer_index").t, p.int("offset").t, p.int("s_offset").t
    p.assume(z3.And(0 <= q, q < raw.n, 0 <= off, off < LEN_(raw.arr[q]), 0 <= so, so < sl.t)) if p.choose(2) else None
    total = sl.t + PS(raw.n)
    some = z3.And(0 <= q, q < raw.n, 0 <= off, off < LEN_(raw.arr[q]))
    outside = z3.Or(c < first.t, c >= last.t)

    def inv(it_, s, k):
        out = [
            ("outside", z3.Implies(outside, buf.arr[c] == mem0[c])),
            ("main part", z3.Implies(z3.And(0 <= so, so < sl.t), buf.arr[first.t + so] == s0[so])),
            ("buffer", z3.Implies(z3.And(some, q < k), z3.And(PS(q) + LEN_(raw.arr[q]) <= PS(k), buf.arr[base + PS(q) + off] == BYTE(raw.arr[q], off)))),
            ("fits", base + PS(k) <= last.t),
        ]
        for nm, v in locals_int(s):
            out.append((f"{nm}: next place", intt(v) == base + PS(k)))
        for nm, l in local_lists(s):
            if l is raw or l is bc or l.tup:
                continue
            a, m = view(it_, l, EInt)
            if a is not None:
                out.append((f"{nm}: lengths", z3.And(m == k, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), a[j] == LEN_(raw.arr[j]))))))
        return out

    it.inv.append(inv)
    i = p.u("data_id", "MpiDataID")
    res = p.reg(DictObj(items={"first_index": first, "last_index": last, "service_index": si}))
    ser = p.reg(DictObj(items={"s_data": sd, "raw_buffers": raw, "buffer_count": bc}))
    it.summaries[MPI + "common:MetadataPackage.get_shared_info"] = lambda it_, v: it_.p.reg(DictObj(items={k: v[k] for k in ("data_id", "s_data_len", "raw_buffers_len", "buffer_count", "service_index")}))
    k, r = call_catch(it, meth(it, o, "_write_to_shared_buffer"), [i, res, ser])
    p.check("nothing outside of the reservation is written", z3.Implies(outside, buf.arr[c] == mem0[c]))
    p.check("refused exactly if it does not fit", boolt(k == "ret") == (total <= last.t - first.t))
    if k == "ret":
        p.check("the main part is in place", z3.Implies(z3.And(0 <= so, so < sl.t), buf.arr[first.t + so] == s0[so]))
        p.check("each byte of each buffer is in its place", z3.Implies(some, buf.arr[base + PS(q) + off] == BYTE(raw.arr[q], off)))
        d = r.items
        p.check("the description has the length of the main part", intt(d["s_data_len"]) == sl.t)
        a, m = view(it, d["raw_buffers_len"], EInt)
        p.check("and the lengths of the buffers in order", z3.And(m == raw.n, z3.Implies(z3.And(0 <= q, q < raw.n), a[q] == LEN_(raw.arr[q]))))
        p.check("and the buffer counts", d["buffer_count"] is bc)
        p.check("and the record", boolt(it.equal(d["service_index"], si)))
        p.check("of the object", d["data_id"] is i)
        p.cover("written")
    else:
        p.cover("refused")
    p.check("the service table is not touched", not cells.writes)
    p.post()


@unit(UNITS, "SharedObjectStore._read_from_shared_buffer", budget=100)
def u_read(p):
    it = Interp(p)
    o, cells, lock, fins, idx = store(p, it)
    VIEW = z3.Function("memory_range", IntS, IntS, U)

    class Mem(Native):
        def getitem(self, it_, s):
            if not isinstance(s, Slice) or s.step is not None:
                raise Unsupported("access to the memory in another form")
            return Sym(VIEW(intt(s.lo), intt(s.hi)), "u", "view")

    def attr(it_, v, nm):
        if isinstance(v, Sym) and v.ty == "view":
            if nm == "cast":
                return Builtin("cast", lambda i, a, k: v)
            if nm == "toreadonly":
                return Builtin("toreadonly", lambda i, a, k: Sym(v.t, "u", "readonly"))
        return data_id_attr(it_, v, nm)

    it.attr_hook = attr
    o.attrs["shared_buffer"] = Mem()
    lens, bc = symlist(it, "raw_buffers_len", EInt), p.u("buffer_count")
    sl, si = p.int("s_data_len"), p.int("service_index")
    info = p.reg(DictObj(items={"raw_buffers_len": lens, "buffer_count": bc, "s_data_len": sl, "service_index": si, "id": p.u("id")}))
    PS = z3.Function("total_before", IntS, IntS)
    j = z3.Int("j!r")
    p.assume(PS(0) == 0)
    p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lens.n), PS(j + 1) == PS(j) + lens.arr[j]), patterns=[lens.arr[j]]))
    first = record(cells, idx, si.t)["FIRST_DATA_INDEX"]
    base = first + sl.t
    got, data = [], p.u("data")

    def deser(it_, v):
        got.append(v)
        return data

    it.summaries[MPI + "serialization:deserialize_complex_data"] = deser

    def inv(it_, s, k):
        out = []
        for nm, v in locals_int(s):
            out.append((f"{nm}: next place", intt(v) == base + PS(k)))
        for nm, l in local_lists(s):
            if l is lens or l.tup:
                continue
            a, m = view(it_, l, EU("readonly"))
            if a is not None:
                out.append((f"{nm}: ranges", z3.And(m == k, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), a[j] == VIEW(base + PS(j), base + PS(j) + lens.arr[j]))))))
        return out

    it.inv.append(inv)
    k, r = call_catch(it, meth(it, o, "_read_from_shared_buffer"), [p.u("data_id", "MpiDataID"), info])
    p.check("no exception", k == "ret")
    p.check("the data is rebuilt once and returned", len(got) == 1 and r is data)
    v = got[0]
    p.check("the main part is read from where it was written", it.box(v["s_data"]) == VIEW(first, base))
    p.check("users cannot change the shared data", v["s_data"].ty == "readonly")
    a, m = view(it, v["raw_buffers"], EU("readonly"))
    q = p.int("buffer_index").t
    p.check("as many buffers as were written", m == lens.n)
    p.check("each buffer is read from where it was written", z3.Implies(z3.And(0 <= q, q < m), a[q] == VIEW(base + PS(q), base + PS(q) + lens.arr[q])))
    p.check("with the buffer counts of the description", v["buffer_count"] is bc)
    p.check("reading changes nothing", not cells.writes)
    p.post()


def ops(p, it, o):
    """the other methods by their contracts; calls are recorded in order"""
    log = []
    S = SOS + ":SharedObjectStore."
    it.summaries[S + "_put_service_info"] = lambda it_, v: log.append(("publish", v["service_index"], v["data_id"], v["first_index"]))
    it.summaries[S + "_put_shared_info"] = lambda it_, v: log.append(("known", v["data_id"], v["shared_info"]))
    it.summaries[S + "_increment_ref_number"] = lambda it_, v: log.append(("use", v["data_id"], v["service_index"]))
    it.summaries[S + "_sync_shared_memory_from_another_host"] = lambda it_, v: log.append(("sync", v["data_id"], v["owner_rank"], v["first_index"], v["last_index"]))

    def describe(it_, v):
        return it_.p.reg(DictObj(items={k: v[k] for k in ("data_id", "s_data_len", "raw_buffers_len", "buffer_count", "service_index")}))

    it.summaries[MPI + "common:MetadataPackage.get_shared_info"] = describe
    return log


@unit(UNITS, "SharedObjectStore.put")
def u_put(p):
    it = Interp(p)
    o, cells, lock, fins, idx = store(p, it)
    log = ops(p, it, o)
    i = p.u("data_id", "MpiDataID")
    sd, raw = p.u("s_data"), symlist(it, "raw_buffers", EU("buffer"))
    ser = p.reg(DictObj(items={"s_data": sd, "raw_buffers": raw, "buffer_count": p.u("bc")}))
    first, last, si = p.int("first_index"), p.int("last_index"), p.int("service_index")
    res = p.reg(DictObj(items={"first_index": first, "last_index": last, "service_index": si, "is_first_request": True}))
    info = p.u("info")
    # the sum that len() of the parts gives
    sl_ = symlens(it, raw)
    lens = it.call(glob(it, SOS, "sum"), [sl_])
    total = LEN_(sd.t) + intt(lens)
    sum_inv(p, it, sl_, raw.arr, LEN_(sd.t))

    def reserve(it_, v):
        it_.p.check("as much is reserved as will be written", intt(v["data_size"]) == total)
        it_.p.check("for this object", v["data_id"] is i)
        log.append(("reserve",))
        return res

    def write(it_, v):
        it_.p.check("the object is written to its reservation", v["reservation_data"] is res and v["serialized_data"] is ser and v["data_id"] is i)
        log.append(("write",))
        return info

    it.summaries[MPI + "communication:send_reserve_operation"] = reserve
    it.summaries[SOS + ":SharedObjectStore._write_to_shared_buffer"] = write
    k, r = call_catch(it, meth(it, o, "put"), [i, ser])
    p.check("no exception", k == "ret")
    names = [x[0] for x in log]
    p.check("reserved, written, published, known: once each, the data before its publication", sorted(names) == ["known", "publish", "reserve", "write"] and names.index("reserve") < names.index("write") < names.index("publish") and names.index("write") < names.index("known"))
    if sorted(names) == ["known", "publish", "reserve", "write"]:
        pub = next(x for x in log if x[0] == "publish")
        kn = next(x for x in log if x[0] == "known")
        p.check("published in its record with its place", z3.And(intt(pub[1]) == si.t, intt(pub[3]) == first.t, z3.BoolVal(pub[2] is i)))
        p.check("known with the description of what was written", kn[1] is i and kn[2] is info)
    p.post()


def sum_inv(p, it, l, src, extra):
    """a total may also be computed by a loop"""
    from pyvc.containers import PSUM

    j = z3.Int("j!ps")
    L = l.arr
    p.assume(PSUM(L, 0) == 0)
    p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zt(l.n)), PSUM(L, j + 1) == PSUM(L, j) + z3.simplify(L[j])), patterns=[src[j]]))

    def inv(it_, s, k):
        out = []
        for nm, v in locals_int(s):
            out.append((f"{nm}: total of the buffers so far", intt(v) == PSUM(L, k)))
            out.append((f"{nm}: total so far", intt(v) == extra + PSUM(L, k)))
        return out

    it.inv.append(inv)


def symlens(it, raw):
    """[len(b) for b in raw]"""
    return it.p.reg(ListObj(n=raw.n, arr=z3.Lambda([z3.Int("j!lam")], LEN_(raw.arr[z3.Int("j!lam")])), el=EInt))


@unit(UNITS, "SharedObjectStore.get", budget=90)
def u_get(p):
    it = Interp(p)
    o, cells, lock, fins, idx = store(p, it)
    log = ops(p, it, o)
    it.ext["time"] = ExtModule("time")
    it.ext["time.sleep"] = Builtin("sleep", lambda i, a, k: None)
    it.gover[(SOS, "MpiBackoff")] = Cfg(p.int("backoff"))
    i, owner = p.u("data_id", "MpiDataID"), p.int("owner_rank")
    si, nsi, first, last = p.int("service_index"), p.int("reserved_index"), p.int("first_index"), p.int("last_index")
    lens = symlist(it, "raw_buffers_len", EInt)
    sl, bc = p.int("s_data_len"), p.u("buffer_count")
    given = p.choose(2)
    info = p.reg(DictObj(items={"s_data_len": sl, "raw_buffers_len": lens, "service_index": si, "buffer_count": bc}))
    D = o.attrs["_shared_info"]
    known = p.u("known_info")
    first_request = bool(p.choose(2))
    own_given = bool(p.choose(2))
    g = it.ghost.attrs
    g["checked"] = Sym(z3.BoolVal(False), "bool")
    at = {"n": 0}
    here = p.bool("record_is_mine")

    def check(it_, v):
        """polls the record: afterwards, whether it was the object's at that time"""
        at["n"] += 1
        it_.p.check("the record of this object is looked at", v["data_id"] is i)
        if at["n"] == 1:
            it_.p.check("the record of the description is looked at", boolt(it_.equal(v["service_index"], si)))
            g["checked"] = here
            return here
        it_.p.check("the reserved record is looked at", boolt(it_.equal(v["service_index"], nsi)))
        b = it_.p.bool("published_by_now")
        g["checked"] = b
        return b

    it.summaries[SOS + ":SharedObjectStore._check_service_info"] = check
    res = p.reg(DictObj(items={"first_index": first, "last_index": last, "service_index": nsi, "is_first_request": first_request}))
    total = sl.t + intt(it.call(glob(it, SOS, "sum"), [lens]))
    sum_inv(p, it, lens, lens.arr, sl.t)

    def reserve(it_, v):
        it_.p.check("as much is reserved as the object needs", z3.And(intt(v["data_size"]) == total, z3.BoolVal(v["data_id"] is i)))
        log.append(("reserve",))
        return res

    it.summaries[MPI + "communication:send_reserve_operation"] = reserve
    read, data = [], p.u("data")

    def rd(it_, v):
        read.append(v)
        it_.p.check("nothing follows the reading", True)
        if given:
            it_.p.check("read only after the record was seen to be the object's, or was published", z3.Or(boolt(g["checked"]), z3.BoolVal("publish" in [x[0] for x in log])))
            it_.p.check("read only while it is in use", "use" in [x[0] for x in log])
        return data

    it.summaries[SOS + ":SharedObjectStore._read_from_shared_buffer"] = rd
    it.summaries[SOS + ":SharedObjectStore.get_shared_info"] = lambda it_, v: known if v["data_id"] is i else p.u("wrong")
    k, r = call_catch(it, meth(it, o, "get"), ([i, owner, info] if own_given else [i, None, info]) if given else [i])
    names = [x[0] for x in log]
    if not given:
        p.check("an object that is known is read with its description", k == "ret" and r is data and len(read) == 1 and read[0]["shared_info"] is known and not log)
        p.cover("known")
        p.post()
        return
    if k == "exc":
        p.check("fails only if the data has to be copied from an unknown owner", z3.And(z3.Not(here.t), z3.BoolVal(first_request and not own_given)))
        p.check("nothing was published", "publish" not in names and "use" not in names)
        p.post()
        return
    p.check("the data is returned", r is data and len(read) == 1)
    p.check("the use is counted once", names.count("use") == 1)
    p.check("the object is known once", names.count("known") == 1)
    use = next(x for x in log if x[0] == "use")
    kn = next(x for x in log if x[0] == "known")
    want = z3.If(here.t, si.t, nsi.t)
    p.check("the use is counted in the record of the object", z3.And(intt(use[2]) == want, z3.BoolVal(use[1] is i)))
    d = kn[2].items
    p.check("the description names the record of the object", z3.And(intt(d["service_index"]) == want, intt(d["s_data_len"]) == sl.t, z3.BoolVal(d["raw_buffers_len"] is lens and d["buffer_count"] is bc and kn[1] is i)))
    p.check("what is read is described by it", read[0]["shared_info"] is kn[2])
    p.check("space is reserved exactly if the object is not on this host", z3.BoolVal(names.count("reserve") == 1) == z3.Not(here.t) if names.count("reserve") <= 1 else False)
    if "reserve" in names:
        p.check("the first one copies the data and publishes it, the others wait for it", (names.count("sync"), names.count("publish")) == ((1, 1) if first_request else (0, 0)))
        if first_request and names.count("sync") == 1 and names.count("publish") == 1:
            sy, pub = log[names.index("sync")], log[names.index("publish")]
            p.check("published after it was copied", names.index("sync") < names.index("publish"))
            p.check("copied from the owner to the reservation", z3.And(intt(sy[2]) == owner.t, intt(sy[3]) == first.t, intt(sy[4]) == last.t, z3.BoolVal(sy[1] is i)))
            p.check("published in its record with its place", z3.And(intt(pub[1]) == nsi.t, intt(pub[3]) == first.t, z3.BoolVal(pub[2] is i)))
            p.cover("copied")
        else:
            p.cover("waited")
    else:
        p.check("nothing is copied or published otherwise", "sync" not in names and "publish" not in names)
        p.cover("on this host")
    p.post()


@unit(UNITS, "SharedObjectStore._put_shared_info / contains / get_shared_info")
def u_small(p):
    it = Interp(p)
    o, cells, lock, fins, idx = store(p, it)
    D = o.attrs["_shared_info"]
    d0, v0 = D.dom, D.val
    i, x = p.u("data_id", "MpiDataID"), p.u("other", "MpiDataID").t
    imm = bool(p.choose(2))
    info = p.u("info", "ImmutableDict" if imm else "dict")
    it.isinst_hook = lambda i_, v, t: (v.ty == getattr(t, "name", "")) if isinstance(v, Sym) and v.k == "u" else NotImplemented
    c = it.call(meth(it, o, "contains"), [i])
    p.check("contains answers whether the object is known", boolt(c) == d0[i.t])
    k, r = call_catch(it, meth(it, o, "_put_shared_info"), [i, info])
    p.check("only an immutable description is accepted", (k == "ret") == imm)
    p.check("an object is known by its first description", z3.And(D.dom[i.t] == z3.Or(d0[i.t], z3.BoolVal(imm)), z3.Implies(D.dom[i.t], D.val[i.t] == z3.If(d0[i.t], v0[i.t], info.t))))
    p.check("no other object is affected", z3.Implies(x != i.t, z3.And(D.dom[x] == d0[x], z3.Implies(d0[x], D.val[x] == v0[x]))))
    if imm:
        r = it.call(meth(it, o, "get_shared_info"), [i])
        p.check("its description is found", it.box(r) == D.val[i.t])
    p.post()


@unit(UNITS, "SharedObjectStore.should_be_shared")
def u_should(p):
    it = Interp(p)
    o, cells, lock, fins, idx = store(p, it)
    th = p.int("threshold")
    it.gover[(SOS, "MpiSharedObjectStoreThreshold")] = Cfg(th)
    sd, raw = p.u("s_data"), symlist(it, "raw_buffers", EU("buffer"))
    sl_ = symlens(it, raw)
    total = LEN_(sd.t) + intt(it.call(glob(it, SOS, "sum"), [sl_]))
    sum_inv(p, it, sl_, raw.arr, LEN_(sd.t))
    r = it.call(meth(it, o, "should_be_shared"), [p.reg(DictObj(items={"s_data": sd, "raw_buffers": raw, "buffer_count": None}))])
    p.check("data above the threshold goes to the shared memory", boolt(r) == (total > th.t))
    p.post()
