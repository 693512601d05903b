"""C15: framing of messages."""
from contracts.store import *

UNITS = []
NOTE = (
    "Proof, for all sizes, block sizes, numbers of buffers and ranks, that the sending and the receiving functions of the communication module follow one and the same sequence of messages, "
    "and that pending sends are kept until they complete; whole exchanges over a simulated and over real MPI are run (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = [
    "MPI delivers messages of one sender with one tag in order; Recv fills exactly the given buffer",
    "pkl5._bigmpi(b) describes the whole of b; its blocksize is a positive integer",
]
CM = MPI + "communication"
LEN = z3.Function("len_", U, IntS)
HND = z3.Function("handle", IntS, U)


class Part(Native):
    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi

    def len(self, it):
        return self.hi - self.lo


class Buf(Native):
    """a byte buffer of known length; writes are given to a callback"""

    def __init__(self, n, onwrite=None):
        self.n, self.onwrite = n, onwrite

    def len(self, it):
        return self.n

    def bounds(self, it, s):
        if not isinstance(s, Slice) or s.step is not None:
            raise Unsupported("index of a buffer")
        lo = z3.IntVal(0) if s.lo is None else intt(s.lo)
        hi = self.n if s.hi is None else intt(s.hi)
        it.p.check("slices stay inside the buffer", z3.And(0 <= lo, lo <= hi, hi <= self.n))
        return lo, hi

    def getitem(self, it, s):
        return Part(self, *self.bounds(it, s))

    def setitem(self, it, s, v):
        self.onwrite(it, *self.bounds(it, s), v)


class Big(Native):
    """pkl5._bigmpi"""

    def __init__(self, B):
        self.f_blocksize = B

    def m___enter__(self, it):
        return self

    def m___exit__(self, it, *a):
        return None

    def call(self, it, x):
        return x


class Pkl5(Native):
    def __init__(self, B):
        self.f__bigmpi = Big(B)
        self.f_blocksize = B


class Comm(Native):
    """records the messages through the callbacks of a unit; the number of pending sends so far numbers the handles"""

    def __init__(self, it, on):
        self.on = on
        it.ghost.attrs["issued"] = 0

    def handle(self, it):
        n = intt(it.ghost.attrs["issued"])
        it.ghost.attrs["issued"] = mkint(n + 1)
        return Sym(HND(n), "u", None)

    def m_send(self, it, obj, dest=None, tag=0):
        self.on(it, "obj", obj, dest, tag)

    def m_Send(self, it, buf, dest=None, tag=0):
        self.on(it, "buf", buf, dest, tag)

    def m_isend(self, it, obj, dest=None, tag=0):
        self.on(it, "obj", obj, dest, tag)
        return self.handle(it)

    def m_Isend(self, it, buf, dest=None, tag=0):
        self.on(it, "buf", buf, dest, tag)
        return self.handle(it)

    def m_recv(self, it, buf=None, source=None, tag=0, status=None):
        return self.on(it, "recv", status, source, tag)

    def m_Recv(self, it, buf, source=None, tag=0, status=None):
        return self.on(it, "Recv", buf, source, tag)


def setup(p):
    it = Interp(p)
    B = p.int("blocksize")
    p.input("blocksize", B)
    p.assume(B.t >= 1)
    it.gover[(CM, "pkl5")] = Pkl5(B)
    it.gover[(CM, "MPI")] = Ignore()
    tags = glob(it, MPI + "common", "MPITag")
    T = {n: it.getattr(tags, n) for n in ("OPERATION", "OBJECT", "BUFFER", "OBJECT_BLOCKING", "BUFFER_BLOCKING")}
    it.gover[(CM, "log_operation")] = Builtin("log_operation", lambda it_, a, k: None)
    return it, B, T


def blocks(p, it, N, B):
    """the common split: block k is [k*B, min((k+1)*B, N)); checks one block against the cursor"""
    it.ghost.attrs["cursor"] = 0

    def step(it_, lo, hi):
        c = intt(it_.ghost.attrs["cursor"])
        it_.p.check("blocks are consecutive, from the start", lo == c)
        it_.p.check("a block is as long as the block size, the last one as long as the rest", hi == z3.If(c + B.t <= N, c + B.t, N))
        it_.p.check("no empty block", hi > lo)
        it_.ghost.attrs["cursor"] = mkint(hi)

    def inv(it_, s, k):
        c = intt(it_.ghost.attrs["cursor"])
        out = [("cursor: blocks", c == z3.If(k * B.t <= N, k * B.t, N)), ("cursor: bounds", z3.And(0 <= c, c <= N))]
        for nm, v in locals_int(s):
            out.append((f"cursor: {nm}", c == intt(v)))
        return out

    it.inv.append(inv)
    return step


def handlers_inv(it, base):
    """the local list of handles holds every handle that was issued, in order"""
    j = z3.Int("j!h")
    i0 = z3.Function("item_0", U, U)
    i1 = z3.Function("item_1", U, U)

    def inv(it_, s, k):
        out = [("as many handles as rounds", intt(it_.ghost.attrs["issued"]) >= k)]
        for nm, l in local_lists(s):
            if l.tup:
                continue
            n = zt(length(it_, l))
            out.append((f"{nm}: every handle", n == intt(it_.ghost.attrs["issued"])))
            a, m = view(it_, l, EU(None))
            if a is None:
                continue
            out.append((f"{nm}: in order", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), i0(a[j]) == HND(j)))))
            out.append((f"{nm}: buffers", z3.ForAll([j], z3.Implies(z3.And(base <= j, j < n), i1(a[j]) != NONE))))
        return out

    it.inv.append(inv)


def check_handles(p, it, r, first_buffer):
    """result: list of (handle, buffer)"""
    a, n = view(it, r, EU(None))
    q = p.int("handle_index").t
    p.check("every pending send is returned", z3.And(n == intt(it.ghost.attrs["issued"])))
    p.assume(z3.And(0 <= q, q < n))
    p.check("with its handle", z3.Function("item_0", U, U)(a[q]) == HND(q))
    p.check("together with the buffer it sends", z3.Implies(q >= first_buffer, z3.Function("item_1", U, U)(a[q]) != NONE))


def send_unit(kind):
    def fn(p):
        it, B, T = setup(p)
        N = p.int("size")
        p.input("size", N)
        p.assume(N.t >= 0)
        buf = Buf(N.t)
        dest = p.int("dest")
        step = blocks(p, it, N.t, B)
        st = {"size": 0, "blocks": 0}
        it.ghost.attrs["any"] = False

        def on(it_, k, x, d, tag):
            it_.p.check("to the given process", intt(d) == dest.t)
            if k == "obj":
                it_.p.check("the size comes first, once", st["size"] == 0 and it_.ghost.attrs["any"] is False)
                it_.p.check("the size is that of the buffer", intt(x) == N.t)
                it_.p.check("the size is tagged as an object", tag is T["OBJECT"] or tag == T["OBJECT"])
                st["size"] += 1
            else:
                it_.p.check("blocks are tagged as buffers", tag == T["BUFFER"])
                if not isinstance(x, Part):
                    x = Part(x, z3.IntVal(0), x.n)
                it_.p.check("a part of the given buffer", x.base is buf)
                step(it_, x.lo, x.hi)

        c = Comm(it, on)
        if kind == "isend":
            handlers_inv(it, 1)
            k, r = call_catch(it, glob(it, CM, "mpi_isend_buffer"), [c, N, buf, dest])
            want = 1
        elif kind == "send":
            k, r = call_catch(it, glob(it, CM, "mpi_send_buffer"), [c, buf, dest])
            want = 0
        else:
            p.assume(N.t > 0)
            k, r = call_catch(it, glob(it, CM, "mpi_send_buffer"), [c, buf, dest], {"buffer_size": N})
            want = 1
        p.check("no exception", k == "ret")
        if k != "ret":
            return
        p.check("every byte is sent", intt(it.ghost.attrs["cursor"]) == N.t)
        p.check("the size is announced exactly where the receiver expects it", st["size"] == want)
        if kind == "isend":
            check_handles(p, it, r, 1)
        p.post()

    return fn


UNITS.append(Unit("mpi_send_buffer without size", send_unit("send")))
UNITS.append(Unit("mpi_send_buffer with size", send_unit("send size")))
UNITS.append(Unit("mpi_isend_buffer", send_unit("isend")))


def recv_unit(given):
    def fn(p):
        it, B, T = setup(p)
        N = p.int("size")
        p.input("size", N)
        p.assume(N.t >= 0)
        src = p.int("source")
        step = blocks(p, it, N.t, B)
        st = {"size": 0}
        it.ghost.attrs["written"] = 0

        def write(it_, lo, hi, v):
            it_.p.check("each block is stored where it belongs", z3.And(lo == intt(it_.ghost.attrs["written"]), hi == intt(it_.ghost.attrs["cursor"])))
            it_.p.check("the block that was received last is stored", isinstance(v, Native) and v is it_.ghost.attrs.get("last"))
            it_.ghost.attrs["written"] = mkint(hi)

        def inv(it_, s, k):
            return [("all received blocks are stored", intt(it_.ghost.attrs["written"]) == intt(it_.ghost.attrs["cursor"]))]

        it.inv.append(inv)
        made = []

        def ba(it_, a, k):
            b = Buf(intt(a[0]), write)
            made.append(b)
            return b

        it.gover[(CM, "bytearray")] = Builtin("bytearray", ba)

        def on(it_, k, x, s, tag):
            it_.p.check("from the given process", intt(s) == src.t)
            if k == "recv":
                it_.p.check("the size is read once, first, as an object", st["size"] == 0 and tag == T["OBJECT"])
                st["size"] += 1
                return N
            it_.p.check("blocks are read as buffers", tag == T["BUFFER"])
            c = intt(it_.ghost.attrs["cursor"])
            if isinstance(x, Buf):
                step(it_, c, c + x.n)
                it_.ghost.attrs["last"] = x
            else:
                it_.p.check("each block is stored where it belongs", x.lo == intt(it_.ghost.attrs["written"]))
                step(it_, x.lo, x.hi)
                it_.ghost.attrs["written"] = it_.ghost.attrs["cursor"]

        c = Comm(it, on)
        res = Buf(N.t, write)
        k, r = call_catch(it, glob(it, CM, "mpi_recv_buffer"), [c, src] + ([res] if given else []))
        p.check("no exception", k == "ret")
        if k != "ret":
            return
        p.check("the size is read exactly where the sender announces it", st["size"] == (0 if given else 1))
        p.check("every byte is received and stored", z3.And(intt(it.ghost.attrs["cursor"]) == N.t, intt(it.ghost.attrs["written"]) == N.t))
        if given:
            p.check("the given buffer is returned", r is res)
        else:
            p.check("a buffer of the announced size is returned", isinstance(r, Buf) and made and r is made[0])
            p.check("its length is the announced size", r.n == N.t)
        p.post()

    return fn


UNITS.append(Unit("mpi_recv_buffer with size", recv_unit(False)))
UNITS.append(Unit("mpi_recv_buffer into a buffer", recv_unit(True)))


# ------------------------------------------------------------------------------------------ complex data
def seq_inv(it):
    def inv(it_, s, k):
        return [("raw buffers so far", intt(it_.ghost.attrs["raw"]) == k)]

    it.inv.append(inv)


def complex_send(blocking):
    def fn(p):
        it, B, T = setup(p)
        dest = p.int("dest")
        sd = p.u("s_data", "bytes")
        rb = symlist(it, "raw_buffers", EU("buffer"))
        info_tag, buf_tag = (T["OBJECT_BLOCKING"], T["BUFFER_BLOCKING"]) if blocking else (T["OBJECT"], T["BUFFER"])
        info = it.p.reg(DictObj(items={"package_type": 1}))
        it.ghost.attrs["raw"] = 0
        st = {"n": 0, "main": False}

        def on(it_, k, x, d, tag):
            it_.p.check("to the given process", intt(d) == dest.t)
            if k == "obj":
                it_.p.check("the description comes first, once", st["n"] == 0)
                it_.p.check("the description is tagged for its receiver", tag == info_tag)
                it_.p.check("the description is the given one", isinstance(x, DictObj) and x.items == {"package_type": 1})
                st["n"] = 1
                return
            it_.p.check("data is tagged for its receiver", tag == buf_tag)
            it_.p.check("the description comes before the data", st["n"] >= 1)
            if st["n"] == 1:
                it_.p.check("the main part comes first", isinstance(x, Sym) and x.k == "u")
                it_.p.check("the main part is the given one", x.t == sd.t)
                st["n"] = 2
                return
            r = intt(it_.ghost.attrs["raw"])
            it_.p.check("then each raw buffer in order", z3.And(r < rb.n, it_.box(x) == rb.arr[r]))
            it_.ghost.attrs["raw"] = mkint(r + 1)

        seq_inv(it)
        c = Comm(it, on)
        j = z3.Int("j!h")
        if not blocking:
            i0, i1 = z3.Function("item_0", U, U), z3.Function("item_1", U, U)

            def inv(it_, s, k):
                out = [("issued", intt(it_.ghost.attrs["issued"]) == k + 2)]
                for nm, l in local_lists(s):
                    if l.tup or l is rb:
                        continue
                    n = zt(length(it_, l))
                    a, m = view(it_, l, EU(None))
                    if a is None:
                        continue
                    out.append((f"{nm}: every handle", n == k + 2))
                    out.append((f"{nm}: in order", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), i0(a[j]) == HND(j)))))
                    out.append((f"{nm}: buffers", z3.ForAll([j], z3.Implies(z3.And(2 <= j, j < n), i1(a[j]) == rb.arr[j - 2]))))
                    out.append((f"{nm}: main", z3.Implies(n >= 2, i1(a[1]) == sd.t)))
                return out

            it.inv.append(inv)
        k, r = call_catch(it, glob(it, CM, "_send_complex_data_impl" if blocking else "_isend_complex_data_impl"), [c, sd, rb, dest, info])
        p.check("no exception", k == "ret")
        p.check("everything is sent", z3.And(st["n"] == 2, intt(it.ghost.attrs["raw"]) == rb.n))
        if not blocking:
            a, n = view(it, r, EU(None))
            q = p.int("handle_index").t
            p.check("every pending send is returned", z3.And(n == intt(it.ghost.attrs["issued"]), n == rb.n + 2))
            p.assume(z3.And(0 <= q, q < n))
            p.check("with its handle", z3.Function("item_0", U, U)(a[q]) == HND(q))
            p.check("together with the buffer it sends", z3.Implies(q >= 1, z3.Function("item_1", U, U)(a[q]) == z3.If(q == 1, sd.t, rb.arr[q - 2])))
        p.post()

    return fn


UNITS.append(Unit("_send_complex_data_impl", complex_send(True)))
UNITS.append(Unit("_isend_complex_data_impl", complex_send(False)))


@unit(UNITS, "recv_complex_data")
def u_recv_complex(p):
    it, B, T = setup(p)
    src = p.int("source")
    tag = T["BUFFER"] if p.choose(2) else T["BUFFER_BLOCKING"]
    sl = p.int("s_data_len")
    p.assume(sl.t >= 0)
    lens = symlist(it, "raw_buffers_len", EInt)
    counts = symlist(it, "buffer_count", EInt)
    it.ghost.attrs["raw"] = 0
    st = {"main": None, "n": 0, "des": 0}
    it.gover[(CM, "bytearray")] = Builtin("bytearray", lambda it_, a, k: Sym(z3.Function("bytearray", IntS, U)(intt(a[0])), "u", "bytearray"))
    z = z3.Int("z!ba")
    p.assume(z3.ForAll([z], LEN(z3.Function("bytearray", IntS, U)(z)) == z, patterns=[z3.Function("bytearray", IntS, U)(z)]))

    def on(it_, k, x, s, t):
        it_.p.check("only buffers are read", k == "Recv")
        it_.p.check("from the given process", intt(s) == src.t)
        it_.p.check("with the given tag", t == tag)
        if st["n"] == 0:
            it_.p.check("the main part first, in its announced length", LEN(it_.box(x)) == sl.t)
            st["main"], st["n"] = x, 1
            return None
        r = intt(it_.ghost.attrs["raw"])
        it_.p.check("then each raw buffer in its announced length", z3.And(r < lens.n, LEN(it_.box(x)) == lens.arr[r]))
        it_.ghost.attrs["raw"] = mkint(r + 1)
        return None

    seq_inv(it)

    def des(it_, v):
        a, n = view(it_, v["raw_buffers"], EU(None))
        it_.p.check("the main part is decoded", same_value(it_, v["s_data"], st["main"]))
        it_.p.check("with the received raw buffers", z3.And(n == lens.n, intt(it_.ghost.attrs["raw"]) == lens.n))
        q = it_.p.int("raw_index").t
        it_.p.check("in order", z3.Implies(z3.And(0 <= q, q < n), LEN(a[q]) == lens.arr[q]))
        it_.p.check("with the announced buffer counts", v["buffer_count"] is counts)
        st["des"] += 1
        return "object"

    it.summaries[MPI + "serialization:deserialize_complex_data"] = des
    info = p.reg(DictObj(items={"s_data_len": sl, "raw_buffers_len": lens, "buffer_count": counts}))
    k, r = call_catch(it, glob(it, CM, "recv_complex_data"), [Comm(it, on), src, info, tag])
    p.check("no exception", k == "ret")
    p.check("the decoded object is returned", k == "ret" and r == "object" and st["des"] == 1)
    p.post()


def pack(p, it, with_id):
    d = {"s_data": p.u("s_data", "bytes"), "raw_buffers": symlist(it, "raw_buffers", EU("buffer")), "buffer_count": symlist(it, "buffer_count", EInt)}
    o = p.reg(DictObj(items=dict(d)))
    if with_id:
        o.items["id"] = with_id
    return d, o


def meta_ok(p, it, info, d, did):
    """the description says what is sent"""
    g = lambda n: it.getitem(info, n)
    p.check("the announced length is that of the main part", intt(g("s_data_len")) == LEN(d["s_data"].t))
    a, n = view(it, g("raw_buffers_len"), EInt)
    rb = d["raw_buffers"]
    p.check("as many lengths as raw buffers", n == rb.n)
    q = p.int("raw_index").t
    p.check("each length is that of its raw buffer", z3.Implies(z3.And(0 <= q, q < n), a[q] == LEN(rb.arr[q])))
    p.check("the buffer counts are announced", it.getitem(info, "buffer_count") is d["buffer_count"])
    mp = glob(it, MPI + "common", "MetadataPackage")
    if did is not None:
        p.check("the identifier is announced", same_value(it, g("id"), did))
        p.check("announced as local data", it.truth(it.equal(g("package_type"), it.getattr(mp, "LOCAL_DATA"))))
    else:
        p.check("announced as a task", it.truth(it.equal(g("package_type"), it.getattr(mp, "TASK_DATA"))))


def wrap_unit(which, ser):
    def fn(p):
        it, B, T = setup(p)
        dest = p.int("dest")
        did = p.u("id", "MpiDataID")
        st = {"sent": 0, "ops": 0}
        if ser:
            d, data = pack(p, it, did)
        else:
            d, packed = pack(p, it, None)
            data = p.reg(DictObj(items={"id": did, "data": p.u("payload")}))

            def sc(it_, v):
                it_.p.check("the given object is serialized", v["data"] is data)
                return packed

            it.summaries[MPI + "serialization:serialize_complex_data"] = sc
        task = which != "send_complex_data" and not ser

        def impl(it_, v):
            it_.p.check("one exchange, after its operation code", st["sent"] == 0 and st["ops"] == (1 if which == "isend_complex_operation" else 0))
            st["sent"] += 1
            it_.p.check("the main part is sent", same_value(it_, v["s_data"], d["s_data"]))
            it_.p.check("the raw buffers are sent", v["raw_buffers"] is d["raw_buffers"])
            it_.p.check("to the given process", intt(v["dest_rank"]) == dest.t)
            meta_ok(it_.p, it_, v["info_package"], d, None if task else did)
            return it_.mklist([it_.mktuple(["h1", None]), it_.mktuple(["h2", "b"])])

        it.summaries[CM + ":_send_complex_data_impl"] = impl
        it.summaries[CM + ":_isend_complex_data_impl"] = impl

        def on(it_, k, x, dd, tag):
            it_.p.check("the operation code goes first, to the given process", z3.And(st["ops"] == 0, st["sent"] == 0, k == "obj", intt(dd) == dest.t))
            it_.p.check("the code is the given one", it_.truth(it_.equal(x, op)) and tag == T["OPERATION"])
            st["ops"] += 1

        op = p.int("operation")
        c = Comm(it, on)
        f = glob(it, CM, which)
        args = [c, op, data, dest] if which == "isend_complex_operation" else [c, data, dest]
        k, r = call_catch(it, f, args, {"is_serialized": ser})
        p.check("no exception", k == "ret")
        p.check("one exchange", st["sent"] == 1)
        if k != "ret":
            return
        if which == "send_complex_data":
            out = r
        elif which == "isend_complex_data":
            hs, a, b, cc = it.unpack(r, 4)
            p.check("all handlers are returned", [it.unpack(x, 2)[0] for x in hs.items] == ["h1", "h2"])
            out = None
            p.check("the serialized parts are returned", same_value(it, a, d["s_data"]), )
            p.check("the serialized buffers are returned", b is d["raw_buffers"] and cc is d["buffer_count"])
        else:
            hs, out = it.unpack(r, 2)
            p.check("all handlers are returned", len(hs.items) == 3 and [it.unpack(x, 2)[0] for x in hs.items[1:]] == ["h1", "h2"])
        if out is not None:
            p.check("the serialized data can be sent again: its parts are returned", all(it.getitem(out, n) is d[n] for n in ("s_data", "raw_buffers", "buffer_count")))
            p.check("the identifier is not kept with it", it.contains(out, "id") is False)
        p.post()

    return fn


for w in ("send_complex_data", "isend_complex_data", "isend_complex_operation"):
    for s in (False, True):
        UNITS.append(Unit(f"{w}: {'serialized' if s else 'plain'}", wrap_unit(w, s)))


@unit(UNITS, "simple operations")
def u_simple(p):
    it, B, T = setup(p)
    dest, op, x = p.int("dest"), p.int("operation"), p.u("data")
    log = []

    def on(it_, k, v, d, tag):
        log.append((k, v, d, tag))

    c = Comm(it, on)
    nb = p.choose(2)
    k, r = call_catch(it, glob(it, CM, "isend_simple_operation" if nb else "send_simple_operation"), [c, op, x, dest])
    p.check("no exception", k == "ret")
    p.check("two objects", len(log) == 2 and all(l[0] == "obj" for l in log))
    p.check("to the given process", z3.And(*[intt(l[2]) == dest.t for l in log]))
    p.check("the code first, as an operation", z3.And(intt(log[0][1]) == op.t, log[0][3] == T["OPERATION"]))
    p.check("then the data, as an object", z3.And(it.box(log[1][1]) == x.t, log[1][3] == T["OBJECT"]))
    if nb:
        check_handles(p, it, r, 2)
    p.post()


@unit(UNITS, "serialized operations")
def u_serialized(p):
    it, B, T = setup(p)
    dest, op, x = p.int("dest"), p.int("operation"), p.u("data", "bytes")
    log = []

    def on(it_, k, v, d, tag):
        log.append((k, v, d, tag))

    c = Comm(it, on)

    def buf(it_, v):
        it_.p.check("the code comes first", len(log) == 1)
        it_.p.check("the whole data is sent", z3.And(intt(v["buffer_size"]) == LEN(x.t), it_.box(v["buffer"]) == x.t, intt(v["dest_rank"]) == dest.t))
        log.append(("data",))
        return it_.mklist([it_.mktuple(["h1", None]), it_.mktuple(["h2", "b"])])

    it.summaries[CM + ":mpi_isend_buffer"] = buf
    k, r = call_catch(it, glob(it, CM, "isend_serialized_operation"), [c, op, x, dest])
    p.check("no exception", k == "ret")
    p.check("code and data", len(log) == 2)
    l = log[0]
    p.check("the code goes as an operation to the given process", z3.And(l[0] == "obj", intt(l[1]) == op.t, intt(l[2]) == dest.t, l[3] == T["OPERATION"]))
    p.check("all handlers are returned", len(r.items) == 3 and [it.unpack(y, 2)[0] for y in r.items[1:]] == ["h1", "h2"])
    p.post()


def probe_unit(which):
    def fn(p):
        it, B, T = setup(p)
        S = p.int("sender")
        data = p.u("message")
        st = {"recv": 0}
        it.ghost.attrs["there"] = False

        class Status(Native):
            def __init__(self):
                self.f_source = Sym(z3.Int("any"), "int")
                self.f_tag = Sym(z3.Int("anytag"), "int")

            def m_Get_source(self, it_):
                return self.f_source

            def m_Get_tag(self, it_):
                return self.f_tag

        class Mpi(Native):
            f_x = 1

            def __init__(self):
                self.f_ANY_SOURCE = -1
                self.f_ANY_TAG = -1

            def m_Status(self, it_):
                return Status()

        it.gover[(CM, "MPI")] = Mpi()
        it.gover[(CM, "time")] = Ignore()
        it.gover[(CM, "MpiBackoff")] = Cfg(0)
        want = T["OPERATION"] if which == "mpi_recv_operation" else T["OBJECT_BLOCKING"]

        class C(Native):
            def m_iprobe(self, it_, source=-1, tag=-1, status=None):
                it_.p.check("a message of the expected kind is looked for, of any sender", it_.truth(it_.equal(tag, want)) and source == -1)
                b = it_.p.bool("arrived")
                if it_.p.branch(b.t):
                    status.f_source = S
                    status.f_tag = want
                    it_.ghost.attrs["there"] = True
                    return True
                return False

            def m_recv(self, it_, buf=None, source=-1, tag=-1, status=None):
                it_.p.check("exactly the message that was found is received", z3.And(intt(source) == S.t, it_.truth(it_.equal(tag, want)), it_.ghost.attrs["there"] is True, st["recv"] == 0))
                st["recv"] += 1
                if status is not None:
                    status.f_source = S
                return data

        f = glob(it, CM, which)
        k, r = call_catch(it, f, [C()] + ([] if which == "mpi_recv_operation" else [want]))
        p.check("no exception", k == "ret")
        x, s = it.unpack(r, 2)
        p.check("the received message is returned", it.box(x) == data.t)
        p.check("with its sender", intt(s) == S.t)
        p.check("one message is received", st["recv"] == 1)
        p.post()

    return fn


UNITS.append(Unit("mpi_recv_operation", probe_unit("mpi_recv_operation")))
UNITS.append(Unit("mpi_iprobe_recv_object", probe_unit("mpi_iprobe_recv_object")))


# ------------------------------------------------------------------------------------------ pending sends
AO = MPI + "async_operations"
DONE = z3.Function("completed", U, BoolS)


def handle_hook(it, waited):
    def attr(it_, v, name):
        if isinstance(v, Sym) and v.k == "u":
            if name in ("Test", "test"):
                return Builtin(name, lambda i, a, k: Sym(DONE(v.t), "bool"))
            if name in ("Wait", "wait"):
                def w(i, a, k):
                    i.list_append(i.ghost.attrs["waited"], v)
                return Builtin(name, w)
        return NotImplemented

    it.attr_hook = attr


def ao(p):
    it = Interp(p)
    e = p.u("e")
    p.track("e", e.t)
    l = symlist(it, "pending", EU(None))
    it.cnt_facts(l)
    o = new(it, glob(it, AO, "AsyncOperations"))
    it.call(meth(it, o, "__init__"), [])
    if "_send_async_handlers" not in o.attrs:
        raise Unsupported("AsyncOperations._send_async_handlers is gone")
    o.attrs["_send_async_handlers"] = l
    it.ghost.attrs["waited"] = it.mklist([])
    handle_hook(it, None)
    return it, o, e, l


@unit(UNITS, "AsyncOperations.extend / is_empty")
def u_ao_ext(p):
    it, o, e, l = ao(p)
    m = symlist(it, "new", EU(None))
    it.cnt_facts(m)
    c0 = cnt_of(it, l, "e")
    p.check("empty exactly if nothing is pending", boolt(it.call(meth(it, o, "is_empty"), [])) == (l.n == 0))
    it.call(meth(it, o, "extend"), [m])
    p.check("every new send is kept", cnt_of(it, o.attrs["_send_async_handlers"], "e") == c0 + cnt_of(it, m, "e"))
    p.post()


@unit(UNITS, "AsyncOperations.check")
def u_ao_check(p):
    it, o, e, l = ao(p)
    c0 = cnt_of(it, l, "e")
    it.call(meth(it, o, "check"), [])
    p.check("exactly the completed sends are forgotten", cnt_of(it, o.attrs["_send_async_handlers"], "e") == z3.If(DONE(z3.Function("item_0", U, U)(e.t)), 0, c0))
    p.post()


@unit(UNITS, "AsyncOperations.finish")
def u_ao_finish(p):
    it, o, e, l = ao(p)
    w = p.u("w")
    p.track("w", w.t)
    q = p.int("index").t
    p.assume(z3.And(0 <= q, q < l.n))
    H = z3.Function("item_0", U, U)

    def inv(it_, s, k):
        j = z3.Int("j!w")
        return [("waited for", z3.Implies(z3.And(q < k, w.t == H(l0[q])), cnt_of(it_, it_.ghost.attrs["waited"], "w") >= 1))]

    l0 = l.arr
    it.inv.append(inv)
    k, r = call_catch(it, meth(it, o, "finish"), [])
    p.check("no exception", k == "ret")
    p.assume(w.t == H(l0[q]))
    p.check("each pending send is waited for", cnt_of(it, it.ghost.attrs["waited"], "w") >= 1)
    p.check("none is pending afterwards", zt(length(it, o.attrs["_send_async_handlers"])) == 0)
    p.post()
