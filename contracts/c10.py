"""C10: serialization of objects by the MPI backend."""
import ast
from contracts.lib import *
from pyvc.interp import _AST

UNITS = []
NOTE = (
    "Proof for an arbitrary object in an arbitrary position of an arbitrary structure: encoding it emits its out-of-band buffers and their count at the end, decoding "
    "its encoding gives the object back from the first buffers and leaves the rest for the objects that follow (by induction along the traversal of msgpack, the whole structure); "
    "the choice of pickler is proved per kind of object. Two known findings (bytearray, reserved keys) are excluded. Trusts pyvc, z3, cvc5."
)
ASSUMED = [
    "msgpack.packb(x, default=f, strict_types=True) encodes None, bool, int, float, str, bytes, list and dict itself and calls f, in order, for every other object, encoding the result instead; unpackb calls object_hook in the same order for the encodings",
    "pickle protocol 5: a buffer is out-of-band exactly when the callback returns a false value, and loads takes as many buffers from the front of the given iterable as there were out-of-band ones",
    "cloudpickle.loads(cloudpickle.dumps(x)) equals x; pickle.loads(pickle.dumps(x)) equals x when x holds no functions, classes or instances that cannot be imported by name",
    "mpi4py's memory(b) is a view of the bytes of b and its len() is the number of bytes",
]
SER = MPI + "serialization"
MEMV = z3.Function("memory_of", U, U)
from pyvc.interp import LEN as NB  # len() of a memory view: its number of bytes

_AST["pyvc_pickle5"] = ast.parse(
    '''
def dumps(buffers, callback, check, outside):
    for b in buffers:
        flag = callback(b)
        check(flag, b)
        if not flag:
            outside.append(b)
'''
)


class Obj(Native):
    """an object of some kind"""

    def __init__(self, kind):
        self.kind = kind


# kind -> (module of the class, what plain pickle makes of it)
KINDS = {
    "function": ("builtins", False),
    "class": ("builtins", False),
    "method": ("builtins", False),
    "instance": ("user", False),
    "tuple": ("builtins", False),
    "set": ("builtins", False),
    "frozenset": ("builtins", False),
    "exception": ("builtins", False),
    "dict_keys": ("builtins", False),
    "complex": ("builtins", True),
    "range": ("builtins", True),
    "slice": ("builtins", True),
    "large int": ("builtins", True),
    "builtin": ("builtins", True),
    "ndarray": ("numpy", True),
    "DataFrame": ("pandas", True),
    "Series": ("pandas", True),
}
TYPES = {
    "tuple": ("tuple",),
    "set": ("set", "Set", "MutableSet"),
    "frozenset": ("frozenset", "Set"),
    "exception": ("BaseException", "Exception"),
    "dict_keys": ("KeysView", "dict_keys", "Set", "MappingView"),
    "complex": ("complex",),
    "range": ("range",),
    "slice": ("slice",),
    "large int": ("int",),
    "function": ("function", "FunctionType", "LambdaType"),
    "method": ("method", "MethodType"),
    "class": ("type",),
    "ndarray": ("ndarray",),
    "DataFrame": ("DataFrame",),
    "Series": ("Series",),
}


class Env:
    def __init__(self, p):
        self.p = p
        it = self.it = Interp(p)

        def isinst(it_, v, t):
            if not isinstance(v, Obj):
                return NotImplemented
            n = (t.name if hasattr(t, "name") else str(t)).split(".")[-1]
            return n == "object" or n in TYPES.get(v.kind, ())

        it.isinst_hook = isinst

        def attr(it_, o, name):
            if isinstance(o, Obj) and name == "__class__":
                c = Native()
                c.f___module__ = KINDS[o.kind][0]
                c.f___name__ = o.kind
                return c
            if isinstance(o, Obj) and name == "__module__" and o.kind == "instance":
                return "user"
            return NotImplemented

        it.attr_hook = attr
        it.ext["inspect"] = ExtModule("inspect")
        for n, kinds in (("isfunction", ("function",)), ("isclass", ("class",)), ("ismethod", ("method",)), ("isroutine", ("function", "method", "builtin")), ("isbuiltin", ("builtin",))):
            it.ext["inspect." + n] = Builtin(n, lambda i, a, k, kinds=kinds: isinstance(a[0], Obj) and a[0].kind in kinds)
        mods = []
        for n, cl in (("pandas", ("DataFrame", "Series")), ("numpy", ("ndarray",))):
            m = Native()
            m.f___name__ = n
            for c in cl:
                setattr(m, "f_" + c, PyType(c, None))
            mods.append(m)
        if p.choose(2):
            mods.reverse()
        it.gover[(SER, "available_modules")] = ListObj(mods)
        it.gover[(SER, "memory")] = Builtin("memory", lambda i, a, k: self.memory(a[0]))
        thr = p.int("threshold")
        p.assume(thr.t >= 0)
        self.thr = thr.t

        class Thr(Native):
            def m_get(s, it_):
                return thr

        it.gover[(SER, "MpiPickleThreshold")] = Thr()
        self.enc = {}

        class Cpkl(Native):
            def m_dumps(s, it_, o, *a, **k):
                return self.dumped("cloudpickle", o)

            def m_loads(s, it_, b, **k):
                return self.load(it_, ("cloudpickle",), b, k)

        class Pkl(Native):
            f_HIGHEST_PROTOCOL = 5
            f_DEFAULT_PROTOCOL = 4

            def m_dumps(s, it_, o, protocol=None, buffer_callback=None, **k):
                if k:
                    raise Unsupported("other options of pickle")
                it_.p.check("an object is pickled only if pickle can restore it anywhere", not isinstance(o, Obj) or KINDS[o.kind][1])
                if buffer_callback is None:
                    return self.dumped("pickle", o)
                it_.p.check("buffers need protocol 5", protocol == 5)
                it_.call(glob(it_, "pyvc_pickle5", "dumps"), [self.bufs, buffer_callback, Builtin("check", self.check_inside), self.outside])
                return self.dumped("pickle5", o)

            def m_loads(s, it_, b, **k):
                return self.load(it_, ("pickle", "pickle5"), b, k)

        Pkl.f_HIGHEST_PROTOCOL = 5
        pk = Pkl()
        pk.f_HIGHEST_PROTOCOL, pk.f_DEFAULT_PROTOCOL = 5, 4
        it.gover[(SER, "pkl")] = pk
        it.gover[(SER, "cpkl")] = Cpkl()
        gcm = Native()
        for n in ("disable", "enable", "collect", "isenabled"):
            setattr(gcm, "f_" + n, Builtin(n, lambda i, a, k: True))
        it.gover[(SER, "gc")] = gcm

        class MsgPack(Native):
            def m_packb(s, it_, data, default=None, strict_types=False, **k):
                if k:
                    raise Unsupported("other options of msgpack")
                return self.pack(it_, data, default, strict_types)

            def m_unpackb(s, it_, b, object_hook=None, strict_map_key=True, **k):
                if k:
                    raise Unsupported("other options of msgpack")
                return self.unpack(it_, b, object_hook, strict_map_key)

        it.gover[(SER, "msgpack")] = MsgPack()
        # the buffers of the object: arbitrarily many, of any size
        self.bufs = symlist(it, "buffers_of_object", EU("buffer"))
        self.outside = symlist(it, "outside", EU("buffer"))
        p.assume(zt(self.outside.n) == 0)

    def memory(self, b):
        t = MEMV(enc(self.it, EU(None), b))
        return Sym(t, "u", "memory")

    def check_inside(self, it, a, k):
        flag, b = a
        f = it.truth(flag) if hasattr(it, "truth") else flag
        f = boolt(f)
        it.p.check("a buffer travels inside the message exactly when it is below the threshold", f == (NB(MEMV(enc(it, EU(None), b))) < self.thr))
        return None

    def dumped(self, how, o):
        tok = Sym(self.p.fresh("bytes_" + how, U), "u", "bytes")
        self.enc[tok.t.get_id()] = (how, o, tok)
        return tok

    def load(self, it, hows, b, k):
        k = dict(k)
        bufs = k.pop("buffers", None)
        if k or not isinstance(b, Sym):
            raise Unsupported("pickle in another form")
        if b.t.get_id() not in self.enc:
            raise Unsupported("unknown bytes")
        how, o, _ = self.enc[b.t.get_id()]
        # cloudpickle output is a pickle
        it.p.check("decoded by the pickler that encoded it", how in hows or (how == "cloudpickle" and "pickle" in hows) or (how == "pickle" and "cloudpickle" in hows))
        if how == "pickle5":
            n = zt(self.outside.n)
            if bufs is None:
                it.p.check("an object is rebuilt from its own buffers", n == 0)
            else:
                x, m = view(it, bufs, EU(None))
                q = self.q
                it.p.check("an object is rebuilt from its own buffers", z3.And(m >= n, z3.Implies(z3.And(0 <= q, q < n), x[q] == MEMV(self.outside.arr[q]))))
        return o


@unit(UNITS, "any object: encoding, its buffers and decoding", budget=150)
def u_roundtrip(p):
    e = Env(p)
    it = e.it
    q = e.q = p.int("index").t
    kind = list(KINDS)[p.choose(len(KINDS))]
    obj = Obj(kind)
    B, C = symlist(it, "buffers_before", EU("memory")), symlist(it, "counts_before", EInt)
    B0, nB, C0, nC = B.arr, zt(B.n), C.arr, zt(C.n)
    st = {}
    token = Sym(p.u("packed").t, "u", "bytes")

    def inv(it_, s, k):
        """while an object is pickled, the buffers are those before followed by the ones that travel outside"""
        out = []
        if s.srcl is None or not s.srcl[0].eq(e.bufs.arr):
            return out
        oa, on = e.outside.arr, zt(e.outside.n)
        j = z3.Int("j!b")
        sl = st["ser"].attrs.get("buffers")
        out.append(("as many as seen", z3.And(0 <= on, on <= k)))
        if isinstance(sl, ListObj):
            a, m = view(it_, sl, EU(None))
            if a is not None:
                out.append(("buffers so far", m == nB + on))
                out.append(("buffers before", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nB), a[j] == B0[j]))))
                out.append(("own buffers", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < on), a[nB + j] == MEMV(oa[j])))))
        for nm, v in list(st["ser"].attrs.items()):
            if isinstance(v, (int, Sym)) and not isinstance(v, bool) and (isinstance(v, int) or v.k == "int"):
                b = st["others"].get(nm)
                if isinstance(b, int):
                    out.append((f"counter {nm}", intt(v) == b + on))
                    out.append((f"position {nm}", intt(v) == nB + on))
        return out

    it.inv.append(inv)

    def pack(it_, data, default, strict):
        it_.p.check("subclasses and tuples keep their type", strict is True)
        it_.p.check("the whole structure is packed", data is whole)
        it_.p.check("other objects are encoded by the serializer", default is not None)
        ser = st["ser"] = getattr(default, "self_", None) or getattr(default, "obj", None) or getattr(default, "self", None)
        if not isinstance(ser, InstObj) or not isinstance(ser.attrs.get("buffers"), ListObj) or not isinstance(ser.attrs.get("buffer_count"), ListObj):
            raise Unsupported("state of the serializer in another form")
        for n in ("buffers", "buffer_count"):
            it_.p.check("nothing is emitted at the beginning", length(it_, ser.attrs[n]) == 0)
        # the objects before this one emitted B with counts C
        ser.attrs["buffers"], ser.attrs["buffer_count"] = B, C
        st["others"] = {n: v for n, v in ser.attrs.items() if n not in ("buffers", "buffer_count")}
        k, d = call_catch(it_, default, [obj])
        it_.p.check("every object can be encoded", k == "ret")
        if k != "ret":
            raise Unsupported("not encoded")
        it_.p.check("an object that msgpack can encode", isinstance(d, DictObj))
        st["d"] = d
        n = zt(e.outside.n)
        a, m = view(it_, ser.attrs["buffers"], EU(None))
        it_.p.check("the buffers of the object follow those before", z3.And(m == nB + n, z3.Implies(z3.And(0 <= q, q < nB), a[q] == B0[q]), z3.Implies(z3.And(0 <= q, q < n), a[nB + q] == MEMV(e.outside.arr[q]))))
        ca, cm = view(it_, ser.attrs["buffer_count"], EInt)
        p5 = any(h == "pickle5" for h, _, _ in e.enc.values())
        st["p5"] = p5
        it_.p.check("and their number follows the counts before" if p5 else "no count without buffers", z3.And(cm == nC + (1 if p5 else 0), z3.Implies(z3.And(0 <= q, q < nC), ca[q] == C0[q]), ca[nC] == n if p5 else z3.BoolVal(True)))
        for nm, v in st["others"].items():
            it_.p.check("the serializer is ready for the next object", boolt(it_.equal(ser.attrs.get(nm), v)))
        st["emitted"] = (ser.attrs["buffers"], ser.attrs["buffer_count"])
        return token

    e.pack = pack
    whole = p.u("whole")
    r = it.call(glob(it, SER, "serialize_complex_data"), [whole])
    p.check("serialized once", "d" in st)
    if "d" not in st:
        return
    p.check("three parts", isinstance(r, DictObj))
    gi = lambda n: it.getitem(r, n)
    p.check("the packed data, the buffers and their counts", boolt(it.equal(gi("s_data"), token)))
    for n, l in zip(("raw_buffers", "buffer_count"), st["emitted"]):
        x, m = view(it, gi(n), EU(None) if n == "raw_buffers" else EInt)
        y, k_ = view(it, l, EU(None) if n == "raw_buffers" else EInt)
        p.check("the packed data, the buffers and their counts", z3.And(m == k_, z3.Implies(z3.And(0 <= q, q < m), x[q] == y[q])))
    # decoding: the buffers of this object come first, then those of the objects that follow
    n = zt(e.outside.n)
    R, CR = symlist(it, "raw_buffers", EU("memory")), symlist(it, "raw_counts", EInt)
    j = z3.Int("j!r")
    p.assume(zt(R.n) >= n)
    p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), R.arr[j] == MEMV(e.outside.arr[j]))))
    if st["p5"]:
        p.assume(z3.And(zt(CR.n) >= 1, CR.arr[0] == n))
    R0, nR, CR0, nCR = R.arr, zt(R.n), CR.arr, zt(CR.n)

    def unpack(it_, b, hook, strict):
        it_.p.check("keys of any kind", strict is False)
        it_.p.check("the packed data is unpacked", boolt(it_.equal(b, token)))
        it_.p.check("encoded objects are decoded", hook is not None)
        de = getattr(hook, "self_", None) or getattr(hook, "obj", None) or getattr(hook, "self", None)
        if not isinstance(de, InstObj) or not isinstance(de.attrs.get("buffers"), ListObj) or not isinstance(de.attrs.get("buffer_count"), ListObj):
            raise Unsupported("state of the deserializer in another form")
        d = st["d"]
        if d.items is None:
            raise Unsupported("encoding in another form")
        others = {nm: v for nm, v in de.attrs.items() if nm not in ("buffers", "buffer_count")}
        k, v = call_catch(it_, hook, [DictObj(dict(d.items))])
        it_.p.check("decoding gives the object back", k == "ret" and v is obj)
        a, m = view(it_, de.attrs["buffers"], EU(None))
        it_.p.check("the other buffers are left for the objects that follow", z3.And(m == nR - n, z3.Implies(z3.And(0 <= q, q < m), a[q] == R0[q + n])))
        c = 1 if st["p5"] else 0
        ca, cm = view(it_, de.attrs["buffer_count"], EInt)
        it_.p.check("and their counts", z3.And(cm == nCR - c, z3.Implies(z3.And(0 <= q, q < cm), ca[q] == CR0[q + c])))
        for nm, v in others.items():
            it_.p.check("the deserializer is ready for the next object", boolt(it_.equal(de.attrs.get(nm), v)))
        # a dictionary of the user is not an encoding
        u = DictObj({"some key": 1, "as_bytes": 2})
        k, v = call_catch(it_, hook, [u])
        it_.p.check("a dictionary stays as it is", k == "ret" and v is u and len(u.items) == 2)
        k, v = call_catch(it_, hook, [DictObj({})])
        it_.p.check("a dictionary stays as it is", k == "ret" and isinstance(v, DictObj) and not v.items)
        return whole

    e.unpack = unpack
    k, v = call_catch(it, glob(it, SER, "deserialize_complex_data"), [token, R, CR])
    p.check("the structure is the result", k == "ret" and v is whole)
    for l, a0, m0, el in ((R, R0, nR, EU(None)), (CR, CR0, nCR, EInt)):
        x, m = view(it, l, el)
        p.check("reading leaves the serialized form as it was", z3.And(m == m0, z3.Implies(z3.And(0 <= q, q < m0), x[q] == a0[q]) if x is not None else z3.BoolVal(True)))
    p.cover("kind " + kind)
    p.post()


@unit(UNITS, "simple serializer", budget=40)
def u_simple(p):
    e = Env(p)
    it = e.it
    e.q = p.int("index").t
    s = it.call(glob(it, SER, "SimpleDataSerializer"), [])
    o = Obj("complex")
    f = Obj("function")
    p.check("pickle there and back", it.call(meth(it, s, "deserialize_pickle"), [it.call(meth(it, s, "serialize_pickle"), [o])]) is o)
    p.check("cloudpickle there and back", it.call(meth(it, s, "deserialize_cloudpickle"), [it.call(meth(it, s, "serialize_cloudpickle"), [f])]) is f)
    p.post()
