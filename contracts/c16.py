"""C16: configuration values follow set-by-user over environment over default, validated."""
import ast

from contracts.lib import *

UNITS = []
NOTE = (
    "Proof, for all value types (by the contracts of their decode, normalize and verify functions), choices, environments and histories (any current state), of Parameter.get, put, get_value_source, of the environment lookup and of the "
    "threshold selection; the type functions are proved consistent with each other over opaque strings and run on concrete strings (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = ["str.strip, str.lower, str.isdigit, int and float behave as documented", "os.environ is a dictionary of strings that raises KeyError for a missing name"]
PAR = "unidist.config.parameter"
ENV = "unidist.config.backends.mpi.envvars"
VERIFY, DECODE, NORM = z3.Function("verify", U, BoolS), z3.Function("decode", U, U), z3.Function("normalize", U, U)


class Desc(Native):
    """a TypeDescriptor of an arbitrary type"""

    def __init__(self):
        b = lambda n, f: Builtin(n, lambda i, a, k: f(a[0]))
        self.f_verify = b("verify", lambda v: Sym(VERIFY(v.t), "bool"))
        self.f_decode = b("decode", lambda v: Sym(DECODE(v.t), "u"))
        self.f_normalize = b("normalize", lambda v: Sym(NORM(v.t), "u"))


def param(p):
    """an arbitrary parameter class in an arbitrary state"""
    it = Interp(p)

    class Types(Native):
        def getitem(self, it_, k):
            it_.p.check("the functions of the parameter's own type are used", k is ty)
            return Desc()

    ty = PyType("some_type")
    it.gover[(PAR, "_TYPE_PARAMS")] = Types()
    c = new(it, glob(it, PAR, "Parameter"))
    unset = glob(it, PAR, "_UNSET")
    vs = glob(it, PAR, "ValueSource")
    SRC = {k: it.getattr(vs, k) for k in ("DEFAULT", "SET_BY_USER", "GOT_FROM_CFG_SOURCE")}
    p.check("the sources are distinct", len(set(SRC.values())) == 3)
    e = p.u("e")
    p.track("e", e.t)
    ch = None
    if p.choose(2):
        ch = symlist(it, "choices", EU(None))
    raw, dflt, val = p.u("raw"), p.u("default"), p.u("value")
    present = p.bool("in_environment")
    is_set = bool(p.choose(2))
    src0 = p.int("source") if is_set else None
    looked = []
    # the sentinel is a private object: no value that is decoded, normalized or a default is it
    for t in (val.t, dflt.t, DECODE(raw.t), NORM(z3.Const("new_value", U))):
        p.assume(t != it.box(unset))

    def env(i, a, k):
        looked.append(1)
        if i.p.branch(present.t):
            return raw
        raise PyRaise(i.mkexc("KeyError"))

    c.attrs.update(type=ty, choices=ch, default=dflt, _value=val if is_set else unset, _value_source=src0)
    c.attrs["_get_raw_from_config"] = Builtin("raw", env)
    c.attrs["_get_default"] = Builtin("default", lambda i, a, k: dflt)
    for n in ("get", "put", "get_value_source", "put_value_source"):
        f = it.class_lookup(c.cls, n)
        fn = getattr(f, "fn", f)
        if not isinstance(fn, Func):
            raise Unsupported(f"Parameter.{n} in another form")
        c.attrs[n] = Bound(fn, c)
    # other class methods (helpers) work on the same parameter
    for st in c.cls.node.body:
        if isinstance(st, ast.FunctionDef) and st.name not in c.attrs and any(isinstance(x, ast.Name) and x.id == "classmethod" for x in st.decorator_list):
            f = it.class_lookup(c.cls, st.name)
            c.attrs[st.name] = Bound(getattr(f, "fn", f), c)
    j = z3.Int("j!c")
    inch = lambda t: z3.BoolVal(True) if ch is None else z3.Exists([j], z3.And(0 <= j, j < ch.n, ch.arr[j] == t))
    return it, c, unset, SRC, inch, raw, dflt, val, present, is_set, src0, looked


@unit(UNITS, "Parameter.get")
def u_get(p):
    it, c, unset, SRC, inch, raw, dflt, val, present, is_set, src0, looked = param(p)
    want = val.t if is_set else z3.If(present.t, DECODE(raw.t), dflt.t)
    valid = z3.BoolVal(True) if is_set else z3.Implies(present.t, VERIFY(raw.t))
    k, r = call_catch(it, c.attrs["get"])
    if k == "exc":
        p.check("fails only for an invalid value", z3.Not(z3.And(valid, inch(want))))
        p.check("with ValueError", exc_name(r) == "ValueError")
        p.cover("rejected")
        p.post()
        return
    p.check("the value set by the user, else the decoded one of the environment, else the default", it.box(r) == want)
    p.check("an invalid value is never returned", z3.And(valid, inch(want)))
    s = c.attrs["_value_source"]
    p.check("the source says which", intt(s) == (src0.t if is_set else z3.If(present.t, SRC["GOT_FROM_CFG_SOURCE"], SRC["DEFAULT"])))
    k2, r2 = call_catch(it, c.attrs["get"])
    p.check("the value is the same the next time", z3.And(z3.BoolVal(k2 == "ret"), it.box(r2) == want) if k2 == "ret" else False)
    p.cover("value")
    p.post()


@unit(UNITS, "Parameter.put")
def u_put(p):
    it, c, unset, SRC, inch, raw, dflt, val, present, is_set, src0, looked = param(p)
    new_ = p.u("new_value")
    before = (c.attrs["_value"], c.attrs["_value_source"])
    ok = z3.And(VERIFY(new_.t), inch(NORM(new_.t)))
    k, r = call_catch(it, c.attrs["put"], [new_])
    p.check("accepted exactly if it is valid and among the choices", boolt(k == "ret") == ok)
    if k == "exc":
        p.check("with ValueError", exc_name(r) == "ValueError")
        p.check("a rejected value does not replace the current one", c.attrs["_value"] is before[0] and c.attrs["_value_source"] is before[1])
        p.cover("rejected")
    else:
        s = it.call(c.attrs["get_value_source"])
        p.check("set by the user", intt(s) == SRC["SET_BY_USER"])
        g, v = call_catch(it, c.attrs["get"])
        p.check("its normalized form is what is read", it.box(v) == NORM(new_.t) if g == "ret" else False)
        p.check("the environment is not looked at", not looked)
        p.cover("accepted")
    p.post()


@unit(UNITS, "Parameter.get_value_source / put_value_source")
def u_src(p):
    it, c, unset, SRC, inch, raw, dflt, val, present, is_set, src0, looked = param(p)
    k, r = call_catch(it, c.attrs["get_value_source"])
    if k == "ret":
        p.check("the source of the value", intt(r) == (src0.t if is_set else z3.If(present.t, SRC["GOT_FROM_CFG_SOURCE"], SRC["DEFAULT"])))
        x = p.int("new_source")
        it.call(c.attrs["put_value_source"], [x])
        p.check("a source that is set is reported", boolt(it.equal(it.call(c.attrs["get_value_source"]), x)))
        p.check("and the value stays", it.box(c.attrs["_value"]) == (val.t if is_set else z3.If(present.t, DECODE(raw.t), dflt.t)))
        p.cover("known")
    else:
        p.check("fails only if the value is invalid", z3.BoolVal(not is_set))
    p.post()


@unit(UNITS, "EnvironmentVariable._get_raw_from_config")
def u_env(p):
    it = Interp(p)
    name, e = p.u("varname", "str"), sym_dict(it, "environ", EU("str"), keyty="str")
    it.ext["os"] = ExtModule("os")
    it.ext["os.environ"] = e
    c = new(it, glob(it, PAR, "EnvironmentVariable"))
    c.attrs["varname"] = name
    f = it.class_lookup(c.cls, "_get_raw_from_config")
    k, r = call_catch(it, Bound(getattr(f, "fn", f), c))
    if k == "ret":
        p.check("the text of the parameter's own variable", z3.And(e.dom[name.t], it.box(r) == e.val[name.t]))
        p.cover("there")
    else:
        p.check("KeyError exactly if it is not set", z3.And(z3.Not(e.dom[name.t]), z3.BoolVal(exc_name(r) == "KeyError")))
        p.cover("absent")
    p.post()


@unit(UNITS, "MpiPickleThreshold: get and get_value_source")
def u_thr(p):
    it = Interp(p)
    cls = glob(it, ENV, "MpiPickleThreshold")
    on = p.bool("shared_object_store")
    t, st, own, so = p.int("shared_threshold"), p.int("shared_source"), p.int("pickle_threshold"), p.int("pickle_source")

    class Thr(Native):
        def m_get(self, it_):
            return t

        def m_get_value_source(self, it_):
            return st

    it.gover[(ENV, "MpiSharedObjectStore")] = Cfg(on)
    it.gover[(ENV, "MpiSharedObjectStoreThreshold")] = Thr()
    it.summaries[PAR + ":Parameter.get"] = lambda it_, v: own if v["cls"] is cls else it_.p.int("wrong")
    it.summaries[PAR + ":Parameter.get_value_source"] = lambda it_, v: so if v["cls"] is cls else it_.p.int("wrong")
    p.check("the threshold of the shared object store counts if it is on", intt(it.call(it.getattr(cls, "get"))) == z3.If(on.t, t.t, own.t))
    p.check("and so does its source", intt(it.call(it.getattr(cls, "get_value_source"))) == z3.If(on.t, st.t, so.t))
    p.post()


STRIP, LOWER = z3.Function("strip", U, U), z3.Function("lower", U, U)


def types(name):
    def fn(p):
        it = Interp(p)
        tp = glob(it, PAR, "_TYPE_PARAMS")
        if not isinstance(tp, DictObj) or tp.items is None:
            raise Unsupported("_TYPE_PARAMS in another form")
        key = next((k for k in tp.items if getattr(getattr(k, "v", k), "name", None) == name or getattr(k, "name", None) == name), None)
        if key is None:
            raise Unsupported(f"type {name} in another form")
        d = tp.items[key]
        DIG = z3.Function("isdigit", U, BoolS)
        NODOT = z3.Function("without_dots", U, U)

        def attr(it_, v, n):
            if isinstance(v, Sym) and v.k == "u" and v.ty == "str":
                if n in ("strip", "lower"):
                    F = STRIP if n == "strip" else LOWER
                    return Builtin(n, lambda i, a, k: Sym(F(v.t), "u", "str"))
                if n == "isdigit":
                    return Builtin(n, lambda i, a, k: Sym(DIG(v.t), "bool"))
                if n == "replace":
                    return Builtin(n, lambda i, a, k: Sym(NODOT(v.t), "u", "str"))
            return NotImplemented

        it.attr_hook = attr
        it.isinst_hook = lambda i, v, t: (getattr(t, "name", "") == "str") if isinstance(v, Sym) and v.k == "u" and v.ty == "str" else NotImplemented
        y = z3.Const("y!s", U)
        # white space around a number does not count
        for fn_, s in (("int_of", IntS), ("float_of", RealS)):
            F = z3.Function(fn_, U, s)
            p.assume(z3.ForAll([y], F(STRIP(y)) == F(y), patterns=[F(STRIP(y))]))
        raw = p.u("text", "str")
        dec = it.call(it.getattr(d, "decode"), [raw])
        norm = it.call(it.getattr(d, "normalize"), [raw])
        ver = it.call(it.getattr(d, "verify"), [raw])
        a, b = it.box(dec), it.box(norm)
        p.check("a valid text means the same in the environment and when set by the user", z3.Implies(boolt(ver), a == b))
        if name == "bool":
            T = lambda s: it.box(s) if not isinstance(s, str) else it.box(s)
            true = z3.Or(*[LOWER(STRIP(raw.t)) == it.box(s) for s in ("true", "yes", "1")])
            false = z3.Or(*[LOWER(STRIP(raw.t)) == it.box(s) for s in ("false", "no", "0")])
            p.check("exactly the documented texts are valid", boolt(ver) == z3.Or(true, false))
            p.check("and mean true or false", z3.Implies(boolt(ver), boolt(dec) == true))
            for v in (True, False):
                p.check("a boolean is valid and stays", it.call(it.getattr(d, "verify"), [v]) is True and it.call(it.getattr(d, "normalize"), [v]) is v)
        if name == "int":
            n = p.int("number")
            p.check("an integer is valid and stays", z3.And(boolt(it.call(it.getattr(d, "verify"), [n])), intt(it.call(it.getattr(d, "normalize"), [n])) == n.t))
            p.check("a text of digits is valid", boolt(ver) == DIG(STRIP(raw.t)))
        if name == "ExactStr":
            p.check("a text stays as it is", z3.And(a == raw.t, b == raw.t, boolt(ver)))
        if name == "str":
            p.check("a text is stripped and in lower case", z3.And(z3.Or(a == LOWER(STRIP(raw.t)), a == STRIP(LOWER(raw.t))), boolt(ver)))
        p.post()

    UNITS.append(Unit(f"values of type {name}", fn))


for nm_ in ("str", "ExactStr", "bool", "int", "float"):
    types(nm_)
