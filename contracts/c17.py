"""C17: the public API accepts only valid declarations and forwards them unchanged."""
from contracts import c04, c05
from contracts.store import *
from pyvc.interp import _Star

UNITS = []
NOTE = (
    "Proof, for all declared objects, parameter values, argument lists and keyword sets, of the decorator, of the remote function, actor class and actor method wrappers (remote, options, direct calls), of the methods of BackendProxy, of the choice of the "
    "backend (for every configured name) and of the functions of unidist.api. The whole API is run in front of a recording backend (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = ["inspect.isfunction and inspect.isclass tell functions and classes apart", "functools.wraps keeps the behaviour of the function"]
UNITS += [u for u in c05.UNITS if u.name == "filter_arguments"]
UNITS += [u for u in c04.UNITS if u.name.endswith("._remote")]
BASE = "unidist.core.base."
API = "unidist.api"
ISREF, DEREF = z3.Function("is_ref", U, BoolS), z3.Function("ref_of", U, U)
W = lambda t: z3.If(ISREF(t), DEREF(t), t)
SAME = lambda t: t
OPTS = ("num_cpus", "num_returns", "resources")


def base(p):
    it = Interp(p)
    it.isinst_hook = lambda i, v, t: ISREF(v.t) if isinstance(v, Sym) and v.k == "u" and getattr(t, "name", "") == "ObjectRef" else NotImplemented
    it.attr_hook = lambda i, v, n: Sym(DEREF(v.t), "u") if isinstance(v, Sym) and n == "_ref" else (Sym(z3.Function("name_of", U, U)(v.t), "u", "str") if isinstance(v, Sym) and n == "__name__" else NotImplemented)
    it.ext["functools"] = ExtModule("functools")
    it.ext["functools.wraps"] = Builtin("wraps", lambda i, a, k: Builtin("wraps()", lambda i2, a2, k2: a2[0]))
    return it


class Call:
    """arguments of an arbitrary call and the check that they arrive"""

    def __init__(self, p, it):
        self.p, self.it = p, it
        self.args, self.kw = symlist(it, "args", EU(None)), sym_dict(it, "kwargs", EU(None), keyty="str")
        # options of the call are given in options()
        for o in OPTS:
            p.assume(z3.Not(self.kw.dom[it.str_const(o)]))
        self.a0, self.n0, self.d0, self.v0 = self.args.arr, zt(self.args.n), self.kw.dom, self.kw.val
        self.q, self.key = p.int("index").t, p.u("key", "str").t
        self.n = 0

    def call(self, f, **kw):
        return call_catch(self.it, f, [_Star(self.args)], {"**": self.kw, **kw})

    def received(self, a, k, conv):
        """the options and checks that the arguments are those of the call"""
        p, it = self.p, self.it
        self.n += 1
        p.check("one call of the backend", self.n == 1)
        a, k = star_form(it, a, k)
        x, m = view(it, a[0].v, EU(None))
        p.check("as many positional arguments", m == self.n0)
        p.check("each argument in its place", z3.Implies(z3.And(0 <= self.q, self.q < m), x[self.q] == conv(self.a0[self.q])))
        kk = k.pop("**", None)
        if kk is None:
            raise Unsupported("keywords in another form")
        p.check("the same keywords", kk.dom[self.key] == self.d0[self.key])
        p.check("each keyword with its value", z3.Implies(self.d0[self.key], kk.val[self.key] == conv(self.v0[self.key])))
        return k


def recorder(c, conv, res, opts):
    return Builtin("_remote", lambda i, a, k: (opts.append(c.received(a, k, conv)), res)[1])


def opt_set(p, names):
    """an arbitrary subset of the options with arbitrary values"""
    return {n: p.u(n) for n in names if p.choose(2)}


def check_opts(p, it, got, given, names):
    for n in names:
        v = got.get(n)
        p.check("exactly the given options of this call", (v is given[n]) if n in given else v is None)
    p.check("no other options", all(n in names for n in got))


@unit(UNITS, "RemoteFunction: direct call, remote and options")
def u_rf(p):
    it = base(p)
    c = Call(p, it)
    res, opts = p.u("result"), []
    f = p.u("function")

    class Back(Native):
        def __init__(self):
            self.f__remote = recorder(c, W, res, opts)

    b = Back()
    o = it.call(glob(it, BASE + "remote_function", "RemoteFunction"), [b, f])
    before = dict(o.attrs)
    what = p.choose(3)
    if what == 0:
        k, r = c.call(meth(it, o, "__call__"))
        p.check("a remote function cannot be called directly", k == "exc" and exc_name(r) == "TypeError" and c.n == 0)
    else:
        given = {}
        if what == 1:
            k, r = c.call(meth(it, o, "remote"))
        else:
            given = opt_set(p, OPTS)
            k, w = call_catch(it, meth(it, o, "options"), [], given)
            p.check("no exception", k == "ret")
            p.check("options alone calls nothing", c.n == 0)
            k, r = c.call(meth(it, w, "remote"))
        p.check("no exception", k == "ret")
        p.check("the result of the backend", r is res and c.n == 1)
        check_opts(p, it, opts[0], given, OPTS)
    p.check("the declaration stays", all(o.attrs.get(n) is v for n, v in before.items()))
    if what == 2:
        # a later call has none of the options
        opts.clear()
        c.n = 0
        c.call(meth(it, o, "remote"))
        check_opts(p, it, opts[0], {}, OPTS)
    p.post()


@unit(UNITS, "ActorMethod: remote and options")
def u_am(p):
    it = base(p)
    c = Call(p, it)
    res, opts = p.u("result"), []

    class Back(Native):
        def __init__(self):
            self.f__remote = recorder(c, W, res, opts)

    o = it.call(glob(it, BASE + "actor", "ActorMethod"), [Back()])
    before = dict(o.attrs)
    given = {}
    if p.choose(2):
        k, r = c.call(meth(it, o, "remote"))
    else:
        given = opt_set(p, ("num_returns",))
        k, w = call_catch(it, meth(it, o, "options"), [], given)
        p.check("options alone calls nothing", k == "ret" and c.n == 0)
        k, r = c.call(meth(it, w, "remote"))
    p.check("the result of the backend", k == "ret" and r is res and c.n == 1)
    check_opts(p, it, opts[0], given, ("num_returns",))
    p.check("the method stays", all(o.attrs.get(n) is v for n, v in before.items()))
    p.post()


@unit(UNITS, "ActorClass: direct call, remote and options")
def u_ac(p):
    it = base(p)
    c = Call(p, it)
    opts, made = [], []
    decl = [p.u("cls"), p.u("declared_cpus"), p.u("declared_resources")]

    class Back(Native):
        def __init__(self):
            self.f__remote = recorder(c, SAME, handle, opts)

    class Handle(Native):
        pass

    handle = Handle()

    def ctor(i, a, k):
        p.check("the declaration is passed on unchanged", len(a) == 3 and all(x is y for x, y in zip(a, decl)) and not k)
        made.append(Back())
        return made[-1]

    o = it.call(glob(it, BASE + "actor", "ActorClass"), [Builtin("actor_cls", ctor)] + decl)
    before = dict(o.attrs)
    what = p.choose(3)
    names = ("num_cpus", "resources")
    if what == 0:
        k, r = c.call(meth(it, o, "__call__"))
        p.check("an actor class cannot be called directly", k == "exc" and exc_name(r) == "TypeError" and c.n == 0 and not made)
    else:
        given = {}
        if what == 1:
            k, r = c.call(meth(it, o, "remote"))
        else:
            given = opt_set(p, names)
            k, w = call_catch(it, meth(it, o, "options"), [], given)
            p.check("options alone creates nothing", k == "ret" and c.n == 0)
            k, r = c.call(meth(it, w, "remote"))
        p.check("no exception", k == "ret")
        p.check("one actor is made", c.n == 1 and len(made) == 1)
        p.check("a handle of that actor", isinstance(r, InstObj) and r.cls.name == "Actor" and r.attrs.get("_actor_cls") is handle)
        check_opts(p, it, opts[0], given, names)
    p.check("the declaration stays", all(o.attrs.get(n) is v or n == "_actor_cls_args" for n, v in before.items()))
    p.post()


@unit(UNITS, "Actor.__getattr__")
def u_ga(p):
    it = base(p)

    class M(Native):
        pass

    m = M()

    class Back(Native):
        def __init__(self):
            self.f_some_method = m

    o = it.call(glob(it, BASE + "actor", "Actor"), [Back()])
    r = it.call(meth(it, o, "__getattr__"), ["some_method"])
    p.check("the method of that name of the actor", isinstance(r, InstObj) and r.cls.name == "ActorMethod" and any(v is m for v in r.attrs.values()))
    p.post()


# ---------------------------------------------------------------- decorator
class Proxy(Native):
    def __init__(self, p):
        self.calls = []
        rec = lambda n: Builtin(n, lambda i, a, k: self.rec(n, a, k))
        self.f_make_remote_function, self.f_make_actor = rec("function"), rec("actor")
        self.res = p.u("made")

    def rec(self, n, a, k):
        self.calls.append((n, a, k))
        return self.res


def decorated(p, it, prox, dec, f, kind, given):
    """contract of applying the decorator"""
    k, r = call_catch(it, dec, [f])
    nr = given.get("num_returns")
    if kind == "function":
        bad = nr is not None and not (isinstance(nr, Sym) and nr.k == "int")
        ok = z3.BoolVal(not bad) if bad or nr is None else nr.t >= 0
        p.check("a function is accepted exactly with a valid num_returns", boolt(k == "ret") == ok)
        names = OPTS
    elif kind == "class":
        p.check("a class is accepted exactly without num_returns", (k == "ret") == (nr is None))
        names = ("num_cpus", "resources")
    else:
        p.check("anything else is rejected", k == "exc")
    if k == "exc":
        p.check("with an error of the declaration", exc_name(r) in ("TypeError", "ValueError", "AssertionError"))
        p.check("and nothing is made", not prox.calls)
        p.cover("rejected")
        return
    p.check("made once", len(prox.calls) == 1 and prox.calls[0][0] == kind.replace("class", "actor"))
    n, a, kw = prox.calls[0]
    order = ("function", "num_cpus", "num_returns", "resources") if kind == "function" else ("cls", "num_cpus", "resources")
    b = dict(zip(order, a), **kw)
    obj = b.pop(order[0], None)
    p.check("of the decorated object", obj is f)
    for nm in names:
        p.check("the declared parameters are passed unchanged", b.pop(nm, None) is given.get(nm))
    p.check("and no others", not b)
    p.check("what the backend made is given back", r is prox.res)
    p.cover("accepted")


def kinds(p, it):
    kind = ("function", "class", "other")[p.choose(3)]
    f = p.u("object")
    it.ext["inspect"] = ExtModule("inspect")
    it.ext["inspect.isfunction"] = Builtin("isfunction", lambda i, a, k: a[0] is f and kind == "function")
    it.ext["inspect.isclass"] = Builtin("isclass", lambda i, a, k: a[0] is f and kind == "class")
    return kind, f


def given_opts(p, it):
    g = {}
    for n in ("num_cpus", "resources"):
        if p.choose(2):
            g[n] = p.u(n)
            p.assume(g[n].t != NONE)
    c = p.choose(3)
    if c == 1:
        g["num_returns"] = p.int("num_returns")
    elif c == 2:
        g["num_returns"] = p.u("num_returns", "no_int")
    old = it.isinst_hook
    it.isinst_hook = lambda i, v, t: False if isinstance(v, Sym) and v.ty == "no_int" and getattr(t, "name", "") == "int" else old(i, v, t)
    return g


@unit(UNITS, "remote: decorator with parameters")
def u_dec(p):
    it = base(p)
    prox = Proxy(p)
    it.gover[(API, "get_backend_proxy")] = Builtin("get_backend_proxy", lambda i, a, k: prox)
    kind, f = kinds(p, it)
    g = given_opts(p, it)
    if not g:
        raise PathEnd()
    k, dec = call_catch(it, glob(it, API, "remote"), [], g)
    p.check("parameters alone are accepted", k == "ret")
    decorated(p, it, prox, dec, f, kind, g)
    p.post()


@unit(UNITS, "remote: decorator without parameters")
def u_dec0(p):
    it = base(p)
    prox = Proxy(p)
    it.gover[(API, "get_backend_proxy")] = Builtin("get_backend_proxy", lambda i, a, k: prox)
    kind, f = kinds(p, it)
    can = p.bool("is_callable")
    if kind != "other":
        p.assume(can.t)
    it.gover[(API, "callable")] = Builtin("callable", lambda i, a, k: Sym(can.t, "bool"))
    decorated(p, it, prox, glob(it, API, "remote"), f, kind, {})
    p.post()


@unit(UNITS, "remote: other forms are rejected")
def u_dec1(p):
    it = base(p)
    prox = Proxy(p)
    it.gover[(API, "get_backend_proxy")] = Builtin("get_backend_proxy", lambda i, a, k: prox)
    kind, f = kinds(p, it)
    it.gover[(API, "callable")] = Builtin("callable", lambda i, a, k: p.bool("is_callable"))
    c = p.choose(3)
    if c == 0:
        k, r = call_catch(it, glob(it, API, "remote"))
    elif c == 1:
        k, r = call_catch(it, glob(it, API, "remote"), [f, p.u("second")])
    else:
        k, r = call_catch(it, glob(it, API, "remote"), [f], {"num_cpus": p.u("num_cpus")})
    p.check("rejected", k == "exc" and not prox.calls)
    p.post()


# ---------------------------------------------------------------- the proxy and the choice of the backend
NAMES = {"mpi": ("mpi.backend", "MPIBackend", "mpi.utils", "initialize_mpi"), "dask": ("dask.backend", "DaskBackend", "dask.utils", "initialize_dask"), "ray": ("ray.backend", "RayBackend", "ray.utils", "initialize_ray"), "pymp": ("pymp.backend", "PyMpBackend", "pymp.utils", "initialize_pymp"), "pyseq": ("pyseq.backend", "PySeqBackend", "pyseq.utils", "initialize_pyseq")}
CB = "unidist.core.backends."


def choice(p):
    it = base(p)
    UT = BASE + "utils"
    log = []
    name = ("mpi", "dask", "ray", "pymp", "pyseq", None)[p.choose(6)]
    if name is None:
        nm = p.u("backend_name", "str")
        for s in NAMES:
            p.assume(nm.t != it.str_const(s))
    it.gover[(UT, "Backend")] = Cfg(name if name else nm)

    def mkcls(n):
        class Inst(Native):
            pass

        return Builtin(n, lambda i, a, k: (log.append(("made", n)), Inst())[1])

    for s, (m, c, um, ini) in NAMES.items():
        it.gover[(CB + m, c)] = mkcls(s)
        it.gover[(CB + um, ini)] = Builtin(ini, lambda i, a, k, s=s: log.append(("init", s)))
    main = True
    it.ext["threading"] = ExtModule("threading")
    th, mt = p.u("this_thread"), p.u("main_thread")
    it.ext["threading.current_thread"] = Builtin("current_thread", lambda i, a, k: th)
    it.ext["threading.main_thread"] = Builtin("main_thread", lambda i, a, k: mt)
    bp = glob(it, BASE + "backend", "BackendProxy")
    have = p.choose(2)
    key = "_BackendProxy__instance"
    if key not in bp.attrs:
        raise Unsupported("the singleton in another form")

    class B0(Native):
        pass

    old = None
    if have:
        old = new(it, bp)
        old.attrs["_backend_cls"] = B0()
        bp.attrs[key] = old
    return it, UT, log, name, bp, key, old, th, mt


@unit(UNITS, "get_backend_proxy")
def u_gbp(p):
    it, UT, log, name, bp, key, old, th, mt = choice(p)
    k, r = call_catch(it, glob(it, UT, "get_backend_proxy"))
    if old is not None:
        p.check("an existing backend object is the one", k == "ret" and r is old and not log)
        p.cover("existing")
    elif name is None:
        p.check("an unknown name is an error", k == "exc" and bp.attrs[key] is None)
    else:
        p.check("no exception", k == "ret")
        p.check("the configured backend is made, once, and nothing is started", log == [("made", name)])
        p.check("it is the backend object from now on", isinstance(r, InstObj) and bp.attrs[key] is r)
        k2, r2 = call_catch(it, glob(it, UT, "get_backend_proxy"))
        p.check("the same object for all calls", k2 == "ret" and r2 is r and len(log) == 1)
        p.cover("chosen")
    p.post()


@unit(UNITS, "init_backend")
def u_ib(p):
    it, UT, log, name, bp, key, old, th, mt = choice(p)
    k, r = call_catch(it, glob(it, UT, "init_backend"))
    if name is None:
        p.check("an unknown name is an error", k == "exc" and bp.attrs[key] is old and not log)
    else:
        p.check("no exception", k == "ret")
        inits = [x for x in log if x[0] == "init"]
        if name == "dask":
            p.check("a cluster is started by the main thread only", boolt(bool(inits)) == (th.t == mt.t))
        else:
            p.check("the configured backend is started", inits == [("init", name)])
        p.check("no other backend is started or made", all(x[1] == name for x in log) and len(inits) <= 1)
        now = bp.attrs[key]
        if old is not None:
            p.check("the backend object is kept", now is old)
            p.cover("kept")
        else:
            p.check("the backend object is of the configured backend", isinstance(now, InstObj) and ("made", name) in log and isinstance(now.attrs.get("_backend_cls"), Native))
            r2 = it.call(glob(it, UT, "get_backend_proxy"))
            p.check("and used by all calls", r2 is now)
            p.cover("new")
    p.post()


class Backend(Native):
    """a backend that records the calls"""

    def __init__(self, p, res):
        self.log = []
        for n in ("make_remote_function", "make_actor", "get", "put", "wait", "get_ip", "num_cpus", "cluster_resources", "shutdown", "is_initialized"):
            setattr(self, "f_" + n, Builtin(n, lambda i, a, k, n=n: (self.log.append((n, a, k)), res(n))[1]))


def proxy(p, res):
    it = base(p)
    b = Backend(p, res)
    it.gover[(BASE + "backend", "ObjectRef")] = glob(it, BASE + "object_ref", "ObjectRef")
    o = it.call(glob(it, BASE + "backend", "BackendProxy"), [b])
    return it, b, o


@unit(UNITS, "BackendProxy.make_remote_function / make_actor")
def u_mk(p):
    rf, acls = p.u("backend_function"), p.u("actor_cls")
    aargs = [p.u("a0"), p.u("a1"), p.u("a2")]
    box = []
    it, b, o = proxy(p, lambda n: rf if n == "make_remote_function" else box[0])
    box.append(it.mktuple([acls, it.mklist(list(aargs))]))
    f, c, n, r_ = p.u("object"), p.u("num_cpus"), p.u("num_returns"), p.u("resources")
    if p.choose(2):
        r = it.call(meth(it, o, "make_remote_function"), [f, c, n, r_])
        got, want = b.log[0], dict(zip(("function", "num_cpus", "num_returns", "resources"), (f, c, n, r_)))
        p.check("a remote function of the backend's function and the declared one", isinstance(r, InstObj) and r.cls.name == "RemoteFunction" and r.attrs["_remote_function_cls"] is rf and r.attrs["_original_function"] is f)
    else:
        r = it.call(meth(it, o, "make_actor"), [f, c, r_])
        got, want = b.log[0], dict(zip(("cls", "num_cpus", "resources"), (f, c, r_)))
        aa = r.attrs["_actor_cls_args"]
        p.check("an actor class of the backend's class and its arguments", r.cls.name == "ActorClass" and r.attrs["_actor_cls"] is acls and aa.items is not None and len(aa.items) == 3 and all(x is y for x, y in zip(aa.items, aargs)))
    w = dict(zip(want, got[1]), **got[2])
    p.check("the declaration is passed unchanged", len(b.log) == 1 and set(w) == set(want) and all(w[k] is want[k] for k in want))
    p.post()


@unit(UNITS, "BackendProxy.get and put")
def u_gp(p):
    res = p.u("result")
    it, b, o = proxy(p, lambda n: res)
    what = p.choose(3)
    if what == 0:
        x = p.u("data")
        r = it.call(meth(it, o, "put"), [x])
        p.check("the object is stored as it is", len(b.log) == 1 and b.log[0][0] == "put" and len(b.log[0][1]) == 1 and b.log[0][1][0] is x and not b.log[0][2])
        p.check("a reference to what was stored", isinstance(r, InstObj) and r.cls.name == "ObjectRef" and r.attrs["_ref"] is res)
    elif what == 1:
        ref = it.call(glob(it, BASE + "object_ref", "ObjectRef"), [p.u("inner")])
        r = it.call(meth(it, o, "get"), [ref])
        p.check("what the reference refers to is read", len(b.log) == 1 and b.log[0][0] == "get" and len(b.log[0][1]) == 1 and b.log[0][1][0] is ref.attrs["_ref"])
        p.check("the value is given back as it is", r is res)
    else:
        l = symlist(it, "refs", EU(None))
        a0, n0 = l.arr, zt(l.n)
        r = it.call(meth(it, o, "get"), [l])
        p.check("one read", len(b.log) == 1 and b.log[0][0] == "get" and len(b.log[0][1]) == 1)
        x, m = view(it, b.log[0][1][0], EU(None))
        q = p.int("index").t
        p.check("of as many references", m == n0)
        p.check("in the same order", z3.Implies(z3.And(0 <= q, q < m), x[q] == W(a0[q])))
        p.check("the values are given back as they are", r is res)
    p.post()


@unit(UNITS, "BackendProxy: other calls")
def u_oth(p):
    res = p.u("result")
    it, b, o = proxy(p, lambda n: res)
    n = ("get_ip", "num_cpus", "cluster_resources", "shutdown", "is_initialized")[p.choose(5)]
    r = it.call(meth(it, o, n))
    p.check("one call of the same name", len(b.log) == 1 and b.log[0] == (n, [], {}) or (len(b.log) == 1 and b.log[0][0] == n and not list(b.log[0][1]) and not b.log[0][2]))
    if n != "shutdown":
        p.check("its result", r is res)
    p.post()


@unit(UNITS, "api: all functions go to the backend object")
def u_api(p):
    it = base(p)
    log, up = [], []
    res = p.u("result")
    started = p.bool("initialized")

    class Pr(Native):
        def __init__(self):
            for n in ("get", "put", "wait", "is_object_ref", "get_ip", "num_cpus", "cluster_resources", "shutdown"):
                setattr(self, "f_" + n, Builtin(n, lambda i, a, k, n=n: (log.append((n, list(a), dict(k))), res)[1]))
            self.f_is_initialized = Builtin("is_initialized", lambda i, a, k: started)

    pr = Pr()
    it.gover[(API, "get_backend_proxy")] = Builtin("get_backend_proxy", lambda i, a, k: pr)
    it.gover[(API, "init_backend")] = Builtin("init_backend", lambda i, a, k: up.append(1))
    n = ("get", "put", "wait", "is_object_ref", "get_ip", "num_cpus", "cluster_resources", "shutdown", "is_initialized", "init")[p.choose(10)]
    x, nr = p.u("argument"), p.int("num_returns")
    args = [x] if n in ("get", "put", "wait", "is_object_ref") else []
    given = n == "wait" and p.choose(2)
    k, r = call_catch(it, glob(it, API, n), args, {"num_returns": nr} if given else {})
    p.check("no exception", k == "ret")
    if n == "init":
        p.check("started", len(up) == 1)
    elif n == "is_initialized":
        p.check("the answer of the backend", boolt(r) == started.t)
    else:
        p.check("one call of the same name", len(log) == 1 and log[0][0] == n)
        a, kw = log[0][1], log[0][2]
        p.check("with the same argument", len(a) >= len(args) and all(v is w for v, w in zip(a, args)))
        if n == "wait":
            got = kw.get("num_returns", a[1] if len(a) > 1 else None)
            p.check("the number to wait for", (got is nr) if given else got in (1, None))
        else:
            p.check("nothing else", len(a) == len(args) and not kw)
        if n != "shutdown":
            p.check("its result", r is res)
        if n == "put":
            p.check("the backend is started before if it was not", boolt(bool(up)) == z3.Not(started.t))
        else:
            p.check("nothing is started", not up)
    p.cover(n)
    p.post()


def backend_units(b, cls):
    mod = f"{CB}{b}.backend"

    def fn(p):
        it = base(p)
        bc = glob(it, mod, cls)
        f, c, n, r_ = p.u("object"), p.u("num_cpus"), p.u("num_returns"), p.u("resources")
        rf = it.call(it.getattr(bc, "make_remote_function"), [f, c, n, r_])
        a = rf.attrs
        p.check("the declared function and parameters are kept", a["_remote_function"] is f and a["_num_cpus"] is c and a["_resources"] is r_)
        nr = it.box(a["_num_returns"])
        p.check("the declared number of results is kept, by default one", z3.If(n.t == NONE, z3.Or(nr == NONE, nr == it.box(1)), nr == n.t))
        x = it.call(it.getattr(bc, "make_actor"), [f, c, r_])
        ac, args = it.unpack(x, 2)
        o = it.call(ac, list(args.items))
        p.check("the declared class and parameters are kept", o.attrs["_cls"] is f and o.attrs["_num_cpus"] is c and o.attrs["_resources"] is r_)
        p.post()

    UNITS.append(Unit(f"{cls}.make_remote_function / make_actor", fn))


for bb, cc in (("pyseq", "PySeqBackend"), ("pymp", "PyMpBackend"), ("mpi", "MPIBackend"), ("dask", "DaskBackend")):
    backend_units(bb, cc)
