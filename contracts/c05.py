"""C05: references in task arguments become their values and nothing else changes."""
from contracts import c04, c13
from contracts.store import *
from pyvc.interp import _Star

UNITS = []
NOTE = (
    "Proof, for containers of any length and nesting depth (by induction over the nesting: the recursive call is used by its contract), of unwrap_object_refs, materialize_data_ids and filter_arguments, of the submission functions of all "
    "backends and of the executing side (process_task_request, unwrap_local_data_id, Task.__call__). Whole clusters are run (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = [
    "containers are not cyclic; a value of a reference is not itself a bare internal identifier (the public API stores ObjectRef objects)",
    "Dask replaces the futures nested in the arguments of Client.submit by their values",
]
UNITS += [u for u in c13.UNITS if "process_task_request" in u.name or "unwrap_local_data_id" in u.name]
UNITS += [u for u in c04.UNITS if "_remote" in u.name or u.name.startswith("multiprocessing Task") or u.name.startswith("sequential submit") or u.name.startswith("MPI controller")]

MAT, IMPL = z3.Function("materialized", U, U), z3.Function("resolved", U, U)
PEND, IPEND = z3.Function("has_pending", U, BoolS), z3.Function("is_missing", U, BoolS)


def container(p, it, kind):
    if kind == "dict":
        d = sym_dict(it, "container", EU(None), keyty="key")
        return d
    l = symlist(it, "container", EU(None))
    return it.to_tuple(l) if kind == "tuple" else l


def recursive(name, mod, kind, pending):
    q = mod + ":" + name

    def fn(p):
        it = Interp(p)
        y = z3.Const("y!m", U)
        top = []

        def rec(it_, v):
            arg = v["data_ids" if pending else "obj_refs"]
            if not top:
                top.append(arg)
                return NotImplemented
            if not isinstance(arg, Sym):
                raise Unsupported("recursion on another object")
            if not pending:
                return Sym(MAT(arg.t), "u")
            it_.p.check("the way to resolve is passed on", v["unwrap_data_id_impl"] is impl)
            return it_.mktuple([Sym(MAT(arg.t), "u"), Sym(z3.Or(boolt(v["is_pending"]), PEND(arg.t)), "bool")])

        it.summaries[q] = rec
        impl = Builtin("impl", lambda i, a, k: i.mktuple([Sym(IMPL(a[0].t), "u"), Sym(IPEND(a[0].t), "bool")]))
        # resolving a second time gives the same (C13: unwrap_local_data_id)
        p.assume(z3.ForAll([y], IMPL(MAT(y)) == MAT(y), patterns=[IMPL(MAT(y))]))
        p.assume(z3.ForAll([y], z3.Implies(IPEND(MAT(y)), PEND(y)), patterns=[IPEND(MAT(y))]))
        it.isinst_hook = lambda i, v, t: (t.name == "leaf") if isinstance(v, Sym) and v.k == "u" and hasattr(t, "name") else NotImplemented
        was = p.bool("is_pending")
        f = glob(it, mod, name)
        extra = [impl, was] if pending else []
        if kind == "leaf":
            x = p.u("object", "leaf")
            it.gover[(mod, "is_object_ref")] = Builtin("is_object_ref", lambda i, a, k: Sym(ISREF(a[0].t), "bool"))
            ISREF, DEREF = z3.Function("is_ref", U, BoolS), z3.Function("ref_of", U, U)
            it.attr_hook = lambda i, v, n: Sym(DEREF(v.t), "u") if isinstance(v, Sym) and n == "_ref" else NotImplemented
            k, r = call_catch(it, f, [x] + extra)
            p.check("no exception", k == "ret")
            if pending:
                val, pe = it.unpack(r, 2)
                p.check("an object that is no container is resolved", it.box(val) == IMPL(x.t))
                p.check("pending if it was or the object is missing", boolt(pe) == z3.Or(was.t, IPEND(x.t)))
            else:
                p.check("a reference is replaced by what it refers to, another object stays", it.box(r) == z3.If(ISREF(x.t), DEREF(x.t), x.t))
            p.post()
            return
        c = container(p, it, kind)
        isd = kind == "dict"
        a0, n0 = (None, None) if isd else (c.arr, zt(c.n))
        d0, v0 = (c.dom, c.val) if isd else (None, None)
        j = z3.Int("j!m")
        key, idx = p.u("key", "key").t, p.int("index").t

        def inv(it_, s, k):
            out = []
            if s.srcl is None:
                return out
            sa = s.srcl[0]
            at = (lambda t: v0[sa[t]]) if isd else (lambda t: sa[t])
            rng = z3.And(0 <= j, j < k)
            if pending:
                for nm, (dd, kk) in s.head.vars.items():
                    b = dd.get(kk)
                    if isinstance(b, bool) or isinstance(b, Sym) and b.k == "bool":
                        out.append((f"{nm}: pending so far", z3.Implies(z3.Or(was.t, z3.Exists([j], z3.And(rng, PEND(at(j))))), boolt(b))))
                        out.append((f"{nm}: something pending each time", z3.ForAll([j], z3.Implies(z3.And(rng, PEND(at(j))), boolt(b)), patterns=[sa[j]])))
                        out.append((f"{nm}: not pending without reason", z3.Implies(boolt(b), z3.Or(was.t, z3.Exists([j], z3.And(rng, PEND(at(j))))))))
            for nm, (dd, kk) in s.head.vars.items():
                l = dd.get(kk)
                if isinstance(l, ListObj) and l is not c and not isd:
                    a, m = view(it_, l, EU(None))
                    if a is not None:
                        out.append((f"{nm}: so far", z3.And(m == k, z3.ForAll([j], z3.Implies(rng, a[j] == MAT(sa[j]))))))
                if isinstance(l, DictObj) and l is not c and isd:
                    if l.items is None:
                        out.append((f"{nm}: keys", z3.And(z3.Implies(l.dom[key], d0[key]), z3.ForAll([j], z3.Implies(rng, l.dom[sa[j]]), patterns=[sa[j]]))))
                        out.append((f"{nm}: values", z3.Implies(l.dom[key], l.val[key] == MAT(v0[key]))))
                    elif not l.items:
                        out.append((f"{nm}: keys", k == 0))
                        out.append((f"{nm}: values", z3.BoolVal(True)))
            return out

        it.inv.append(inv)
        k, r = call_catch(it, f, [c] + extra)
        p.check("no exception", k == "ret")
        if k != "ret":
            return
        if pending:
            r, pe = it.unpack(r, 2)
        if isd:
            p.check("a dictionary becomes a dictionary", isinstance(r, DictObj) and r is not c)
            if r.items is not None:
                p.check("with the same keys", z3.Implies(z3.BoolVal(not r.items), z3.Not(d0[key])))
            else:
                p.check("with the same keys", r.dom[key] == d0[key])
                p.check("each value resolved", z3.Implies(d0[key], r.val[key] == MAT(v0[key])))
            p.check("the given container is not changed", z3.And(c.dom[key] == d0[key], z3.Implies(d0[key], c.val[key] == v0[key])))
            if pending:
                p.check("a missing object makes it pending", z3.Implies(z3.Or(was.t, z3.And(d0[key], PEND(v0[key]))), boolt(pe)))
        else:
            p.check("a container of the same type", isinstance(r, ListObj) and r.tup == (kind == "tuple") and (r is not c or kind == "tuple"))
            a, m = view(it, r, EU(None))
            p.check("of the same length", m == n0)
            p.check("each element resolved, in its place", z3.Implies(z3.And(0 <= idx, idx < n0), a[idx] == MAT(a0[idx])))
            p.check("the given container is not changed", z3.And(zt(c.n) == n0, z3.BoolVal(c.arr.eq(a0))))
            if pending:
                p.check("a missing object makes it pending", z3.Implies(z3.Or(was.t, z3.And(0 <= idx, idx < n0, PEND(a0[idx]))), boolt(pe)))
                p.check("pending only if an object is missing", z3.Implies(boolt(pe), z3.Or(was.t, z3.Exists([j], z3.And(0 <= j, j < n0, PEND(a0[j]))))))
        p.post()

    UNITS.append(Unit(f"{name}: {kind}", fn, budget=100))


for knd in ("list", "tuple", "dict", "leaf"):
    recursive("materialize_data_ids", MPI + "common", knd, True)
    recursive("unwrap_object_refs", "unidist.core.backends.common.utils", knd, False)


@unit(UNITS, "filter_arguments")
def u_filter(p):
    it = Interp(p)
    M = "unidist.core.base.common"
    ISREF, DEREF = z3.Function("is_ref", U, BoolS), z3.Function("ref_of", U, U)
    it.isinst_hook = lambda i, v, t: ISREF(v.t) if isinstance(v, Sym) and v.k == "u" and getattr(t, "name", "") == "ObjectRef" else NotImplemented
    it.attr_hook = lambda i, v, n: Sym(DEREF(v.t), "u") if isinstance(v, Sym) and n == "_ref" else NotImplemented
    W = lambda t: z3.If(ISREF(t), DEREF(t), t)
    args, kw = symlist(it, "args", EU(None)), sym_dict(it, "kwargs", EU(None), keyty="str")
    a0, n0, d0, v0 = args.arr, args.n, kw.dom, kw.val
    q, key = p.int("index").t, p.u("key", "str").t
    it.inv.append(c04.args_inv(args, kw, key, W, lambda t: z3.BoolVal(False), lambda: True))
    k, r = call_catch(it, glob(it, M, "filter_arguments"), [_Star(args)], {"**": kw})
    p.check("no exception", k == "ret")
    a, b = it.unpack(r, 2)
    if b.items is not None:
        b = dict_to_sym(it, b, EU(None), U)
    x, m = view(it, a, EU(None))
    p.check("as many positional arguments", m == zt(n0))
    p.check("each in its place; a reference becomes what it refers to", z3.Implies(z3.And(0 <= q, q < m), x[q] == W(a0[q])))
    p.check("the same keywords", b.dom[key] == d0[key])
    p.check("each with its value", z3.Implies(d0[key], b.val[key] == W(v0[key])))
    p.check("the given keywords are not changed", b is kw or z3.is_true(z3.simplify(z3.And(kw.dom == d0, kw.val == v0))))
    p.post()
