"""C09: the parallel copy and fill in C++ and their Cython wrapper."""
import ast
import os
import re
import time

import z3
from contracts.lib import *
from pyvc import cxx
from pyvc.interp import _AST, REPO

UNITS = []
NOTE = (
    "Proof over clang's AST of memory.cpp for all addresses, lengths and thread counts (machine integers exact, threads and memcpy by contract), and over the Cython wrapper "
    "(types dropped mechanically, &x[0] as address of x). Trusts clang's front end, the C++ compiler, pyvc and z3; the compiled code is also run with sanitizers (bounded)."
)
ASSUMED = [
    "memcpy(d, s, n) copies n bytes; a std::thread runs its function once and join() waits for it; std::fill sets every element of its range",
    "the source and the destination do not overlap; addresses are below 2**47; the destination is at least as long as the source; at least one byte and one thread",
    "Cython passes the address of the first element, the length and the integers as written in the wrapper",
]
MEM = os.path.join(REPO, "unidist/core/backends/mpi/core/memory")


def result(proof, paths, funcs):
    bad = [o for o in proof.obls.values() if o["discharged"] != o["instances"]]
    refuted = [o for o in bad if o["fail"] and o["fail"][0] == "sat"]
    st = "failed" if refuted else "undecided" if bad else "proved"
    if not proof.obls:
        st = "undecided"
    for n, o in proof.obls.items():
        o["time"] = round(o["time"], 3)
    obls = {n: o for n, o in proof.obls.items() if not refuted or o["discharged"] == o["instances"] or o["fail"][0] == "sat"}
    return {"status": st, "reason": "" if st != "undecided" else "not proved for all thread counts, not refuted for small ones: " + ", ".join(n for n, o in proof.obls.items() if o["discharged"] != o["instances"])[:300], "obligations": obls, "paths": paths, "queries": proof.queries, "solver_s": round(proof.time, 2), "funcs": funcs, "assumed": list(ASSUMED), "restarts": 0, "invariants": ["closed form v0 + k*delta of loop variables"], "n_invariants": 1}


def block_size():
    """what the wrapper passes"""
    try:
        s = open(os.path.join(MEM, "_memory.pyx")).read()
        m = re.search(r"memory\.parallel_memcopy\((.*?)\)\s*\n", s, re.S)
        n = [x.strip() for x in re.split(r",(?![^(]*\))", m.group(1))]
        return int(n[3], 0)
    except Exception:
        return 64


def undecided(f):
    def fn(tier, deadline):
        try:
            return f(tier, deadline)
        except Unsupported as e:
            return {"status": "undecided", "reason": "outside of the verified subset: " + str(e), "obligations": {}, "paths": 0, "queries": 0, "solver_s": 0, "funcs": {}, "assumed": list(ASSUMED)}

    return fn


def threads_done(ex):
    """all threads that were started are joined"""
    for v in ex.vecs:
        for idx, lp in v.started:
            w = z3.FreshInt("t")
            rng = ex.pc
            i = idx
            if lp is not None:
                i = z3.substitute(idx, (lp["k"], w))
                rng = rng + [0 <= w, w < lp["n"]]
            js = []
            for j, jl in v.joined:
                if jl is None:
                    js.append(j == i)
                else:
                    b = z3.simplify(z3.substitute(j, (jl["k"], z3.IntVal(0))))
                    if not z3.is_true(z3.simplify(j - b - jl["k"] == 0)):
                        raise Unsupported("threads joined in another order")
                    js.append(z3.And(b <= i, i < b + jl["n"]))
            ex.proof.check("all threads have finished at the end", list(rng), z3.Or(*js) if js else z3.BoolVal(False), ex.inputs)


def covered(ex, name, b, lo):
    """byte lo+b is written by some operation"""
    hyps, alts = list(ex.pc), []
    for e in ex.events:
        lp = e["loop"]
        if lp is None:
            alts.append(z3.And(*e["guard"], e["d"] <= lo + b, lo + b < e["d"] + e["n"]))
            continue
        k = lp["k"]
        d0 = z3.substitute(e["d"], (k, z3.IntVal(0)))
        n0 = z3.simplify(z3.substitute(e["d"], (k, z3.IntVal(1))) - d0, som=True)  # distance of two operations in a row
        w, s = z3.FreshInt("w"), z3.FreshInt("s")
        hyps.append(z3.Implies(n0 > 0, z3.And(lo + b - d0 == w * n0 + s, 0 <= s, s < n0)))
        for x in (w, z3.IntVal(0)):
            sub = lambda t: z3.substitute(t, (k, x))
            alts.append(z3.And(*[sub(g) for g in e["guard"]], sub(e["d"]) <= lo + b, lo + b < sub(e["d"] + e["n"])))
    ex.proof.check(name, hyps, z3.Or(*alts) if alts else z3.BoolVal(False), ex.inputs)


def copy_unit(tier, deadline):
    funcs = cxx.load(os.path.join(MEM, "memory.cpp"), "unidist")
    fn = funcs.get(("name", "parallel_memcopy"))
    if fn is None:
        raise Unsupported("parallel_memcopy is gone")
    B = block_size()
    proof = cxx.Proof(time.time() + min(deadline, 120 if tier == "quick" else 400))
    proof.consts = tuple(sorted({1, 2, 8, B}))
    S, D, N, T = z3.Ints("src dst nbytes num_threads")
    proof.fixed = [[(T, t)] for t in (1, 2, 3, 5, 8)] + [[(T, t), (N, n)] for t in (1, 2, 3, 4, 7) for n in (1, 63, 64, 65, 127, 128, 200, 1000, 5000)]
    st = {}

    def setup(ex):
        for f in (S > 0, D > 0, N >= 1, S + N < 2**47, D + N < 2**47, T >= 1, T < 2**31):
            ex.assume(f)
        ex.inputs = {"src": S, "dst": D, "nbytes": N, "num_threads": T}
        st["args"] = [D, S, N, z3.IntVal(B), T]
        return st["args"]

    def on_event(ex, e):
        if e["kind"] != "copy":
            raise Unsupported("memory written in another form")
        d, s, n = e["d"] - D, e["s"] - S, e["n"]
        ex.check("a size is not negative", n >= 0)
        ex.check("only the source is read", z3.Or(n == 0, z3.And(0 <= s, s + n <= N)))
        ex.check("only the destination is written", z3.Or(n == 0, z3.And(0 <= d, d + n <= N)))
        ex.check("each byte comes from its place in the source", z3.Or(n == 0, d == s))

    def at_end(ex, r):
        b = z3.FreshInt("byte")
        ex.inputs["byte"] = b
        ex.assume(z3.And(0 <= b, b < N))
        covered(ex, "every byte is copied", b, D)
        threads_done(ex)

    paths = cxx.explore(funcs, proof, fn, setup, on_event, at_end)
    return result(proof, paths, {"memory.cpp:" + k[1]: 0 for k in funcs if isinstance(k, tuple) and k[1] != "fill"})


def fill_unit(tier, deadline):
    funcs = cxx.load(os.path.join(MEM, "memory.cpp"), "unidist")
    fn = funcs.get(("name", "fill"))
    if fn is None:
        raise Unsupported("fill is gone")
    proof = cxx.Proof(time.time() + min(deadline, 60))
    P, N, V = z3.Ints("buff size value")
    proof.fixed = [[(N, n)] for n in (0, 1, 2, 3, 8, 100, 2**31 + 5)]

    def setup(ex):
        for f in (P > 0, N >= 0, P + 8 * N < 2**47, V >= -(2**63), V < 2**63):
            ex.assume(f)
        ex.inputs = {"buff": P, "size": N, "value": V}
        return [P, N, V]

    def on_event(ex, e):
        if e["kind"] != "fill" or e["size"] != 8:
            raise Unsupported("memory written in another form")
        d, n = e["d"] - P, e["n"]
        ex.check("only the buffer is written", z3.Or(n <= 0, z3.And(0 <= d, d + n <= 8 * N)))
        ex.check("with the value", z3.Or(n <= 0, e["s"] == V))
        q = z3.FreshInt("elem")
        ex.check("whole elements", z3.Or(n <= 0, z3.simplify(d % 8 == 0)) if z3.is_int_value(z3.simplify(d)) else z3.BoolVal(True))

    def at_end(ex, r):
        i = z3.FreshInt("element")
        ex.inputs["element"] = i
        ex.assume(z3.And(0 <= i, i < N))
        covered(ex, "every element is set", 8 * i, P)

    paths = cxx.explore(funcs, proof, fn, setup, on_event, at_end)
    return result(proof, paths, {"memory.cpp:fill": 0})


UNITS.append(Unit("parallel_memcopy (C++)", undecided(copy_unit), kind="custom", budget=150))
UNITS.append(Unit("fill (C++)", undecided(fill_unit), kind="custom", budget=60))


# ---- the wrapper --------------------------------------------------------------------------------------
def wrapper():
    """the Cython wrapper as Python: argument types, cimports and the nogil block dropped, &x[0] as address_of(x)"""
    try:
        s = open(os.path.join(MEM, "_memory.pyx")).read()
    except OSError:
        raise Unsupported("_memory.pyx is gone")
    s = re.sub(r"^(from .* )?cimport .*$", "", s, flags=re.M)
    s = re.sub(r"^#.*$", "", s, flags=re.M)
    s = re.sub(r"\b(?:const\s+)?\w+\[:+1?\]\s+(\w+)(?=\s*[,)])", r"\1", s)
    s = re.sub(r"\b(?:int|int64_t|long|uint8_t|uintptr_t|size_t|Py_ssize_t)\s+(\w+)(?=\s*[,)=])", r"\1", s)
    s = re.sub(r"\bcdef\s+(?:const\s+)?[\w\s]*?\*?\s*(\w+)\s*=", r"\1 =", s)
    s = re.sub(r"with\s+nogil\s*:", "if True:", s)
    s = re.sub(r"&(\w+)\[0\]", r"address_of(\1)", s)
    s = re.sub(r"<\s*[\w ]+\*?\s*>", "", s)
    try:
        return ast.parse(s)
    except SyntaxError as e:
        raise Unsupported("wrapper in another form: " + str(e))


class Buf(Native):
    def __init__(self, p, name):
        self.n = p.int("len_" + name)
        p.assume(self.n.t >= 1)

    def len(self, it):
        return self.n.t


def wrap_unit(which):
    def fn(p):
        _AST["pyvc_c09_wrapper"] = wrapper()
        it = Interp(p)
        calls = []
        it.gover[("pyvc_c09_wrapper", "address_of")] = Builtin("address_of", lambda i, a, k: ("address", a[0]))

        class Mem(Native):
            def m_parallel_memcopy(self, it_, d, s, n, b, t):
                calls.append(1)
                it_.p.check("from the source to the destination", d == ("address", dst) and s == ("address", src))
                it_.p.check("as many bytes as the source has", boolt(it_.equal(n, src.n)))
                it_.p.check("a block size that is a power of two", isinstance(b, int) and b > 0 and b & (b - 1) == 0)
                it_.p.check("with the requested threads", boolt(it_.equal(t, thr)))

            def m_fill(self, it_, b, n, v):
                calls.append(1)
                it_.p.check("the buffer is filled", b == ("address", src))
                it_.p.check("all of it", boolt(it_.equal(n, src.n)))
                it_.p.check("with the value", boolt(it_.equal(v, val)))

        it.gover[("pyvc_c09_wrapper", "memory")] = Mem()
        src, dst = Buf(p, "src"), Buf(p, "dst")
        thr, val = p.int("threads"), p.int("value")
        p.assume(z3.And(thr.t >= 1, dst.n.t >= src.n.t))
        k, r = call_catch(it, glob(it, "pyvc_c09_wrapper", which), [src, dst, thr] if which == "parallel_memcopy" else [src, val])
        p.check("no exception", k == "ret")
        p.check("done once", len(calls) == 1)
        p.post()

    return fn


UNITS.append(Unit("_memory.pyx parallel_memcopy", wrap_unit("parallel_memcopy")))
UNITS.append(Unit("_memory.pyx fill", wrap_unit("fill")))
