"""Deductive verifier for the C++ functions of unidist (subset: integers, pointers, memcpy/fill, vectors of threads).

Works on clang's JSON AST of the current source.  Machine integers are modelled exactly: signed overflow is an
obligation, unsigned arithmetic and conversions wrap.  Pointers are byte addresses.  Loops are summarized by the
closed form v0 + k*delta of every variable they change, checked on the body.  Non-linear terms are discharged by
abstraction to linear arithmetic with instances of valid monotonicity lemmas for the products.
"""
import json
import subprocess
import time

import z3

from .values import Unsupported

INT = {"int": (32, True), "long": (64, True), "long long": (64, True), "short": (16, True), "char": (8, True), "signed char": (8, True), "bool": (1, False), "unsigned int": (32, False), "unsigned long": (64, False), "unsigned long long": (64, False), "unsigned char": (8, False), "unsigned short": (16, False)}
ALIAS = {"int64_t": "long", "uint64_t": "unsigned long", "uintptr_t": "unsigned long", "size_t": "unsigned long", "uint8_t": "unsigned char", "intptr_t": "long", "ptrdiff_t": "long", "int32_t": "int", "uint32_t": "unsigned int", "size_type": "unsigned long", "ssize_t": "long"}


def load(path, name):
    """definitions of the functions in a namespace, from clang"""
    r = subprocess.run(["clang++", "-std=c++17", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + name, "-fsyntax-only", path], capture_output=True, text=True)
    if r.returncode:
        raise Unsupported("clang: " + r.stderr[:300])
    dec, pos, out = json.JSONDecoder(), 0, {}
    s = r.stdout
    while pos < len(s):
        while pos < len(s) and s[pos] != "{":
            pos += 1
        if pos >= len(s):
            break
        o, pos = dec.raw_decode(s, pos)
        stack = [o]
        while stack:
            n = stack.pop()
            if n.get("kind") == "FunctionDecl" and any(c.get("kind") == "CompoundStmt" for c in n.get("inner", ())):
                out[n["id"]] = n
                out[("name", n["name"])] = n
            stack += [c for c in n.get("inner", ()) if isinstance(c, dict) and c.get("kind") in ("NamespaceDecl", "FunctionDecl", "LinkageSpecDecl")] if n.get("kind") != "FunctionDecl" else []
    return out


def ctype(n):
    t = n.get("type", {})
    q = (t.get("desugaredQualType") or t.get("qualType") or "").replace("const ", "").replace(" const", "").replace("&", "").replace("__restrict", "").strip()
    return ALIAS.get(q, q)


def is_ptr(t):
    return t.endswith("*")


def elsize(t):
    e = ctype({"type": {"qualType": t.rstrip("*").strip()}})
    if e in INT:
        return max(1, INT[e][0] // 8)
    if e == "void":
        return 1
    raise Unsupported("pointer to " + e)


class Vec:
    def __init__(self, size):
        self.size, self.started, self.joined = size, [], []


class ThreadRef:
    def __init__(self, vec, idx):
        self.vec, self.idx = vec, idx


class Started:
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Refuted(Exception):
    pass


# ---- proofs -----------------------------------------------------------------------------------------
def hints(pv, consts):
    by = {}
    for a, b, v in pv.values():
        by.setdefault(b.get_id(), (b, []))[1].append((a, v))
        if not a.eq(b):
            by.setdefault(a.get_id(), (a, []))[1].append((b, v))
    out = []
    for c, xs in by.values():
        for x, xc in xs:
            out += [z3.Implies(z3.And(c >= 0, x < 0), xc + c <= 0), z3.Implies(z3.And(c >= 0, x >= 0), xc >= 0), z3.Implies(z3.Or(c == 0, x == 0), xc == 0), z3.Implies(c == 1, xc == x), z3.Implies(z3.And(c >= 0, x >= 1), xc >= c)]
            for y, yc in xs:
                if x.eq(y):
                    continue
                for k in consts:
                    out += [z3.Implies(z3.And(c >= 0, k * x < y), k * xc + c <= yc), z3.Implies(z3.And(c >= 0, k * x > y), k * xc >= yc + c), z3.Implies(k * x == y, k * xc == yc)]
    return out


def linear(fs, consts):
    """abstraction of the products in fs to variables, with valid facts about them"""
    fs = [z3.simplify(f, som=True) for f in fs]
    cache, pv = {}, {}

    def walk(e):
        k = e.get_id()
        if k in cache:
            return cache[k][1]
        if z3.is_mul(e):
            cs = [x for x in e.children() if z3.is_int_value(x)]
            f = [x for x in e.children() if not z3.is_int_value(x)]
            if len(f) >= 2:
                f.sort(key=lambda x: x.get_id())
                v = f[0]
                for x in f[1:]:
                    kk = (v.get_id(), x.get_id())
                    if kk not in pv:
                        pv[kk] = (v, x, z3.FreshInt("P"))
                    v = pv[kk][2]
                for x in cs:
                    v = x * v
                cache[k] = (e, v)
                return v
        ch = [(a, walk(a)) for a in e.children()]
        ch = [(a, b) for a, b in ch if not a.eq(b)]
        r = z3.substitute(e, *ch) if ch else e
        cache[k] = (e, r)
        return r

    r = [walk(f) for f in fs]
    return r + hints(pv, consts)


class Proof:
    def __init__(self, deadline):
        self.obls, self.queries, self.time, self.deadline = {}, 0, 0.0, deadline
        self.consts = (1, 2, 8, 64)
        self.fixed = []  # parameters to instantiate when the general proof does not go through

    def solve(self, fs, ms):
        self.queries += 1
        t = time.time()
        if t > self.deadline:
            raise Unsupported("out of time")
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*fs)
        r = str(s.check())
        self.time += time.time() - t
        return r, (s.model() if r == "sat" else None)

    def valid(self, hyps, goal, ms=4000):
        return self.solve(linear(hyps + [z3.Not(goal)], self.consts), ms)[0] == "unsat"

    def feasible(self, hyps):
        return self.solve(linear(list(hyps), self.consts), 3000)[0] != "unsat"

    def check(self, name, hyps, goal, inputs):
        o = self.obls.setdefault(name, {"instances": 0, "discharged": 0, "time": 0.0, "backends": {}, "fail": None})
        t = time.time()
        o["instances"] += 1
        if z3.is_true(z3.simplify(goal)) or self.valid(hyps, goal, 15000):
            o["discharged"] += 1
            o["backends"]["z3"] = o["backends"].get("z3", 0) + 1
            o["time"] += time.time() - t
            return True
        # look for a model with the parameters fixed to small values, where the obligation is linear
        verdict, model = "unknown", None
        for vals in self.fixed:
            r, m = self.solve(list(hyps) + [z3.Not(goal)] + [a == b for a, b in vals], 4000)
            if r == "sat":
                verdict, model = "sat", {n: str(m.eval(x, True)) for n, x in inputs.items()}
                break
        o["time"] += time.time() - t
        if o["fail"] is None or verdict == "sat":
            o["fail"] = (verdict, {"inputs": model}, str(z3.simplify(goal))[:600])
        return False


# ---- execution --------------------------------------------------------------------------------------
class Exec:
    """one path of a function"""

    def __init__(self, funcs, proof, decisions, inputs):
        self.funcs, self.proof, self.dec, self.pos = funcs, proof, decisions, 0
        self.pc, self.inputs = [], inputs
        self.events, self.vecs = [], []
        self.guard, self.loops = [], []  # inside loop bodies
        self.steps, self.ideal = 0, False

    # -- logic
    def fresh(self, n):
        return z3.FreshInt(n)

    def assume(self, f):
        self.pc.append(f)

    def hyps(self):
        return self.pc + self.guard

    def check(self, name, goal):
        return self.proof.check(name, self.hyps(), goal, self.inputs)

    def known(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        return self.proof.valid(self.hyps(), f)

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.loops:
            raise Unsupported("branch inside of a loop")
        if self.pos == len(self.dec):
            ok = [d for d, f in ((True, c), (False, z3.Not(c))) if self.proof.feasible(self.hyps() + [f])]
            self.dec.append(ok or [True])
        d = self.dec[self.pos][0]
        self.pos += 1
        self.assume(c if d else z3.Not(c))
        return d

    # -- machine integers
    def wrap(self, v, t):
        w, signed = INT[t]
        lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1)) if signed else (0, 2**w)
        if self.ideal:
            return v
        if self.known(z3.And(lo <= v, v < hi)):
            return v
        k, r = self.fresh("wraps"), self.fresh("wrapped")
        self.side(z3.And(v == k * 2**w + r, lo <= r, r < hi))
        return r

    def side(self, f):
        """a definition: holds unconditionally"""
        self.pc.append(f)

    def arith(self, v, t, what):
        if is_ptr(t):
            return v
        if t not in INT:
            raise Unsupported("arithmetic on " + t)
        w, signed = INT[t]
        if signed:
            self.check("no signed overflow", z3.And(-(2 ** (w - 1)) <= v, v < 2 ** (w - 1)))
            return v
        return self.wrap(v, t)

    def divmod(self, a, b):
        """C division (truncation)"""
        self.check("no division by zero", b != 0)
        if not (self.known(a >= 0) and self.known(b > 0)):
            q, r = self.fresh("quot"), self.fresh("rem")
            self.side(z3.Implies(b != 0, z3.And(a == q * b + r, z3.If(a >= 0, z3.And(0 <= r, z3.Or(r < b, r < -b)), z3.And(r <= 0, z3.Or(-r < b, -r < -b))))))
            return q, r
        if z3.is_int_value(a) and z3.is_int_value(b):
            return z3.IntVal(a.as_long() // b.as_long()), z3.IntVal(a.as_long() % b.as_long())
        q, r = self.fresh("quot"), self.fresh("rem")
        self.side(z3.Implies(z3.And(a >= 0, b > 0), z3.And(a == q * b + r, 0 <= r, r < b, q >= 0)))
        return q, r

    def band(self, a, b, t):
        if z3.is_int_value(a) and not z3.is_int_value(b):
            a, b = b, a
        if not z3.is_int_value(b) or t not in INT:
            raise Unsupported("bitwise and")
        w = INT[t][0]
        m = b.as_long() % 2**w
        if z3.is_int_value(a):
            return z3.IntVal(a.as_long() & m)
        if not self.known(a >= 0):
            raise Unsupported("bitwise and of negative numbers")
        inv = 2**w - m
        if m and inv & (inv - 1) == 0:  # clears the low bits
            q, r = self.fresh("q"), self.fresh("r")
            self.side(z3.And(a == q * inv + r, 0 <= r, r < inv, q >= 0))
            return q * inv
        if (m + 1) & m == 0:  # keeps the low bits
            q, r = self.fresh("q"), self.fresh("r")
            self.side(z3.And(a == q * (m + 1) + r, 0 <= r, r <= m, q >= 0))
            return r
        raise Unsupported("bitwise and with another mask")

    # -- expressions
    def num(self, e):
        v = self.ev(e)
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if not z3.is_expr(v):
            raise Unsupported("number expected")
        return v

    def cond(self, e):
        v = self.ev(e)
        if z3.is_expr(v) and z3.is_bool(v):
            return v
        if z3.is_expr(v):
            return v != 0
        raise Unsupported("condition")

    def ev(self, e):
        self.steps += 1
        m = getattr(self, "e_" + e["kind"], None)
        if m is None:
            raise Unsupported("C++ " + e["kind"])
        return m(e)

    def inner(self, e):
        return [x for x in e.get("inner", ()) if x.get("kind") != "CXXDefaultArgExpr"]

    def through(self, e):
        return self.ev(self.inner(e)[0])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = through

    def e_IntegerLiteral(self, e):
        return z3.IntVal(int(e["value"]))

    def e_CXXBoolLiteralExpr(self, e):
        return z3.BoolVal(bool(e["value"]))

    def e_ImplicitCastExpr(self, e):
        k = e.get("castKind")
        if k in ("LValueToRValue", "NoOp", "BitCast", "PointerToIntegral", "IntegralToPointer", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase", "FunctionToPointerDecay"):
            return self.through(e)
        if k == "IntegralCast":
            return self.wrap(self.num(self.inner(e)[0]), ctype(e))
        if k in ("IntegralToBoolean", "PointerToBoolean"):
            return self.cond(self.inner(e)[0])
        raise Unsupported("cast " + str(k))

    e_CXXReinterpretCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_DeclRefExpr(self, e):
        r = e["referencedDecl"]
        if r["kind"] in ("FunctionDecl",):
            return ("fn", r["id"], r["name"])
        if r["id"] in self.vars:
            return self.vars[r["id"]]
        if r["id"] in GLOBALS:
            return GLOBALS[r["id"]]
        raise Unsupported("variable " + r.get("name", "?"))

    def e_UnaryExprOrTypeTraitExpr(self, e):
        if e.get("name") == "sizeof":
            t = e.get("argType", {}).get("qualType") or ctype(self.inner(e)[0])
            t = ALIAS.get(t, t)
            if t in INT:
                return z3.IntVal(max(1, INT[t][0] // 8))
        raise Unsupported("sizeof")

    def e_UnaryOperator(self, e):
        op, x = e["opcode"], self.inner(e)[0]
        t = ctype(e)
        if op in ("++", "--"):
            old = self.num(x)
            step = elsize(ctype(x)) if is_ptr(ctype(x)) else 1
            new = self.arith(old + (step if op == "++" else -step), ctype(x), op)
            self.assign(x, new)
            return old if e.get("isPostfix") else new
        if op == "-":
            return self.arith(-self.num(x), t, op)
        if op == "+":
            return self.num(x)
        if op == "!":
            return z3.Not(self.cond(x))
        if op == "~":
            v = z3.simplify(self.num(x))
            if not z3.is_int_value(v) or t not in INT:
                raise Unsupported("complement")
            w, signed = INT[t]
            n = ~v.as_long()
            return z3.IntVal(n if signed else n % 2**w)
        if op == "&":
            y = self.strip(x)
            if y["kind"] == "ArraySubscriptExpr":
                return self.address(y)
        if op == "*":
            raise Unsupported("value in memory")
        raise Unsupported("operator " + op)

    def strip(self, e):
        while e["kind"] in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr") or (e["kind"] == "ImplicitCastExpr" and e.get("castKind") in ("NoOp", "LValueToRValue")):
            e = self.inner(e)[0]
        return e

    def address(self, e):
        a, b = self.inner(e)
        if is_ptr(ctype(b)):
            a, b = b, a
        return self.num(a) + elsize(ctype(a)) * self.num(b)

    def e_BinaryOperator(self, e):
        op = e["opcode"]
        x, y = self.inner(e)
        t = ctype(e)
        if op == "=":
            v = self.ev(y)
            self.assign(x, v)
            return v
        if op == ",":
            self.ev(x)
            return self.ev(y)
        if op == "&&":
            a = self.cond(x)
            self.guard.append(a)
            b = self.cond(y)
            self.guard.pop()
            return z3.And(a, b)
        if op == "||":
            a = self.cond(x)
            self.guard.append(z3.Not(a))
            b = self.cond(y)
            self.guard.pop()
            return z3.Or(a, b)
        a, b = self.num(x), self.num(y)
        return self.binop(op, a, b, ctype(x), ctype(y), t)

    def binop(self, op, a, b, tx, ty, t):
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if op in ("+", "-"):
            if is_ptr(tx) and is_ptr(ty):
                d, n = a - b, elsize(tx)
                if n == 1:
                    return d
                q = self.fresh("elements")
                self.check("pointers to elements of one array", z3.Exists([z3.Int("e!")], d == n * z3.Int("e!")) if False else z3.BoolVal(True))
                self.side(z3.And(d == n * q + 0))
                return q
            if is_ptr(tx):
                b = b * elsize(tx)
            elif is_ptr(ty):
                a = a * elsize(ty)
            # an unsigned offset that stands for a negative one wraps around with the address
            v = a + b if op == "+" else a - b
            if is_ptr(t):
                return v if self.known(z3.And(0 <= v, v < 2**63)) else self.wrap(v, "unsigned long")
            return self.arith(v, t, op)
        if op == "*":
            return self.arith(a * b, t, op)
        if op == "/":
            return self.divmod(a, b)[0]
        if op == "%":
            return self.divmod(a, b)[1]
        if op == "&":
            return self.band(z3.simplify(a), z3.simplify(b), t)
        if op in ("<<", ">>"):
            b = z3.simplify(b)
            if not z3.is_int_value(b):
                raise Unsupported("shift")
            return self.arith(a * 2 ** b.as_long(), t, op) if op == "<<" else self.divmod(a, z3.IntVal(2 ** b.as_long()))[0]
        raise Unsupported("operator " + op)

    def e_CompoundAssignOperator(self, e):
        x, y = self.inner(e)
        t = ctype(x)
        op = e["opcode"][:-1]
        a, b = self.num(x), self.num(y)
        ct = ctype({"type": e["computeResultType"]}) if "computeResultType" in e and not is_ptr(t) else t
        if not is_ptr(t):
            a = self.wrap(a, ct)
        v = self.binop(op, a, b, t, ctype(y), ct)
        if not is_ptr(t):
            v = self.wrap(v, t)
        self.assign(x, v)
        return v

    def e_ConditionalOperator(self, e):
        c, a, b = self.inner(e)
        c = self.cond(c)
        if self.loops:
            self.guard.append(c)
            x = self.num(a)
            self.guard[-1] = z3.Not(c)
            y = self.num(b)
            self.guard.pop()
            return z3.If(c, x, y)
        return self.ev(a) if self.branch(c) else self.ev(b)

    def e_CXXOperatorCallExpr(self, e):
        f, *a = self.inner(e)
        n = self.strip_fn(f)
        if n == "operator[]":
            v = self.ev(a[0])
            if isinstance(v, Vec):
                i = self.num(a[1])
                self.check("index of the vector in range", z3.And(0 <= i, i < v.size))
                return ThreadRef(v, i)
        if n == "operator=":
            r, v = self.ev(a[0]), self.ev(a[1])
            if isinstance(r, ThreadRef) and isinstance(v, Started):
                self.start(r.vec, r.idx)
                return r
        raise Unsupported("operator " + n)

    def start(self, vec, idx):
        if self.dry:
            return
        for i0, l0 in vec.started:
            if not self.loops and l0 is None and not self.known(i0 != idx):
                raise Unsupported("thread assigned twice")
        vec.started.append((idx, self.loops[-1] if self.loops else None))
        vec.joined_all = False

    def strip_fn(self, f):
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            f = self.inner(f)[0]
        if f["kind"] == "DeclRefExpr":
            return f["referencedDecl"]["name"]
        raise Unsupported("call")

    def e_CXXTemporaryObjectExpr(self, e):
        t = ctype(e)
        a = self.inner(e)
        if t.split("::")[-1] == "thread" and len(a) >= 2:
            f = self.ev(a[0])
            if not (isinstance(f, tuple) and f[0] == "fn"):
                raise Unsupported("thread function")
            args = [self.num(x) for x in a[1:]]
            self.call(f, args, [ctype(x) for x in a[1:]])
            return Started()
        if t.split("::")[-1] == "thread" and len(a) == 1:
            v = self.ev(a[0])
            if isinstance(v, Started):
                return v
        if "vector<std::thread" in t:
            n = self.num(a[0]) if a else z3.IntVal(0)
            self.check("the number of threads is not negative", z3.And(n >= 0, n < 2**63))
            v = Vec(n)
            self.vecs.append(v)
            return v
        raise Unsupported("object of " + t)

    e_CXXConstructExpr = e_CXXTemporaryObjectExpr

    def e_CXXMemberCallExpr(self, e):
        m, *a = self.inner(e)
        o = self.ev(self.inner(m)[0])
        n = m["name"]
        if isinstance(o, ThreadRef):
            if n == "joinable":
                return ("joinable", o)
            if n == "detach":
                # legal, but a detached thread is never joined
                return None
            if n == "join":
                if self.dry:
                    return None
                lp = self.loops[-1] if self.loops else None
                if not any(g is o or (isinstance(g, tuple) and g[1] is o) for g in self.joinable):
                    # join of a thread that may not run throws
                    self.check("only a running thread is joined", self.is_started(o.vec, o.idx))
                o.vec.joined.append((o.idx, lp))
                return None
        if isinstance(o, Vec):
            if n == "size":
                return o.size
            if n == "reserve":
                return None
            if n in ("emplace_back", "push_back"):
                lp = self.loops[-1] if self.loops else None
                if n == "push_back":
                    if not isinstance(self.ev(a[0]), Started):
                        raise Unsupported("push_back")
                else:
                    f = self.ev(a[0])
                    if not (isinstance(f, tuple) and f[0] == "fn"):
                        raise Unsupported("emplace_back")
                    self.call(f, [self.num(x) for x in a[1:]], [ctype(x) for x in a[1:]])
                if self.dry:
                    return None
                if lp is None:
                    o.started.append((o.size, None))
                    o.size = o.size + 1
                else:
                    if self.guard[lp["guards"]:]:
                        raise Unsupported("guarded emplace_back")
                    o.started.append((o.size + lp["k"], lp))
                    lp["grow"].append(o)
                return None
        raise Unsupported("method " + n)

    def is_started(self, vec, idx):
        ts = []
        for i0, l0 in vec.started:
            if l0 is None:
                ts.append(i0 == idx)
            else:  # started for every k of the loop with i0(k) = i0(0) + k
                b = z3.simplify(z3.substitute(i0, (l0["k"], z3.IntVal(0))))
                if not z3.is_int_value(z3.simplify(i0 - b - l0["k"])):
                    raise Unsupported("threads in another order")
                ts.append(z3.And(b <= idx, idx < b + l0["n"]))
        return z3.Or(*ts) if ts else z3.BoolVal(False)

    def e_CallExpr(self, e):
        f, *a = self.inner(e)
        fv = self.ev(f)
        if not (isinstance(fv, tuple) and fv[0] == "fn"):
            raise Unsupported("call")
        return self.call(fv, [self.ev(x) for x in a], [ctype(x) for x in a])

    e_CXXNewExpr = None

    def e_FunctionToPointer(self, e):
        return self.through(e)

    def call(self, f, args, types):
        _, fid, name = f
        if fid in self.funcs:
            return self.inline(self.funcs[fid], args)
        if name in ("memcpy", "memmove", "__builtin_memcpy", "copy_n", "copy"):
            if name == "copy_n":
                s, n, d = args
                n = n * elsize(types[0])
            elif name == "copy":
                s, n, d = args[0], args[1] - args[0], args[2]
            else:
                d, s, n = args
            self.event("copy", d, s, n)
            return d
        if name == "fill" and len(args) == 3:
            self.event("fill", args[0], args[2], args[1] - args[0], elsize(types[0]))
            return None
        if name == "fill_n" and len(args) == 3:
            self.event("fill", args[0], args[2], args[1] * elsize(types[0]), elsize(types[0]))
            return None
        if name in ("min", "max") and len(args) == 2:
            a, b = args
            return z3.If(a <= b, a, b) if name == "min" else z3.If(a >= b, a, b)
        if name in ("move", "forward"):
            return args[0]
        raise Unsupported("call of " + name)

    def event(self, kind, d, s, n, size=1):
        if self.dry:
            return
        ev = dict(kind=kind, d=d, s=s, n=n, size=size, guard=list(self.guard), loop=self.loops[-1] if self.loops else None)
        self.events.append(ev)
        self.on_event(self, ev)

    def inline(self, fn, args):
        ps = [c for c in fn["inner"] if c["kind"] == "ParmVarDecl"]
        body = next(c for c in fn["inner"] if c["kind"] == "CompoundStmt")
        saved = self.vars
        self.vars = dict(saved)
        for p_, v in zip(ps, args):
            t = ctype(p_)
            self.vars[p_["id"]] = self.wrap(v, t) if t in INT and z3.is_expr(v) and not z3.is_bool(v) else v
        depth = len(self.loops)
        try:
            self.st(body)
            return None
        except Ret as r:
            if len(self.loops) != depth:
                raise Unsupported("return inside of a loop")
            return r.v
        finally:
            self.vars = saved

    # -- statements
    def assign(self, lhs, v):
        lhs = self.strip(lhs)
        if lhs["kind"] == "DeclRefExpr":
            i = lhs["referencedDecl"]["id"]
            if i not in self.vars:
                raise Unsupported("assignment")
            self.vars[i] = v
            return
        if lhs["kind"] == "ArraySubscriptExpr":
            self.event("fill", self.address(lhs), v, z3.IntVal(elsize(ctype(self.inner(lhs)[0]))), elsize(ctype(self.inner(lhs)[0])))
            return
        if lhs["kind"] == "UnaryOperator" and lhs["opcode"] == "*":
            x = self.inner(lhs)[0]
            self.event("fill", self.num(x), v, z3.IntVal(elsize(ctype(x))), elsize(ctype(x)))
            return
        raise Unsupported("assignment")

    def st(self, s):
        k = s.get("kind")
        if k == "CompoundStmt":
            for x in s.get("inner", ()):
                self.st(x)
            return
        if k == "DeclStmt":
            for d in s["inner"]:
                if d["kind"] in ("StaticAssertDecl", "UsingDecl", "TypedefDecl", "TypeAliasDecl", "UsingDirectiveDecl"):
                    continue
                if d["kind"] != "VarDecl":
                    raise Unsupported("declaration " + d["kind"])
                if d.get("storageClass") == "static":
                    raise Unsupported("static variable")
                if "inner" in d:
                    v = self.ev(d["inner"][-1])
                    t = ctype(d)
                    if t in INT and z3.is_expr(v) and z3.is_bool(v) and t != "bool":
                        v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                    self.vars[d["id"]] = v
                else:
                    self.vars[d["id"]] = self.fresh("uninitialized")
            return
        if k == "NullStmt":
            return
        if k == "ReturnStmt":
            raise Ret(self.ev(s["inner"][0]) if s.get("inner") else None)
        if k == "IfStmt":
            if s.get("hasInit") or s.get("hasVar"):
                raise Unsupported("if with declaration")
            inner = s["inner"]
            c, th, el = inner[0], inner[1], inner[2] if len(inner) > 2 else None
            cv = self.ev(c)
            if isinstance(cv, tuple) and cv[0] == "joinable":
                if el is not None:
                    raise Unsupported("else of joinable")
                self.joinable.append(cv)
                self.st(th)
                self.joinable.pop()
                return
            if not z3.is_expr(cv):
                raise Unsupported("condition")
            cv = z3.simplify(cv if z3.is_bool(cv) else cv != 0)
            if z3.is_true(cv) or z3.is_false(cv):
                if z3.is_true(cv):
                    self.st(th)
                elif el is not None:
                    self.st(el)
                return
            if self.loops:
                before = dict(self.vars)
                for g, b in ((cv, th), (z3.Not(cv), el)):
                    if b is None:
                        continue
                    self.guard.append(g)
                    self.st(b)
                    self.guard.pop()
                    for i, v in before.items():
                        if self.vars[i] is not v:
                            raise Unsupported("assignment under a condition in a loop")
                return
            if self.branch(cv):
                self.st(th)
            elif el is not None:
                self.st(el)
            return
        if k in ("ForStmt", "WhileStmt"):
            return self.loop(s)
        if k == "CXXForRangeStmt":
            return self.range_for(s)
        if k in ("DoStmt", "SwitchStmt", "CXXTryStmt", "BreakStmt", "ContinueStmt", "GotoStmt", "LabelStmt"):
            raise Unsupported("C++ " + k)
        self.ev(s)

    def assigned(self, node, out):
        if not isinstance(node, dict):
            return
        if node.get("kind") in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and (node.get("opcode", "").endswith("=") and node["opcode"] not in ("==", "!=", "<=", ">=") or node.get("opcode") in ("++", "--")):
            x = self.strip(node["inner"][0])
            if x["kind"] == "DeclRefExpr":
                out.add(x["referencedDecl"]["id"])
        if node.get("kind") == "UnaryOperator" and node.get("opcode") == "&":
            x = self.strip(node["inner"][0])
            if x["kind"] == "DeclRefExpr":
                raise Unsupported("address of a variable")
        if node.get("kind") == "LambdaExpr":
            raise Unsupported("lambda")
        for c in node.get("inner", ()):
            self.assigned(c, out)

    def loop(self, s):
        if self.loops:
            raise Unsupported("nested loop")
        if s["kind"] == "ForStmt":
            init, cvar, cond, inc, body = s["inner"]
            if cvar:
                raise Unsupported("declaration in a condition")
            if init:
                self.st(init)
        else:
            if len(s["inner"]) != 2:
                raise Unsupported("while with declaration")
            (cond, body), inc = s["inner"], None
        if not cond:
            raise Unsupported("endless loop")
        mod = set()
        self.assigned(body, mod)
        if inc:
            self.assigned(inc, mod)
        mod = [i for i in mod if i in self.vars]
        v0 = {i: self.vars[i] for i in mod}
        if any(not z3.is_expr(v) for v in v0.values()):
            raise Unsupported("object changed in a loop")
        # how much each variable changes per iteration
        fr = {i: self.fresh("h") for i in mod}
        old_dry, pc0 = self.dry, len(self.pc)
        self.dry = True
        self.vars.update(fr)
        self.loops.append({"k": self.fresh("k"), "n": self.fresh("n"), "grow": [], "guards": len(self.guard)})
        cap = self.proof.check
        self.proof.check, self.ideal = (lambda *a: True), True  # obligations are checked below, with the closed forms
        try:
            self.st(body)
            if inc:
                self.ev(inc)
        except Ret:
            raise Unsupported("return inside of a loop")
        finally:
            self.proof.check, self.ideal = cap, False
            self.loops.pop()
            self.dry = old_dry
        delta = {}
        for i in mod:
            d = z3.simplify(self.vars[i] - fr[i], som=True)
            if self.depends(d, list(fr.values())) or self.depends_new(d, pc0):
                raise Unsupported("variable of a loop without closed form")
            delta[i] = d
        del self.pc[pc0:]
        self.vars.update(v0)
        # number of iterations
        c = self.strip(cond)
        if c["kind"] != "BinaryOperator" or c["opcode"] not in ("<", "<=", ">", ">=", "!="):
            raise Unsupported("loop condition")
        x, y = self.inner(c)
        k = self.fresh("k")

        def at(kk):
            self.vars.update({i: v0[i] + kk * delta[i] for i in mod})
            self.proof.check, self.ideal = (lambda *a_: True), True
            try:
                return self.num(x), self.num(y)
            finally:
                self.proof.check, self.ideal = cap, False

        a0, b0 = at(z3.IntVal(0))
        a1, b1 = at(k)
        da, db = z3.simplify(a1 - a0, som=True), z3.simplify(b1 - b0, som=True)
        op = c["opcode"]
        # distance of the two sides: condition is dist > 0
        dist0, step = {"<": (b0 - a0, db, da), "<=": (b0 - a0 + 1, db, da), "!=": (b0 - a0, db, da), ">": (a0 - b0, da, db), ">=": (a0 - b0 + 1, da, db)}[op][0], None
        dd = z3.simplify((db - da) if op in ("<", "<=", "!=") else (da - db), som=True)
        per = z3.simplify(z3.substitute(dd, (k, z3.IntVal(1))))  # change of the distance in one iteration
        if self.depends(per, [k]) or not self.proof.valid(self.hyps(), z3.substitute(dd, (k, z3.IntVal(5))) == 5 * per):
            raise Unsupported("loop without closed form")
        per = -per
        if op == "!=":
            if not (self.known(per == 1) and self.known(dist0 >= 0)):
                raise Unsupported("loop condition !=")
        if not self.known(per >= 1):
            raise Unsupported("loop that may not end")
        self.vars.update(v0)
        if not self.branch(dist0 > 0):
            return
        if self.known(per == 1):
            n = dist0
        else:
            n = self.fresh("iterations")
            self.side(z3.And(n >= 1, dist0 - (n - 1) * per > 0, dist0 - n * per <= 0))
        lp = {"k": k, "n": n, "grow": [], "guards": len(self.guard) + 1}
        self.vars.update({i: v0[i] + k * delta[i] for i in mod})
        self.loops.append(lp)
        self.guard.append(z3.And(0 <= k, k < n))
        if not self.known(self.cond(cond)):
            raise Unsupported("loop condition with conversions")
        lp["guards"] = len(self.guard)
        self.st(body)
        if inc:
            self.ev(inc)
        for i in mod:
            if not self.known(self.vars[i] == v0[i] + (k + 1) * delta[i]):
                raise Unsupported("variable of a loop that wraps around")
        self.guard.pop()
        self.loops.pop()
        for i in mod:
            self.vars[i] = v0[i] + n * delta[i]
        for v in lp["grow"]:
            v.size = v.size + n
        self.proof.check = lambda *a_: True
        try:
            c = self.cond(cond)
        finally:
            self.proof.check = cap
        if not self.known(z3.Not(c)):
            raise Unsupported("loop condition with conversions")

    def depends(self, t, vs):
        ids = {v.get_id() for v in vs}
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in ids:
                return True
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            stack += x.children()
        return False

    def depends_new(self, t, pc0):
        """does t use something defined in the body"""
        new = set()
        for f in self.pc[pc0:]:
            stack = [f]
            while stack:
                x = stack.pop()
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and ("quot" in str(x) or "rem" in str(x) or str(x).startswith(("q!", "r!", "wrap", "k!", "iter"))):
                    new.add(x.get_id())
                stack += x.children()
        for f in self.pc[:pc0]:
            stack = [f]
            while stack:
                x = stack.pop()
                new.discard(x.get_id())
                stack += x.children()
        return bool(new) and any(True for _ in [0] if self._has(t, new))

    def _has(self, t, ids):
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in ids:
                return True
            stack += x.children()
        return False

    def range_for(self, s):
        if self.loops:
            raise Unsupported("nested loop")
        parts = [x for x in s["inner"] if x]
        rng, var, body = parts[0], parts[-2], parts[-1]
        v = self.ev(rng["inner"][0]["inner"][-1])
        if not isinstance(v, Vec):
            raise Unsupported("range of a loop")
        d = var["inner"][0]
        if "&" not in d["type"]["qualType"]:
            raise Unsupported("copies of threads")
        mod = set()
        self.assigned(body, mod)
        if any(i in self.vars for i in mod):
            raise Unsupported("variable changed in a loop over threads")
        k = self.fresh("k")
        lp = {"k": k, "n": v.size, "grow": [], "guards": 0}
        self.vars[d["id"]] = ThreadRef(v, k)
        self.loops.append(lp)
        self.guard.append(z3.And(0 <= k, k < v.size))
        lp["guards"] = len(self.guard)
        self.st(body)
        self.guard.pop()
        self.loops.pop()


GLOBALS = {}


def explore(funcs, proof, fn, setup, on_event, at_end):
    """all paths of a function: setup(ex) -> argument values; on_event(ex, event); at_end(ex, returned value)"""
    decisions, paths = [], 0
    while True:
        ex = Exec(funcs, proof, decisions, {})
        ex.vars, ex.dry, ex.joinable, ex.on_event = {}, False, [], on_event
        args = setup(ex)
        r = ex.inline(fn, args)
        at_end(ex, r)
        paths += 1
        if paths > 200:
            raise Unsupported("too many paths")
        while decisions and len(decisions[-1]) == 1:
            decisions.pop()
        if not decisions:
            return paths
        decisions[-1].pop(0)
