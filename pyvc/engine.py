"""Path exploration by re-execution, proof obligations, and loop summaries with invariants found by
elimination (Houdini): candidates that do not hold on entry or are not preserved are dropped and the
exploration restarts, so every invariant that is finally assumed has been proved inductive."""
import os
import subprocess
import tempfile
import threading
import time

import z3

from .values import *


_forall = z3.ForAll


def forall(vs, body, weight=1, qid="", skid="", patterns=[], no_patterns=[]):
    """a term that cannot be a pattern is not one"""
    try:
        return _forall(vs, body, weight, qid, skid, patterns, no_patterns)
    except z3.Z3Exception:
        if not patterns:
            raise
        return _forall(vs, body, weight, qid, skid, [], no_patterns)


z3.ForAll = forall
z3.set_param("warning", False)


class PathEnd(Exception):
    """The current path is complete (back edge reached or infeasible)."""


class Restart(Exception):
    """A loop summary changed: every result of this round is discarded."""


class Limit(Exception):
    """Time or size budget exhausted: undecided."""


class NotPure(Exception):
    """A speculative pure evaluation would branch or write."""


class Refuted(Exception):
    """bounded mode: a counterexample without any loop summary was found"""


class PyRaise(Exception):
    """A Python exception propagates in the interpreted program."""

    def __init__(self, value):
        self.value = value


def has_quant(f, memo={}):
    k = f.get_id()
    stack, seen = [f], set()
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            if not x.is_lambda():
                return True
            stack.append(x.body())
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        stack.extend(x.children())
    return False


class LoopInfo:
    def __init__(self):
        self.kinds = {}  # location -> list of kinds seen at the back edge / entry
        self.dead = set()  # names of eliminated candidates
        self.guesses = {}  # name -> guess builder
        self.rounds = 0


class Obligation:
    def __init__(self, name):
        self.name = name
        self.n = 0
        self.ok = 0
        self.time = 0.0
        self.backends = {}
        self.fail = None  # (status, detail)


class Engine:
    def __init__(self, name, deadline=None, opts=None):
        self.name = name
        self.loops = {}
        self.obls = {}
        self.paths = 0
        self.posts = 0
        self.covers = {}
        self.restarts = 0
        self.deadline = deadline or (time.time() + 120)
        self.solver_time = 0.0
        self.queries = 0
        self.opts = opts or {}
        self.funcs = {}  # qualified name -> "verified body"/"inlined"/"summary"
        self.assumed = {}
        self.smt_dump = []
        self.deferred = []
        self.invariants = set()
        self.path = None

    # -- exploration --------------------------------------------------------------------
    def explore(self, scenario):
        for _ in range(self.opts.get("max_restarts", 400)):
            self.obls = {}
            self.paths = self.posts = 0
            self.covers = {}
            self.smt_dump = []
            self.invariants = set()
            try:
                self.deferred = []
                self._explore_once(scenario)
                self.finish()
                return
            except Restart:
                self.restarts += 1
        raise Limit("too many restarts")

    def _explore_once(self, scenario):
        work = [()]
        while work:
            if time.time() > self.deadline:
                raise Limit("time budget exhausted")
            prefix = work.pop()
            p = Path(self, prefix)
            self.path = p
            self.paths += 1
            if self.paths > self.opts.get("max_paths", 4000):
                raise Limit("too many paths")
            try:
                scenario(p)
            except PathEnd:
                pass
            for i in range(len(prefix), len(p.decisions)):
                d, alts = p.decisions[i]
                for a in alts:
                    if a != d:
                        work.append(tuple(x for x, _ in p.decisions[:i]) + (a,))

    # -- solving ------------------------------------------------------------------------
    def solve(self, fs, timeout=8000, cvc5=True, want_model=False, quick=False):
        """Returns ('unsat'|'sat'|'unknown', model or None, backend).  E-matching first, then model-based
        instantiation, then cvc5."""
        t0 = time.time()
        timeout = timeout * self.opts.get("scale", 1)
        self.queries += 1
        model = None
        be = "z3"
        for rel in (2, 0):
            s = z3.Solver()
            s.set("auto_config", False)
            s.set("smt.mbqi", False)
            s.set("smt.relevancy", rel)
            s.set("smt.random_seed", self.opts.get("seed", 0))
            res = _check(s, fs, timeout)
            if res != "unknown":
                break
        if res == "sat":
            model = s.model() if want_model else None
        if res == "unknown" and not quick:
            s2 = z3.Solver()
            s2.set("auto_config", False)
            res = _check(s2, fs, timeout)
            be = "z3-mbqi"
            if res == "sat" and want_model:
                model = s2.model()
            if res == "unknown" and cvc5 and run_cvc5(fs, timeout / 1000.0 * 2) == "unsat":
                res, be = "unsat", "cvc5"
        dt = time.time() - t0
        self.solver_time += dt
        if dt > 0.3 and self.opts.get("debug"):
            print(f"    slow {dt:.1f}s {res} {be} {str(fs[-1])[:200]}")
        return res, model, be

    def obligation(self, name, goal, path, extra=None):
        o = self.obls.setdefault(name, Obligation(name))
        o.n += 1
        t0 = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            o.ok += 1
            o.backends["simplifier"] = o.backends.get("simplifier", 0) + 1
            return True
        fs = list(path.pc) + [z3.Not(g)]
        if self.opts.get("unroll"):
            res, model, be = self.solve(fs, timeout=2000, want_model=True, cvc5=False)
            if res == "unsat":
                o.ok += 1
                return True
            o.fail = (res, path.describe(model), str(goal)[:1500])
            if res == "sat":
                raise Refuted()
            return False
        res, model, be = self.solve(fs, timeout=3000, quick=True)
        o.time += time.time() - t0
        if res != "unsat":
            # the expensive attempts wait until the loop invariants have settled
            self.deferred.append((o, fs, path, goal))
            return False
        o.ok += 1
        o.backends[be] = o.backends.get(be, 0) + 1
        if len(self.smt_dump) < 400:
            self.smt_dump.append((name, fs))
        return True

    def finish(self):
        for o, fs, path, goal in self.deferred:
            t0 = time.time()
            if o.fail is not None and o.fail[0] == "sat":
                continue
            if time.time() > self.deadline:
                raise Limit("time budget exhausted")
            self._heavy(o, fs, path, goal)
            o.time += time.time() - t0

    def _heavy(self, o, fs, path, goal):
        name = o.name
        res, model, be = self.solve(fs, timeout=self.opts.get("timeout", 8000), want_model=True)
        if res == "unsat":
            o.ok += 1
            o.backends[be] = o.backends.get(be, 0) + 1
            if len(self.smt_dump) < 400:
                self.smt_dump.append((name, fs))
            return True
        if o.fail is None or (o.fail[0] == "unknown" and res == "sat"):
            o.fail = (res, path.describe(model), str(goal)[:1500])
        return False


def _check(s, fs, timeout):
    """check with a hard stop: the timeout option alone is not always honoured"""
    s.set("timeout", int(timeout))
    s.set("rlimit", int(timeout) * 20000)
    s.add(*fs)
    tm = threading.Timer(timeout / 1000.0 * 1.5 + 0.5, z3.main_ctx().interrupt)
    tm.start()
    try:
        return str(s.check())
    except z3.Z3Exception:
        return "unknown"
    finally:
        tm.cancel()


def run_cvc5(fs, secs):
    s = z3.Solver()
    s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, fn = tempfile.mkstemp(suffix=".smt2", dir=os.environ.get("PYVC_TMP") or None)
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        out = subprocess.run(["cvc5", f"--tlimit={int(secs * 1000)}", "--lang=smt2", fn], capture_output=True, text=True, timeout=secs + 5).stdout
        return (out.strip().splitlines() or ["unknown"])[0]
    except Exception:
        return "unknown"
    finally:
        os.unlink(fn)


class Path:
    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.qf = z3.Solver()
        self.qf.set("timeout", 1500)
        self.qf.set("rlimit", 20000000)
        self.fresh_n = {}
        self.objs = []
        self.inputs = {}
        self.events = []
        self.tracked = []  # names of distinguished elements whose occurrences are counted
        self.tracked_terms = {}
        self.reg_cls = []
        self.noeffect = 0
        self.made = []
        self.buffered = []
        self.noeffect_base = 0
        self.pure = None  # (decision prefix, decisions) of a speculative pure evaluation
        self.conds = []  # branch conditions taken
        self.sumfns = {}
        self.trace = []
        self.interp = None
        self.strs = {}

    # -- terms --------------------------------------------------------------------------
    def fresh(self, name, sort):
        i = self.fresh_n.get(name, 0)
        self.fresh_n[name] = i + 1
        t = z3.Const(f"{name}!{i}" if i else name, sort)
        if self.noeffect:
            self.made.append(t)
        return t

    def int(self, name):
        t = self.fresh(name, IntS)
        return Sym(t, "int")

    def bool(self, name):
        return Sym(self.fresh(name, BoolS), "bool")

    def u(self, name, ty=None):
        return Sym(self.fresh(name, U), "u", ty)

    def reg(self, o):
        o.oid = len(self.objs)
        self.objs.append(o)
        return o

    def track(self, name, term):
        """An arbitrary but fixed element: what is proved about its occurrences holds for every element."""
        self.tracked.append(name)
        self.tracked_terms[name] = term

    def input(self, name, v):
        self.inputs[name] = v
        return v

    # -- path condition -----------------------------------------------------------------
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathEnd()
        self.pc.append(f)
        if not has_quant(f):
            self.qf.add(f)

    def feasible(self, f):
        self.eng.queries += 1
        t0 = time.time()
        r = self.qf.check(f)
        self.eng.solver_time += time.time() - t0
        return r != z3.unsat

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.noeffect:
            if not self.feasible(z3.Not(cond)):
                return True
            if not self.feasible(cond):
                return False
            if self.pure is None:
                raise NotPure()
            prefix, taken = self.pure
            i = len(taken)
            d = prefix[i] if i < len(prefix) else True
            c = cond if d else z3.simplify(z3.Not(cond))
            taken.append((d, c))
            self.assume(c)
            return d
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append((d, ()))
        else:
            if time.time() > self.eng.deadline:
                raise Limit("time budget exhausted")
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if not t and not f:
                raise PathEnd()
            d = 1 if t else 0
            self.decisions.append((d, (0, 1) if t and f else (d,)))
        c = cond if d else z3.Not(cond)
        self.conds.append(z3.simplify(c))
        self.assume(c)
        return bool(d)

    def choose(self, n):
        if n == 1:
            return 0
        if self.noeffect:
            raise NotPure()
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append((d, ()))
        else:
            d = 0
            self.decisions.append((d, tuple(range(n))))
        return d

    def key(self):
        return tuple(x for x, _ in self.decisions)

    def holds(self, f, timeout=2500, mbqi=False):
        """Provable from the path condition (used for candidate invariants)."""
        if isinstance(f, bool):
            return f
        g = z3.simplify(f)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        # a quick refutation attempt over the quantifier-free part finds most wrong candidates
        fs = self.pc + [z3.Not(g)]
        res, _, _ = self.eng.solve(fs, timeout=timeout, quick=True)
        if res == "unknown" and mbqi:
            s = z3.Solver()
            s.set("auto_config", False)
            res = _check(s, fs, 1500)
        return res == "unsat"

    def check(self, name, goal):
        if self.noeffect:
            # counts only if the speculative evaluation is used
            self.buffered.append((name, goal, list(self.pc)))
            return True
        return self.eng.obligation(name, goal, self)

    def cover(self, name):
        """Reachability: some path must reach this point with a satisfiable condition."""
        if not self.eng.covers.get(name):
            self.eng.covers[name] = self.qf.check() != z3.unsat

    def post(self):
        self.eng.posts += 1
        self.cover("post")

    def describe(self, model):
        out = []
        if model is not None:
            for k, v in self.inputs.items():
                out.append(f"{k} = {self.show(v, model)}")
        return {"inputs": out, "decisions": list(self.key()), "trace": self.trace[-25:]}

    def show(self, v, m):
        try:
            if isinstance(v, Sym):
                return str(m.eval(v.t, model_completion=True))
            if isinstance(v, ListObj):
                if v.items is not None:
                    return "[" + ", ".join(self.show(x, m) for x in v.items) + "]"
                n = m.eval(v.n, model_completion=True).as_long()
                return "[" + ", ".join(str(m.eval(v.arr[i], model_completion=True)) for i in range(max(0, min(n, 12)))) + (" ..." if n > 12 else "") + f"] (len {n})"
            if z3.is_expr(v):
                return str(m.eval(v, model_completion=True))
            if callable(v):
                return str(v(m))
            return repr(v)
        except Exception as e:  # display only
            return f"<{e}>"
