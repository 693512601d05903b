"""Random programs over the public API of unidist with their sequential meaning as oracle.  The same programs run on the
simulated MPI cluster (every process, random schedules) and on the in-process backends."""
import pickle
import random

import numpy as np

from rt import Bad, Gap, ensure, short

LOG = []  # (uid, rank) of every execution of a task


class Boom(Exception):
    pass


class Other(ValueError):
    pass


class Box:
    """a user class with structural equality"""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Box) and same(self.x, o.x)

    def __hash__(self):
        return 1

    def __repr__(self):
        return f"Box({self.x!r})"


def here():
    import sim

    w = sim.WORLD
    return w.cur.rank if w is not None and w.active else -1


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, Exception):
        return a.args == b.args
    if callable(a) and hasattr(a, "__code__"):
        return a.__code__.co_code == b.__code__.co_code
    return a == b


# -- tasks ------------------------------------------------------------------------------------------
def t_echo(uid, *args, **kwargs):
    LOG.append((uid, here()))
    return [list(args), dict(kwargs)]


def t_multi(uid, n, *args, **kwargs):
    LOG.append((uid, here()))
    return [[i, list(args), dict(kwargs)] for i in range(n)]


def t_tuple(uid, n, *args):
    LOG.append((uid, here()))
    return tuple([i, list(args)] for i in range(n))


def t_fail(uid, kind, *args, **kwargs):
    LOG.append((uid, here()))
    raise (Boom if kind == 0 else Other)(f"task {uid}", uid)


def pause(secs):
    """time passes inside of a task"""
    import sim

    w = sim.WORLD
    if w is not None and w.active and w.mine():
        w.block(lambda: False, "work", timeout=secs)
    else:
        sim._real_sleep(secs / 10)


def t_slow(uid, n, *args):
    LOG.append((uid, here()))
    for _ in range(n):
        pause(0.01)
    LOG.append(("end", uid))
    return [n, list(args)]


def t_slow_fail(uid, n, *args):
    LOG.append((uid, here()))
    for _ in range(n):
        pause(0.01)
    LOG.append(("end", uid))
    raise Boom(f"task {uid}", uid)


async def t_async(uid, *args):
    import asyncio

    LOG.append((uid, here()))
    await asyncio.sleep(0.01 * (uid % 3))
    LOG.append(("end", uid))
    return [list(args)]


async def t_async_fail(uid, *args):
    import asyncio

    LOG.append((uid, here()))
    await asyncio.sleep(0)
    LOG.append(("end", uid))
    raise Boom(f"task {uid}", uid)


class Counter:
    def __init__(self, uid, start):
        LOG.append((("actor", uid), here()))
        self.uid, self.v, self.calls = uid, start, []

    def add(self, uid, x):
        LOG.append((uid, here()))
        self.calls.append(uid)
        self.v = self.v + x
        return self.v

    def pair(self, uid, x):
        LOG.append((uid, here()))
        self.calls.append(uid)
        return [x, [self.uid, x]]

    def fail(self, uid):
        LOG.append((uid, here()))
        self.calls.append(uid)
        raise Boom(f"actor task {uid}", uid)

    def history(self, uid):
        LOG.append((uid, here()))
        return list(self.calls)


def make_value(rng, depth=2, big=True):
    k = rng.randrange(13)
    if k == 0:
        return rng.randrange(-1000, 1000)
    if k == 1:
        return rng.choice([None, True, False, 0, 1.5, -0.0, "", "x" * rng.randrange(50), b"", b"ab\x00" * rng.randrange(30)])
    if k == 2:
        return np.arange(rng.choice([1, 3, 40, 700]), dtype=rng.choice(["int64", "float32", "uint8"]))
    if k == 3 and big:
        return np.random.RandomState(rng.randrange(1000)).rand(rng.choice([20, 300, 1200]))
    if k == 4:
        return Box(rng.randrange(100))
    if k == 5 and big:
        return bytes([rng.randrange(256)]) * rng.choice([10, 900, 3000])
    if k == 6:
        return np.arange(12).reshape(3, 4)[:, ::2]
    if depth <= 0:
        return rng.randrange(100)
    n = rng.randrange(4)
    if k in (7, 8):
        return [make_value(rng, depth - 1, big) for _ in range(n)]
    if k == 9:
        return tuple(make_value(rng, depth - 1, big) for _ in range(n))
    if k in (10, 11):
        return {f"k{i}": make_value(rng, depth - 1, big) for i in range(n)}
    return "s" * rng.randrange(20)


class Ref:
    def __init__(self, ref, exp, uid=None, ready=False):
        self.ref, self.exp, self.uid, self.put = ref, exp, uid, ready


class Driver:
    def __init__(self, u, rng, nested=True, world=None, actors=True, wait_put=False, async_tasks=False, drop=True, big=True, fails=True, track=True, ordered=True, at_rest=()):
        self.at_rest = at_rest  # checks to be made when the cluster is at rest
        self.ordered = ordered  # calls of an actor run in the order of their submission
        self.track = track  # executions are visible in LOG
        self.u, self.rng, self.nested, self.w = u, rng, nested, world
        self.refs, self.tasks, self.uid, self.trace, self.actors = [], {}, 0, [], []
        self.use_actors, self.wait_put, self.async_tasks, self.drop_ok, self.big, self.fails = actors, wait_put, async_tasks, drop, big, fails
        self.expected_runs = {}
        self.async_uids = set()
        self.must_not_run = set()
        self.max_actors = 1 if world is None else max(0, len([r for r in range(world.n)]) - 4)
        LOG.clear()
        self.f = {}
        self.dec = {"echo": u.remote(t_echo), "multi": u.remote(t_multi), "tuple": u.remote(t_tuple), "fail": u.remote(t_fail), "slow": u.remote(t_slow), "slow_fail": u.remote(t_slow_fail)}
        self.dec["multi3"] = u.remote(num_returns=3)(t_multi)
        self.dec["none"] = u.remote(num_returns=0)(t_echo)
        self.dec["fail2"] = u.remote(num_returns=2)(t_fail)
        if async_tasks:
            self.dec["async"] = u.remote(t_async)
            self.dec["async_fail"] = u.remote(t_async_fail)
        self.cls = u.remote(Counter)

    def bad(self, what, **kw):
        e = Bad(what)
        e.details = dict(kw, program=self.trace[-30:])
        raise e

    def new_uid(self):
        self.uid += 1
        return self.uid

    def value(self):
        return make_value(self.rng, big=self.big)

    # -- arguments ------------------------------------------------------------------------
    def arg(self, depth=2):
        """(argument, its meaning or an exception when it is a failed reference)"""
        r = self.rng.random()
        if r < 0.45 and self.refs:
            x = self.rng.choice(self.refs)
            return x.ref, x.exp, False
        if self.nested and depth and r < 0.75:
            k = self.rng.randrange(3)
            parts = [self.arg(depth - 1) for _ in range(self.rng.randrange(4))]
            parts = [p for p in parts if p[1][0] == "val"]
            for p in parts:
                ensure(p[1][0] == "val", "x")
            if k == 0:
                return [p[0] for p in parts], ("val", [p[1][1] for p in parts]), True
            if k == 1:
                return tuple(p[0] for p in parts), ("val", tuple(p[1][1] for p in parts)), True
            return {f"a{i}": p[0] for i, p in enumerate(parts)}, ("val", {f"a{i}": p[1][1] for i, p in enumerate(parts)}), True
        v = self.value()
        return v, ("val", v), False

    def call_args(self, maxn=3, kw=True):
        a = [self.arg() for _ in range(self.rng.randrange(maxn + 1))]
        names = ["n0", "n1", "zeta", "alpha", "data2", "args_", "Key"]
        self.rng.shuffle(names)
        k = {names[i]: self.arg() for i in range(self.rng.randrange(3))} if kw else {}
        fails = [x[1] for x in list(a) + list(k.values()) if x[1][0] == "exc"]
        fail = ("exc", *fails[0][1:3], [y for x in fails for y in alts(x)]) if fails else None
        return [x[0] for x in a], {n: x[0] for n, x in k.items()}, [x[1][1] if x[1][0] == "val" else None for x in a], {n: x[1][1] if x[1][0] == "val" else None for n, x in k.items()}, fail

    def expect_run(self, uid, fail):
        if fail is None:
            self.expected_runs[uid] = 1
        else:
            self.must_not_run.add(uid)

    # -- steps ----------------------------------------------------------------------------
    def s_put(self):
        v = self.value()
        self.trace.append(("put", short(v, 60)))
        r = self.u.put(v)
        self.refs.append(Ref(r, ("val", v), ready=True))

    def s_echo(self):
        uid = self.new_uid()
        a, k, ea, ek, fail = self.call_args()
        self.trace.append(("echo", uid, len(a), sorted(k), "failed argument" if fail else ""))
        before = [pick(x) for x in a + list(k.values())]
        r = self.dec["echo"].remote(uid, *a, **k)
        self.check_one(r, "echo")
        self.expect_run(uid, fail)
        self.refs.append(Ref(r, fail or ("val", [ea, ek]), uid))
        for x, y in zip(a + list(k.values()), before):
            if y is not None and not same_shape(x, y):
                self.bad("a container of the caller was modified", argument=short(x), before=short(y))

    def s_multi(self):
        uid = self.new_uid()
        which = self.rng.randrange(4)
        a, k, ea, ek, fail = self.call_args(2, kw=which != 2)
        n = self.rng.choice([2, 3, 5])
        if which == 0:
            n = 3
            self.trace.append(("multi", uid, n, "declared"))
            rs = self.dec["multi3"].remote(uid, n, *a, **k)
        elif which == 1:
            self.trace.append(("multi", uid, n, "options over declared"))
            rs = self.dec["multi3"].options(num_returns=n).remote(uid, n, *a, **k)
        elif which == 2:
            self.trace.append(("tuple", uid, n))
            rs = self.dec["tuple"].options(num_returns=n).remote(uid, n, *a)
        else:
            self.trace.append(("multi", uid, n, "options"))
            rs = self.dec["multi"].options(num_returns=n).remote(uid, n, *a, **k)
        if not isinstance(rs, list) or len(rs) != n:
            self.bad(f"num_returns={n} does not give a list of {n} references", got=short(rs))
        self.expect_run(uid, fail)
        for i, r in enumerate(rs):
            self.refs.append(Ref(r, fail or ("val", [i, ea] if which == 2 else [i, ea, ek]), uid))

    def s_none(self):
        uid = self.new_uid()
        bad = self.rng.random() < 0.4 and self.fails
        a, k, ea, ek, fail = self.call_args(2, kw=not bad)
        if bad:
            self.trace.append(("fail with num_returns=0", uid))
            r = self.dec["fail"].options(num_returns=0).remote(uid, 0, *a)
        else:
            self.trace.append(("num_returns=0", uid))
            r = self.dec["none"].remote(uid, *a, **k)
        if r is not None:
            self.bad("num_returns=0 does not give None", got=short(r))
        self.expect_run(uid, fail)

    def s_one_after_zero(self):
        uid = self.new_uid()
        self.trace.append(("num_returns 0 overridden by 1", uid))
        r = self.dec["none"].options(num_returns=1).remote(uid, 7)
        self.check_one(r, "options(num_returns=1)")
        self.expect_run(uid, None)
        self.refs.append(Ref(r, ("val", [[7], {}]), uid))

    def s_fail(self):
        if not self.fails:
            return
        uid = self.new_uid()
        kind = self.rng.randrange(2)
        a, k, ea, ek, fail = self.call_args(1)
        exp = fail or ("exc", Boom if kind == 0 else Other, (f"task {uid}", uid))
        n = self.rng.choice([1, 1, 2])
        self.trace.append(("fail", uid, n))
        if n == 1:
            rs = [self.dec["fail"].remote(uid, kind, *a, **k)]
        else:
            rs = self.dec["fail2"].remote(uid, kind, *a, **k)
        if len(rs) != n:
            self.bad("wrong number of references", got=short(rs))
        self.expect_run(uid, fail)
        for r in rs:
            self.refs.append(Ref(r, exp, uid))

    def s_async(self):
        if not self.async_tasks:
            return
        uid = self.new_uid()
        a, k, ea, ek, fail = self.call_args(2, kw=False)
        self.trace.append(("async", uid))
        self.async_uids.add(uid)
        if self.rng.random() < 0.3:
            r = self.dec["async_fail"].remote(uid, *a)
            exp = fail or ("exc", Boom, (f"task {uid}", uid))
        else:
            r = self.dec["async"].remote(uid, *a)
            exp = fail or ("val", [ea])
        self.expect_run(uid, fail)
        self.refs.append(Ref(r, exp, uid))

    def s_slow(self):
        uid = self.new_uid()
        a, k, ea, ek, fail = self.call_args(1, kw=False)
        n = self.rng.randrange(4)
        bad = self.fails and self.rng.random() < 0.3
        self.trace.append(("slow fail" if bad else "slow", uid, n))
        self.async_uids.add(uid)
        r = self.dec["slow_fail" if bad else "slow"].remote(uid, n, *a)
        self.check_one(r, "a task")
        self.expect_run(uid, fail)
        self.refs.append(Ref(r, fail or (("exc", Boom, (f"task {uid}", uid)) if bad else ("val", [n, ea])), uid))

    def check_one(self, r, what):
        if not isinstance(r, self.u.core.base.object_ref.ObjectRef):
            self.bad(f"{what} does not give one reference", got=short(r))

    def compare(self, x, got, how):
        if x.exp[0] == "exc":
            self.bad(f"{how} of a failed task returned a value instead of raising", got=short(got), expected=short(x.exp))
        if not same(got, x.exp[1]):
            self.bad(f"{how} returned a wrong value", got=short(got), expected=short(x.exp[1]), task=x.uid)

    def expect_exc(self, e, xs, how):
        for x in xs:
            if x.exp[0] == "exc" and any(isinstance(e, c) and e.args[:1] == a[:1] for c, a in alts(x.exp)):
                return
        self.bad(f"{how} raised {type(e).__name__}: {short(str(e), 200)}", expected=[short(x.exp) for x in xs])

    def s_get(self):
        if not self.refs:
            return
        x = self.rng.choice(self.refs)
        self.trace.append(("get", x.uid))
        try:
            v = self.u.get(x.ref)
        except (Boom, Other) as e:
            return self.expect_exc(e, [x], "get")
        self.compare(x, v, "get")

    def s_get_list(self):
        if not self.refs:
            return
        xs = [self.rng.choice(self.refs) for _ in range(self.rng.randrange(1, 5))]
        if self.rng.random() < 0.3:
            xs.append(xs[0])
        if self.rng.random() < 0.6:
            xs = [x for x in xs if x.exp[0] == "val"]
        if not xs:
            return
        self.trace.append(("get list", [x.uid for x in xs]))
        try:
            vs = self.u.get([x.ref for x in xs])
        except (Boom, Other) as e:
            return self.expect_exc(e, xs, "get of a list")
        if not isinstance(vs, list) or len(vs) != len(xs):
            self.bad("get of a list does not return a list of the same length", got=short(vs), expected=len(xs))
        for i, (x, v) in enumerate(zip(xs, vs)):
            self.compare(x, v, f"element {i} of get of a list")

    def s_wait(self):
        xs = [x for x in self.refs if self.wait_put or not x.put]
        if not xs:
            return
        xs = self.rng.sample(xs, self.rng.randrange(1, min(7, len(xs)) + 1))
        k = self.rng.randrange(1, len(xs) + 1)
        self.trace.append(("wait", [x.uid for x in xs], k))
        refs = [x.ref for x in xs]
        keep = list(refs)
        r, p = self.u.wait(refs, num_returns=k)
        if len(r) != k:
            self.bad(f"wait(num_returns={k}) returned {len(r)} ready references", of=len(xs))
        ids = sorted(id_of(x) for x in list(r) + list(p))
        if ids != sorted(id_of(x) for x in keep):
            self.bad("wait does not return the references passed in, each once", ready=[id_of(x) for x in r], pending=[id_of(x) for x in p], passed=[id_of(x) for x in keep])
        by = {id_of(x.ref): x for x in xs}
        for q in r:
            x = by[id_of(q)]
            if self.track and x.uid is not None and x.uid in self.expected_runs and not self.finished(x.uid):
                self.bad("wait reports a task as finished that has not finished", task=x.uid)
        return r, p

    def finished(self, uid):
        if uid in self.async_uids:
            return ("end", uid) in LOG
        return any(u == uid for u, _ in LOG)

    def s_drop(self):
        if self.drop_ok and len(self.refs) > 3:
            x = self.refs.pop(self.rng.randrange(len(self.refs)))
            self.trace.append(("drop", x.uid))
            if self.w is not None and self.rng.random() < 0.3:
                self.w.settle()

    def s_settle(self):
        if self.w is not None:
            self.trace.append(("settle",))
            self.w.settle()
            for f in self.at_rest:
                f(self.u, self.w, self)

    def s_actor_new(self):
        if not self.use_actors or len(self.actors) >= self.max_actors:
            return
        uid = self.new_uid()
        st = self.rng.choice([0, 10, np.zeros(3)])
        self.trace.append(("actor", uid))
        h = self.cls.remote(uid, st)
        self.actors.append({"h": h, "uid": uid, "v": st, "calls": []})

    def s_actor_call(self):
        if not self.actors:
            return
        a = self.rng.choice(self.actors)
        uid = self.new_uid()
        k = self.rng.randrange(10)
        if not self.ordered and (k < 5 or k >= 8):
            k = self.rng.choice([5, 6, 7]) if self.fails else 5
        if k < 5:
            x = self.rng.randrange(10)
            arg = x
            cands = [q for q in self.refs if q.exp[0] == "val" and type(q.exp[1]) is int]
            if cands and self.rng.random() < 0.5:
                q = self.rng.choice(cands)
                arg, x = q.ref, q.exp[1]
            self.trace.append(("actor add", a["uid"], uid))
            r = a["h"].add.remote(uid, arg)
            if arg is not x and self.w is not None:
                self.u.wait([r], num_returns=1)  # later calls may overtake one that is waiting for its argument
            a["v"] = a["v"] + x
            exp = ("val", a["v"])
            a["calls"].append(uid)
        elif k < 7:
            self.trace.append(("actor pair", a["uid"], uid))
            m = a["h"].pair
            o = m.options(num_returns=2)
            if self.rng.random() < 0.4:
                # the options of one call are not those of the next one
                self.trace.append(("actor pair", a["uid"], uid, "one reference"))
                r = m.remote(uid, uid)
                if isinstance(r, list) or r is None:
                    self.bad("options() of one call changed the number of references of another call", got=short(r))
                a["calls"].append(uid)
                self.expected_runs[uid] = 1
                self.refs.append(Ref(r, ("val", [uid, [a["uid"], uid]]), uid))
                uid = self.new_uid()
            rs = o.remote(uid, uid)
            a["calls"].append(uid)
            self.expected_runs[uid] = 1
            if not isinstance(rs, list) or len(rs) != 2:
                self.bad("actor call with num_returns=2 does not give two references", got=short(rs))
            self.refs.append(Ref(rs[0], ("val", uid), uid))
            self.refs.append(Ref(rs[1], ("val", [a["uid"], uid]), uid))
            return
        elif k < 8 and self.fails:
            self.trace.append(("actor fail", a["uid"], uid))
            r = a["h"].fail.remote(uid)
            exp = ("exc", Boom, (f"actor task {uid}", uid))
            a["calls"].append(uid)
        else:
            self.trace.append(("actor history", a["uid"], uid))
            r = a["h"].history.remote(uid)
            exp = ("val", list(a["calls"]))
        self.expected_runs[uid] = 1
        self.refs.append(Ref(r, exp, uid))

    def run(self, steps, weights=None):
        base = {"put": 3, "echo": 6, "multi": 2, "none": 1, "one_after_zero": 0.3, "fail": 1, "get": 3, "get_list": 3, "wait": 2, "drop": 2, "settle": 0.5, "actor_new": 0.5, "actor_call": 2, "async": 1, "slow": 1.5}
        base.update(weights or {})
        names = list(base)
        ws = [base[n] for n in names]
        for _ in range(steps):
            n = self.rng.choices(names, ws)[0]
            getattr(self, "s_" + n)()
            if len(self.refs) > 40:
                del self.refs[:-25]
        self.finish()

    def finish(self):
        self.trace.append(("read everything",))
        for x in list(self.refs):
            try:
                v = self.u.get(x.ref)
            except (Boom, Other) as e:
                self.expect_exc(e, [x], "get")
                continue
            self.compare(x, v, "get")
        if self.w is not None:
            self.w.settle()
        if self.track is not True:
            return
        runs = {}
        for u, r in LOG:
            if u != "end":
                runs[u] = runs.get(u, 0) + 1
        for u, n in self.expected_runs.items():
            if runs.get(u, 0) != n:
                self.bad(f"task {u} ran {runs.get(u, 0)} times")
        for u in self.must_not_run:
            if runs.get(u):
                self.bad(f"task {u} ran although one of its arguments failed")


def alts(exp):
    """the exceptions that a failed task may carry: its own or that of any failed argument"""
    return exp[3] if len(exp) > 3 else [(exp[1], exp[2])]


def id_of(ref):
    r = getattr(ref, "_ref", ref)
    return repr(r) if not isinstance(r, object) or type(r).__repr__ is not object.__repr__ else id(r)


def pick(x):
    if isinstance(x, (list, tuple)):
        return type(x)(pick(y) for y in x)
    if isinstance(x, dict):
        return {k: pick(v) for k, v in x.items()}
    return Holder(x)


class Holder:
    def __init__(self, x):
        self.x = x


def same_shape(x, y):
    if isinstance(y, Holder):
        return x is y.x
    if type(x) is not type(y) or len(x) != len(y):
        return False
    if isinstance(x, dict):
        return list(x) == list(y) and all(same_shape(x[k], y[k]) for k in x)
    return all(same_shape(a, b) for a, b in zip(x, y))


SHARED = {"UNIDIST_MPI_SHARED_OBJECT_STORE": "True", "UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY": "30000000", "UNIDIST_MPI_SHARED_SERVICE_MEMORY": "16384", "UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD": "1000"}


def mpi_program(seed, steps=40, n=None, hosts=None, shared=None, weights=None, extra=None, after=None, before=None, **kw):
    """one random program on one random cluster; returns the world"""
    import sim

    rng = random.Random(seed * 7919 + 13)
    n = n or rng.choice([3, 4, 5, 6])
    if hosts is None and n >= 5 and rng.random() < 0.5:
        hosts = [0, 0] + [rng.choice([0, 1]) for _ in range(n - 4)] + [1, 1]
        hosts = sorted(hosts) if rng.random() < 0.7 else hosts
    shared = rng.random() < 0.4 if shared is None else shared
    env = dict(SHARED) if shared else {"UNIDIST_MPI_PICKLE_THRESHOLD": rng.choice(["0", "100", "1000"])}
    w = sim.World(n, seed=seed, hosts=hosts, env=env, blocksize=rng.choice([2**30, 2**30, 700, 64]))

    w.driver = None

    def scen(u, w):
        d = Driver(u, rng, nested=True, world=w, **kw)
        w.driver = d
        if before:
            before(u, w, d)
        d.run(steps, weights)
        if extra:
            extra(u, w, d)
        d.refs.clear()
        d.actors.clear()
        u.shutdown()
        w.stopping_ok = True
        w.settle()
        if after:
            after(u, w, d)
        left = {k: [(m.src, m.tag) for m in q] for k, q in w.queues.items() if q}
        if left:
            e = Bad("messages were sent that nobody received")
            e.details = {"left": left}
            raise e
        if sorted(w.finalized) != list(range(w.n)):
            raise Bad(f"after shutdown only the processes {sorted(set(w.finalized))} of {w.n} have ended")
        return d

    try:
        w.run(scen)
    except Bad as e:
        e.details = dict(getattr(e, "details", {}), seed=seed, ranks=n, hosts=w.hosts, env=env)
        if w.driver is not None:
            e.details["program"] = w.driver.trace[-30:]
        raise
    return w
