"""C14: data requests and their answers."""
import random
from collections import Counter, defaultdict

from rt import *
from cases import CORE, batch, in_root, messages, pair, payload, roles
import prog
from c13 import ids_of

W = {"put": 4, "echo": 9, "multi": 5, "none": 1, "fail": 2, "get": 5, "get_list": 4, "drop": 1, "settle": 1, "wait": 2, "async": 3, "slow": 4, "actor_new": 1, "actor_call": 4}


class Audit:
    def __init__(self, shared):
        self.shared = shared

    def rest(self, u, w, d):
        import sim

        for _ in range(100):
            w.settle()
            ms = messages(w)
            if sum(m.op in ("EXECUTE", "ACTOR_EXECUTE") for m in ms) <= sum(m.op == "TASK_DONE" for m in ms):
                break
            sim._real_sleep(0.005)
        gets, blocking, replies, puts, home = Counter(), Counter(), Counter(), Counter(), {}
        for m in ms:
            if m.op in ("EXECUTE", "ACTOR_EXECUTE"):
                for i in ids_of(payload(w, m)["output"]):
                    home[i] = m.dst
        for m in ms:
            if m.op == "GET":
                q = payload(w, m)
                ensure(q["source"] == m.src, "a request does not name the process that asks", message=str(m), names=q["source"])
                (blocking if q["is_blocking_op"] or m.src == 0 else gets)[(m.src, m.dst, pair(q["id"]))] += 1
            elif m.op == "REPLY":
                h = m.parts[0][2]
                import pickle

                h = pickle.loads(h)
                if isinstance(h, dict) and "id" in h:
                    replies[(m.dst, m.src, pair(h["id"]))] += 1
            elif m.op in ("PUT_DATA", "PUT_SHARED_DATA"):
                import pickle

                h = pickle.loads(m.parts[0][2])
                puts[(m.dst, m.src, pair(h["id"]))] += 1
            elif m.op == "PUT_OWNER":
                q = payload(w, m)
                i = pair(q["id"])
                ensure(q["owner"] == home.get(i, i[0]), "a location was sent that is not the process which has the object", id=i, sent=q["owner"], real=home.get(i, i[0]), message=str(m))
        bad = [(k, blocking[k], replies[k]) for k in set(blocking) | set(replies) if blocking[k] != replies[k]]
        ensure(not bad, "the number of answers to a process differs from the number of its blocking requests", requester_owner_id_requests_answers=bad[:3])
        none = [k for k in gets if not puts[k]]
        ensure(not none, "a request was never answered", requester_owner_id=none[:3])
        twice = [(k, v) for k, v in puts.items() if v > 1]
        ensure(not twice, "an object was sent again to a process that already has it", receiver_sender_id=twice[:3])
        self.n = (sum(blocking.values()), sum(gets.values()), sum(puts.values()))


def one(seed):
    rng = random.Random(seed)
    shared = rng.random() < 0.3
    a = Audit(shared)
    w = prog.mpi_program(seed, steps=45, shared=shared, weights=W, extra=a.rest, at_rest=[a.rest], async_tasks=True)
    return {"seed": seed, "hosts": w.hosts, "blocking, non-blocking requests, pushes": a.n}


class Hidden:
    """an object with a reference that is not resolved when it is passed to a task"""

    def __init__(self, *refs):
        self.refs = refs


def t_get(h):
    import unidist as u

    return [u.get(r) for r in h.refs]


def t_slow(k, v):
    for _ in range(k):
        prog.pause(0.01)
    return v


def t_id(*a):
    return list(a)


def inner(seed):
    """tasks that get references themselves, while other tasks of the same worker wait for them"""
    rng = random.Random(seed)
    shared = rng.random() < 0.3
    env = dict(prog.SHARED) if shared else {}

    def body(u, w):
        slow, idf, getf = u.remote(t_slow), u.remote(t_id), u.remote(t_get)
        cnt = [0]

        def on(k, f, *a):
            # two workers in rotation: the sources are on one of them, their users on the other, as a worker that
            # blocks in get serves nobody
            while cnt[0] % 2 != k:
                slow.remote(rng.randrange(2), 0)
                cnt[0] += 1
            cnt[0] += 1
            return f.remote(*a)

        n = rng.randrange(1, 4)
        src = [on(0, slow, rng.randrange(5), [i] * rng.choice([3, 3000])) for i in range(n)]
        if rng.random() < 0.2:
            u.get(src)
        out = []
        for _ in range(rng.randrange(2, 9)):
            ks = [rng.randrange(n) for _ in range(rng.randrange(1, 3))]
            # the worker knows the locations of references that came with an earlier task
            out.append((ks, on(1, idf, *[src[k] for k in ks])))
            if rng.random() < 0.6:
                out.append((ks, on(1, getf, Hidden(*[src[k] for k in ks]))))
        for ks, r in out:
            v = u.get(r)
            ensure(len(v) == len(ks) and all(x[:1] == [k] and len(set(x)) == 1 for x, k in zip(v, ks)), "a task got other values than those of its references", got=v, expected=ks)
        a = Audit(shared)
        a.rest(u, w, None)
        return {"seed": seed, "requests": a.n}

    return in_root(body, n=4, seed=seed, env=env)


if __name__ == "__main__":
    rep = Report("C14")
    rep.seed += 1400
    k = 400 if rep.thorough else 20
    b = 420 if rep.thorough else 40
    cs = [(f"random programs #{g}", lambda g=g: batch([rep.seed * 1000 + g * 5000 + i for i in range(k)], one, b)) for g in range(5)]
    cs += [(f"requests by tasks #{g}", lambda g=g: batch([rep.seed * 1000 + g * 5000 + i for i in range(2 * k)], inner, b)) for g in range(3)]
    rep.run(cs, procs=8, rule="random programs with many requests between processes; requests, answers, pushes and locations on the wire audited at rest; distinct seeds")
