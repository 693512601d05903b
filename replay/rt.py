"""Run-time side of the contracts: reports, guards and a process pool for the concrete replay scripts."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import threading
import time
import traceback

sys.setrecursionlimit(5000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Gap(BaseException):
    """The harness cannot drive this version of the code: never a verdict on it."""


class Bad(AssertionError):
    """A contract is violated."""


def need(mod, name=None):
    try:
        o = importlib.import_module(mod) if isinstance(mod, str) else mod
        for part in (name or "").split("."):
            if part:
                o = getattr(o, part)
        return o
    except (ImportError, AttributeError) as e:
        raise Gap(f"{mod}.{name}: {e}")


def ensure(cond, what, **details):
    if not cond:
        e = Bad(what)
        e.details = details
        raise e


def short(x, n=600):
    try:
        s = repr(x)
    except Exception as e:
        s = f"<{type(x).__name__}: {e}>"
    return s if len(s) <= n else s[:n] + "..."


def from_repo(e):
    """Was the exception raised by (or below) code of the repository?"""
    tb = e.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    return bool(files) and any(f.startswith(REPO + "/unidist") for f in files)


class Report:
    def __init__(self, prop):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default="quick")
        ap.add_argument("--seed", type=int, default=1)
        ap.add_argument("--out", default="/dev/stdout")
        ap.add_argument("--case", default=None)
        ap.add_argument("-v", action="store_true")
        a = ap.parse_args()
        self.prop, self.tier, self.seed, self.out, self.only, self.verbose = prop, a.tier, a.seed, a.out, a.case, a.v
        self.thorough = a.tier == "thorough"
        self.d = {"evaluations": 0, "distinct": 0, "failures": [], "samples": [], "skipped": [], "rule": ""}
        self.groups = {}

    def write(self):
        self.d["groups"] = self.groups
        tmp = self.out + ".tmp" if self.out != "/dev/stdout" else self.out
        with open(tmp, "w") as f:
            json.dump(self.d, f, default=repr, indent=1)
        if tmp != self.out:
            os.replace(tmp, self.out)

    def run(self, cases, procs=6, rule="", case_timeout=240, total=600):
        """cases: list of (name, fn).  fn() performs checks, returns (evaluations, distinct, samples) and raises Bad or
        an exception of the code under test for a violation.  Every case runs in a process of its own."""
        self.d["rule"] = rule
        cases = [(n, f) for n, f in cases if self.only is None or n == self.only]
        todo = list(cases)
        live = {}
        t_end = time.time() + total
        ctx = mp.get_context("fork")
        while todo or live:
            while todo and len(live) < procs and time.time() < t_end:
                n, f = todo.pop(0)
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(n, f, w), daemon=False)
                p.start()
                w.close()
                live[n] = (p, r, time.time())
            if todo and time.time() >= t_end:
                self.d["skipped"].append(f"{len(todo)} cases: time limit")
                todo = []
            for n, (p, r, t0) in list(live.items()):
                res = None
                if r.poll(0.02):
                    try:
                        res = r.recv()
                    except EOFError:
                        res = {"skip": "the process of this case ended without a result"}
                elif time.time() - t0 > case_timeout:
                    res = {"skip": f"no result within {case_timeout} s"}
                if res is None:
                    continue
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.kill()
                p.join(5)
                del live[n]
                if "skip" in res:
                    self.d["skipped"].append(f"{n}: {res['skip']}")
                for fl in res.get("failures", []):
                    self.d["failures"].append(dict(fl, case=n))
                self.d["evaluations"] += res.get("evaluations", 0)
                self.d["distinct"] += res.get("distinct", 0)
                self.groups[n] = {"evaluations": res.get("evaluations", 0), "wall_s": round(time.time() - t0, 2)}
                if len(self.d["samples"]) < 8:
                    self.d["samples"] += res.get("samples", [])[:2]
                if self.verbose:
                    print(n, round(time.time() - t0, 1), "s", {k: v for k, v in res.items() if k != "samples"}, flush=True)
                self.write()
        self.write()
        sys.stdout.flush()
        os._exit(0)


TICK = [None, None]
STALL = 120


def tick(what):
    """one bounded piece of work starts; if it takes longer than STALL seconds the code under test is stuck"""
    TICK[:] = [time.monotonic(), what]


def _watch(w):
    import faulthandler
    import tempfile

    while True:
        REAL_SLEEP(2)
        t, what = TICK
        if t is not None and time.monotonic() - t > STALL:
            with tempfile.TemporaryFile("w+") as f:
                faulthandler.dump_traceback(f, all_threads=True)
                f.seek(0)
                stacks = f.read()[-3000:]
            w.send({"failures": [{"what": f"no result within {STALL} s, normally a fraction of a second", "input": short(what), "stacks": stacks}]})
            os._exit(0)


REAL_SLEEP = time.sleep


def _child(name, fn, w):
    os.setpgrp()
    res = {}
    threading.Thread(target=_watch, args=(w,), daemon=True).start()
    try:
        out = fn() or {}
        if isinstance(out, tuple):
            out = dict(zip(("evaluations", "distinct", "samples"), out))
        res = out
    except Gap as e:
        res = {"skip": f"not applicable to this tree: {e}"}
    except Bad as e:
        res = {"failures": [{"what": str(e), "details": {k: short(v) for k, v in getattr(e, "details", {}).items()}, "traceback": tb(e)}]}
    except BaseException as e:
        if from_repo(e) and not isinstance(e, (KeyboardInterrupt, MemoryError, ImportError, TypeError, AttributeError)):
            res = {"failures": [{"what": f"unexpected {type(e).__name__}: {short(str(e), 300)}", "traceback": tb(e)}]}
        elif from_repo(e) and last_in_repo(e):
            res = {"failures": [{"what": f"unexpected {type(e).__name__}: {short(str(e), 300)}", "traceback": tb(e)}]}
        else:
            res = {"skip": f"harness error {type(e).__name__}: {short(str(e), 300)} {tb(e)[-700:]}"}
    TICK[:] = [None, None]
    try:
        w.send(json.loads(json.dumps(res, default=repr)))
    except Exception as e:
        w.send({"skip": f"result not sent: {e}"})
    w.close()
    os._exit(0)


def last_in_repo(e):
    """the frame that raised is code of the repository that was not entered with wrong arguments by the harness"""
    t = e.__traceback__
    last = None
    while t is not None:
        last = t.tb_frame.f_code.co_filename
        t = t.tb_next
    return last is not None and last.startswith(REPO + "/unidist")


def tb(e):
    return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]


class Multi:
    """collects several violations of one case"""

    def __init__(self, limit=3):
        self.failures, self.n, self.seen, self.samples, self.skip, self.limit = [], 0, set(), [], None, limit

    def one(self, key, fn, *a, finding=None, **kw):
        self.n += 1
        self.seen.add(key)
        try:
            r = fn(*a, **kw)
            if len(self.samples) < 2:
                self.samples.append(short(key, 200))
            return r
        except Bad as e:
            self._f({"input": short(key), "what": str(e), "details": {k: short(v) for k, v in getattr(e, "details", {}).items()}}, finding)
        except Gap as e:
            self.skip = f"not applicable to this tree: {e}"
        except Exception as e:
            if last_in_repo(e) or (from_repo(e) and not isinstance(e, (AttributeError, TypeError, ImportError))):
                self._f({"input": short(key), "what": f"unexpected {type(e).__name__}: {short(str(e), 300)}", "traceback": tb(e)}, finding)
            else:
                self.skip = f"harness error {type(e).__name__}: {e} {tb(e)[-500:]}"

    def _f(self, d, finding):
        if finding:
            d["finding"] = finding
        if finding or len([x for x in self.failures if "finding" not in x]) < self.limit:
            self.failures.append(d)

    def result(self):
        d = {"evaluations": self.n, "distinct": len(self.seen), "samples": self.samples, "failures": self.failures}
        if self.skip:
            d["skip"] = self.skip
        return d
