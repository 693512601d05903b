"""A simulated MPI cluster in one process.  Every rank runs the repository's own modules (a private copy of the
`unidist` package per rank) on top of a stand-in for mpi4py; one strand runs at a time and a seeded scheduler decides
which, so a history is reproducible from its seed and a cluster that cannot move any more is seen at once."""
import asyncio
import atexit
import builtins
import gc
import importlib.abc
import importlib.machinery
import importlib.util
import os
import pickle
import random
import selectors
import signal
import socket
import sys
import threading
import time
import types
import weakref

from rt import REPO, Bad, Gap, short, tb

gc.disable()
# collections run only where a scenario asks for them: a simulated process must not finalize objects of another one at
# an arbitrary point; the code under test sees a switch of its own
_gc_on = [True]
gc.enable = lambda: _gc_on.__setitem__(0, True)
gc.disable = lambda: _gc_on.__setitem__(0, False)
gc.isenabled = lambda: _gc_on[0]
atexit.register = lambda *a, **k: None
signal.signal = lambda *a, **k: None
_real_sleep = time.sleep
_real_gethostbyname = socket.gethostbyname
PREFIXES = ("unidist", "mpi4py")
CODE = {}
WORLD = None
LASTW = None


class Abort(BaseException):
    pass


class Hang(Bad):
    pass


def is_ours(name):
    return name in PREFIXES or name.startswith(("unidist.", "mpi4py."))


class Loader(importlib.machinery.SourceFileLoader):
    """compiles every module once per process, executes it once per rank"""

    def get_code(self, fullname):
        c = CODE.get(fullname)
        if c is None:
            with open(self.path, "rb") as f:
                c = CODE[fullname] = compile(f.read(), self.path, "exec", dont_inherit=True)
        return c


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == "unidist.core.backends.mpi.core._memory":
            return importlib.machinery.ModuleSpec(name, MemLoader())
        if name != "unidist" and not name.startswith("unidist."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base) and os.path.exists(base + "/__init__.py"):
            return importlib.util.spec_from_file_location(name, base + "/__init__.py", loader=Loader(name, base + "/__init__.py"), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(name, base + ".py"))
        if os.path.isdir(base):
            s = importlib.machinery.ModuleSpec(name, None, is_package=True)
            s.submodule_search_locations = [base]
            return s
        return None


class MemLoader(importlib.abc.Loader):
    """the copy primitives (the real ones are the subject of C09)"""

    def create_module(self, spec):
        m = types.ModuleType(spec.name)

        def parallel_memcopy(src, dst, memcopy_threads):
            memoryview(dst).cast("B")[:] = memoryview(src).cast("B")

        def fill(buff, value):
            for i in range(len(buff)):
                buff[i] = value

        m.parallel_memcopy, m.fill = parallel_memcopy, fill
        return m

    def exec_module(self, m):
        pass


sys.meta_path.insert(0, Finder())


class Strand:
    def __init__(self, rank, name):
        self.rank, self.name = rank, name
        self.sem = threading.Semaphore(0)
        self.pred = None
        self.poll = None  # version of the world at the last fruitless poll
        self.deadline = None
        self.done = False
        self.thread = None


class Msg:
    __slots__ = ("comm", "src", "dst", "tag", "kind", "data", "n", "req", "hold", "seq", "taken")


class Request:
    def __init__(self, world, msg=None, recv=None):
        self.world, self.msg, self.recv_args, self.complete, self.value = world, msg, recv, False, None
        self.delay = world.rng.randrange(3)

    def _poll(self):
        w = self.world
        if self.complete:
            return True
        if self.msg is not None:
            if self.msg.taken and self.delay <= 0:
                self.complete = True
            elif self.msg.taken:
                self.delay -= 1
                w.bump()
        else:
            comm, source, tag = self.recv_args
            m = comm._match(source, tag)
            if m is not None:
                self.value = comm._take_obj(m)
                self.complete = True
        return self.complete

    def test(self, status=None):
        ok = self._poll()
        return (ok, self.value if ok else None)

    def Test(self, status=None):
        return self._poll()

    def wait(self, status=None):
        self.world.block(self._poll)
        return self.value

    def Wait(self, status=None):
        self.world.block(self._poll)
        return True

    def __del__(self):
        w = self.world
        if not self.complete and self.msg is not None and not self.msg.taken and w.active and not w.stopping:
            w.problem("forgotten", f"a non-blocking send from rank {self.msg.src} to {self.msg.dst} was forgotten before it was complete")

    def __getattr__(self, n):
        raise Gap(f"mpi4py stand-in: Request.{n}")


class Status:
    def __init__(self):
        self.source = self.tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def __getattr__(self, n):
        raise Gap(f"mpi4py stand-in: Status.{n}")


def raw(buf):
    """what bigmpi() or a plain buffer argument denotes"""
    if isinstance(buf, (list, tuple)):
        buf = buf[0]
    return memoryview(buf).cast("B") if not isinstance(buf, memoryview) or buf.format != "B" else buf


def mpi_memory(o):
    """MPI.memory: a flat view of bytes"""
    return o.raw() if isinstance(o, pickle.PickleBuffer) else memoryview(o).cast("B")


class Comm:
    def __init__(self, world, cid, ranks, me):
        self.w, self.cid, self.ranks, self.me = world, cid, list(ranks), me
        self.seqs = 0

    def __eq__(self, o):
        return isinstance(o, Comm) and o.cid == self.cid

    def __hash__(self):
        return hash(self.cid)

    def Get_rank(self):
        return self.ranks.index(self.me)

    def Get_size(self):
        return len(self.ranks)

    rank = property(Get_rank)
    size = property(Get_size)

    # -- point to point ---------------------------------------------------------------
    def _post(self, kind, data, dest, tag, n=None, nonblocking=False):
        w = self.w
        w.point()
        if not (isinstance(dest, int) and 0 <= dest < len(self.ranks)):
            raise Bad(f"message to rank {dest} of a communicator of size {len(self.ranks)}")
        m = Msg()
        m.comm, m.src, m.dst, m.tag, m.kind, m.data, m.n = self.cid, self.Get_rank(), dest, int(tag), kind, data, n
        m.hold = w.rng.randrange(w.max_delay + 1) if w.max_delay else 0
        m.seq = w.seq = w.seq + 1
        m.taken = False
        w.queues.setdefault((self.cid, dest), []).append(m)
        m.req = Request(w, m) if nonblocking else None
        w.record("send", self.me, self.ranks[dest], int(tag), kind, data, nonblocking)
        w.bump()
        return m

    def send(self, obj, dest, tag=0):
        m = self._post("obj", pickle.dumps(obj, 5), dest, tag)
        self.w.after_send(m)

    def isend(self, obj, dest, tag=0):
        return self._post("obj", pickle.dumps(obj, 5), dest, tag, nonblocking=True).req

    def Send(self, buf, dest, tag=0):
        b = raw(buf)
        m = self._post("buf", bytes(b), dest, tag, len(b))
        self.w.after_send(m)

    def Isend(self, buf, dest, tag=0):
        b = raw(buf)
        return self._post("buf", b, dest, tag, len(b), nonblocking=True).req  # read when it is received

    def _match(self, source, tag):
        w = self.w
        q = w.queues.get((self.cid, self.Get_rank()), ())
        first = {}
        blocked = set()
        for m in q:
            if (tag == -1 or m.tag == int(tag)) and (source in (-1, None) or m.src == source):
                k = (m.src, m.tag)
                if k in blocked or k in first:
                    continue
                if m.hold > 0:
                    blocked.add(k)
                    continue
                first[k] = m
        if not first:
            return None
        ks = sorted(first)
        if source in (-1, None):
            return first[ks[w.rng.randrange(len(ks))] if w.any_source else min(ks, key=lambda k: first[k].seq)]
        return min(first.values(), key=lambda m: m.seq)

    def _remove(self, m):
        self.w.queues[(self.cid, self.Get_rank())].remove(m)
        m.taken = True
        self.w.bump()

    def _take_obj(self, m):
        self._remove(m)
        if m.kind != "obj":
            self.w.problem("framing", f"rank {self.me} receives an object but rank {self.ranks[m.src]} sent a buffer of {m.n} bytes (tag {m.tag})")
            raise Abort()
        v = pickle.loads(m.data)
        self.w.record("recv", self.ranks[m.src], self.me, m.tag, "obj", m.data, False)  # serialized: the log must not keep identifiers alive
        return v

    def iprobe(self, source=-1, tag=-1, status=None):
        m = self._match(source, tag)
        if m is None:
            self.w.idle_probe()
            return False
        if status is not None:
            status.source, status.tag = m.src, m.tag
        return True

    Iprobe = iprobe

    def probe(self, source=-1, tag=-1, status=None):
        self.w.block(lambda: self._match(source, tag) is not None)
        return self.iprobe(source, tag, status)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        self.w.point()
        box = []

        def ready():
            m = self._match(source, tag)
            if m is not None:
                box[:] = [m]
                return True
            return False

        self.w.block(ready, f"receive an object from {source} tag {tag}")
        m = box[0]
        if status is not None:
            status.source, status.tag = m.src, m.tag
        return self._take_obj(m)

    def irecv(self, buf=None, source=-1, tag=-1):
        return Request(self.w, recv=(self, source, tag))

    def Recv(self, buf, source=-1, tag=-1, status=None):
        self.w.point()
        box = []

        def ready():
            m = self._match(source, tag)
            if m is not None:
                box[:] = [m]
                return True
            return False

        self.w.block(ready, f"receive a buffer from {source} tag {tag}")
        m = box[0]
        b = raw(buf)
        self._remove(m)
        if m.kind != "buf" or m.n != len(b):
            self.w.problem("framing", f"rank {self.me} receives a buffer of {len(b)} bytes but rank {self.ranks[m.src]} sent {'an object' if m.kind == 'obj' else f'{m.n} bytes'} (tag {m.tag})")
            raise Abort()
        b[:] = m.data
        if status is not None:
            status.source, status.tag = m.src, m.tag
        self.w.record("recv", self.ranks[m.src], self.me, m.tag, "buf", m.n, False)

    # -- collectives --------------------------------------------------------------------
    def _coll(self, what, value):
        w = self.w
        k = (self.cid, self.seqs)
        self.seqs += 1
        d = w.colls.setdefault(k, {})
        d[self.me] = (what, value)
        if any(x[0] != what for x in d.values()):
            w.problem("framing", f"ranks are in different collective calls: {[x[0] for x in d.values()]}")
        w.bump()
        w.block(lambda: len(d) == len(self.ranks), what)
        return [d[r][1] for r in self.ranks]

    def allgather(self, x):
        return [pickle.loads(v) for v in self._coll("allgather", pickle.dumps(x))]

    def Barrier(self):
        self._coll("Barrier", None)

    barrier = Barrier

    def Allreduce(self, s, r, op=None):
        vals = self._coll("Allreduce", list(s))
        if len({len(v) for v in vals}) != 1 or len(r) != len(vals[0]):
            self.w.problem("framing", "Allreduce with different lengths")
            raise Abort()
        f = {"MAX": max, "MIN": min, "SUM": sum, "LOR": lambda a: int(any(a)), "BOR": lambda a: int(any(a)), "LAND": lambda a: int(all(a))}.get(op or "SUM")
        if f is None:
            raise Gap(f"reduction {op}")
        for i in range(len(r)):
            r[i] = f([v[i] for v in vals])

    def Split_type(self, t, key=0, info=None):
        h = self.w.hosts[self.me]
        return Comm(self.w, (self.cid, "host", h), [r for r in self.ranks if self.w.hosts[r] == h], self.me)

    def Split(self, color=0, key=0):
        cs = self.allgather(color)
        return Comm(self.w, (self.cid, "split", color), [r for r, c in zip(self.ranks, cs) if c == color], self.me)

    def Get_group(self):
        return Group(self.ranks)

    def Create_group(self, g, tag=0):
        return Comm(self.w, (self.cid, "group", tuple(g.ranks)), g.ranks, self.me) if self.me in g.ranks else NULL

    def Free(self):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Gap(f"mpi4py stand-in: Comm.{n}")


class Group:
    def __init__(self, ranks):
        self.ranks = list(ranks)

    def Incl(self, rs):
        return Group([self.ranks[r] for r in rs])


class NullComm:
    def __eq__(self, o):
        return isinstance(o, NullComm)

    def __hash__(self):
        return 0


NULL = NullComm()


class Win:
    def __init__(self, w, cid, bufs, ranks):
        self.w, self.cid, self.bufs, self.ranks = w, cid, bufs, ranks
        self.freed = False

    def Shared_query(self, rank):
        return memoryview(self.bufs[self.ranks[rank]]), 1

    def Lock(self, rank, lock_type=None, assertion=0):
        if not self.w.active:
            return  # a finalizer after the end of the cluster
        self.w.point()
        if self.freed:
            self.w.problem("window", "a window is used after it was freed")
        self.w.block(lambda: self.w.locks.get((self.cid, rank)) is None, "window lock")
        self.w.locks[(self.cid, rank)] = self.w.cur
        self.w.point()

    def Unlock(self, rank):
        if not self.w.active:
            return
        if self.w.locks.get((self.cid, rank)) is not self.w.cur:
            self.w.problem("window", "a window is unlocked by a process that has not locked it")
        self.w.locks[(self.cid, rank)] = None
        self.w.bump()
        self.w.point()

    def Free(self):
        self.freed = True

    def __getattr__(self, n):
        raise Gap(f"mpi4py stand-in: Win.{n}")


class BigMPI:
    def __init__(self, w):
        self.w = w

    @property
    def blocksize(self):
        return self.w.blocksize

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, buf):
        n = len(memoryview(buf).cast("B")) if not isinstance(buf, memoryview) else buf.nbytes
        return [buf, n]


def make_mpi(w, rank):
    m = types.ModuleType("mpi4py")
    m.__path__ = []
    rc = types.SimpleNamespace()
    m.rc = lambda **kw: None
    M = types.ModuleType("mpi4py.MPI")
    m.MPI = M
    M.VERSION = 3
    M.THREAD_MULTIPLE = 3
    M.ANY_SOURCE = M.ANY_TAG = -1
    M.COMM_TYPE_SHARED = 1
    for op in ("MAX", "MIN", "SUM", "LOR", "LAND", "BOR"):
        setattr(M, op, op)
    M.CHAR = types.SimpleNamespace(size=1)
    M.BYTE = types.SimpleNamespace(size=1)
    M.LONG = types.SimpleNamespace(size=8)
    M.Status = Status
    M.memory = M.buffer = mpi_memory
    M.COMM_NULL = NULL
    M.COMM_WORLD = Comm(w, "world", range(w.n), rank)
    M.COMM_SELF = Comm(w, ("self", rank), [rank], rank)
    M.Comm = type("CommNS", (), {"Get_parent": staticmethod(lambda: NULL)})
    st = {"init": False, "fin": False}
    M.Is_initialized = lambda: st["init"]
    M.Query_thread = lambda: 3

    def init(*a):
        st["init"] = True
        return 3

    M.Init_thread = init
    M.Is_finalized = lambda: st["fin"]

    def fin():
        if st["fin"]:
            w.problem("finalize", f"rank {rank} finalizes twice")
        st["fin"] = True
        w.finalized.append(rank)

    M.Finalize = fin
    M.Get_library_version = lambda: "Open MPI v4.1.4"

    class Info(dict):
        @staticmethod
        def Create():
            return Info()

        def Set(self, k, v):
            self[k] = v

    M.Info = Info

    class WinNS:
        @staticmethod
        def Allocate_shared(size, disp_unit=1, info=None, comm=None):
            k = comm.seqs
            sizes = comm._coll("Allocate_shared", size)
            bufs = w.wins.setdefault((comm.cid, k), {r: bytearray(b"\xa5" * s) for r, s in zip(comm.ranks, sizes)})
            return Win(w, (comm.cid, k), bufs, comm.ranks)

    M.Win = WinNS
    u = types.ModuleType("mpi4py.util")
    p5 = types.ModuleType("mpi4py.util.pkl5")
    u.pkl5 = p5
    m.util = u
    p5._bigmpi = BigMPI(w)
    return {"mpi4py": m, "mpi4py.MPI": M, "mpi4py.util": u, "mpi4py.util.pkl5": p5}


class Selector(selectors.DefaultSelector):
    world = None

    def select(self, timeout=None):
        w = self.world
        if w is None or timeout is not None and timeout <= 0:
            return super().select(0)
        if w.aborted:
            raise Abort()
        base = super().select
        w.block(lambda: bool(base(0)), "asyncio", timeout=timeout)
        return base(0)


class Loop(asyncio.SelectorEventLoop):
    def __init__(self, world):
        s = Selector()
        s.world = world
        self.world = world
        super().__init__(s)

    def time(self):
        return self.world.clock

    def run_in_executor(self, executor, func, *args):
        w = self.world
        fut = self.create_future()

        def job():
            try:
                r, e = func(*args), None
            except Abort:
                raise
            except BaseException as ex:
                r, e = None, ex
            if not self.is_closed():
                self.call_soon_threadsafe(lambda: fut.cancelled() or (fut.set_exception(e) if e is not None else fut.set_result(r)))
                w.bump()

        w.spawn(w.cur.rank, job, "exec")
        return fut


class Policy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        w = WORLD
        return Loop(w) if w is not None and w.active else super().new_event_loop()


asyncio.set_event_loop_policy(Policy())


def _sleep(secs):
    w = WORLD
    if w is not None and w.active and w.mine():
        w.nap(secs)
    else:
        _real_sleep(secs)


time.sleep = _sleep
socket.gethostbyname = lambda h: f"host{WORLD.hosts[WORLD.cur.rank]}" if WORLD is not None and WORLD.active else _real_gethostbyname(h)


class World:
    def __init__(self, n, seed=0, hosts=None, delay=None, blocksize=2**30, steps=400000, env=None, preempt=0.3):
        self.n, self.seed = n, seed
        self.rng = random.Random(seed)
        self.hosts = hosts or [0] * n
        self.max_delay = self.rng.choice([0, 0, 3, 12]) if delay is None else delay
        self.any_source = self.rng.random() < 0.7
        self.preempt = preempt
        self.bias = self.rng.choice([None, None, "root", "workers", "rr"])
        self.blocksize = blocksize
        self.queues, self.colls, self.wins, self.locks = {}, {}, {}, {}
        self.strands, self.cur, self.seq, self.version, self.clock = [], None, 0, 0, 0.0
        self.problems, self.log, self.finalized, self.ended = [], [], [], {}
        self.mods = {r: make_mpi(self, r) for r in range(n)}
        self.active = self.aborted = self.stopping = False
        self.steps = steps
        self.nsteps = 0
        self.env = env or {}
        self.keep_log = True
        self.progress_hooks = []

    def mine(self):
        return self.cur is not None and self.cur.thread is threading.current_thread()

    def problem(self, kind, what):
        self.problems.append((kind, what))

    def record(self, *a):
        if self.keep_log:
            self.log.append(a + (self.nsteps,))

    def bump(self):
        self.version += 1

    # -- scheduling ---------------------------------------------------------------------
    def point(self):
        """a place where another process may run"""
        if self.mine() and self.rng.random() < self.preempt:
            self.block(None)

    def after_send(self, m):
        self.point()

    def idle_probe(self):
        self.cur.poll = self.version

    def nap(self, secs):
        s = self.cur
        if s.poll is None:
            s.poll = self.version
        v = s.poll
        s.poll = None
        self.block(lambda: self.version != v, f"sleep", timeout=max(secs, 0.0))

    def block(self, pred, why=None, timeout=None):
        s = self.cur
        if s is None or s.thread is not threading.current_thread():
            raise Gap("a thread of the simulated process is not under the scheduler")
        if self.aborted:
            raise Abort()
        if pred is not None and timeout is None and pred() and self.rng.random() > self.preempt:
            return
        s.pred, s.why = pred, why
        s.deadline = None if timeout is None else self.clock + timeout
        s.napping = why == "sleep"
        self.dispatch(s)
        s.pred = None

    def runnable(self):
        return [s for s in self.strands if not s.done and (s.pred is None or s.pred())]

    def dispatch(self, me, ending=False):
        self.nsteps += 1
        if self.nsteps > self.steps:
            return self.abort("livelock", "the cluster does not come to rest: " + self.where(), me, ending)
        if self.max_delay:
            for q in self.queues.values():
                for m in q:
                    if m.hold > 0:
                        m.hold -= 1
                        if m.hold == 0:
                            self.version += 1
        rs = self.runnable()
        while not rs:
            held = [m for q in self.queues.values() for m in q if m.hold > 0]
            if held:
                for m in held:
                    m.hold = 0
                self.version += 1
            else:
                # time passes; a polling process alone does not count as progress
                ts = [s for s in self.strands if not s.done and s.deadline is not None and not s.napping]
                if not ts:
                    return self.abort("hang", "no process can continue: " + self.where(), me, ending)
                self.clock = max(self.clock, min(s.deadline for s in ts))
                for s in ts:
                    if s.deadline <= self.clock:
                        s.pred = None
            rs = self.runnable()
        if self.bias == "root":
            p = [s for s in rs if s.rank == 0] or rs
        elif self.bias == "workers":
            p = [s for s in rs if s.rank > 1] or rs
        elif self.bias == "rr":
            p = [rs[self.nsteps % len(rs)]]
        else:
            p = rs
        if self.rng.random() < 0.2:
            p = rs
        nxt = p[self.rng.randrange(len(p))]
        self.goto(nxt, me, ending)

    def goto(self, nxt, me, ending=False):
        if nxt is me:
            return
        self.swap(me.rank, nxt.rank)
        self.cur = nxt
        nxt.sem.release()
        if not ending:
            me.sem.acquire()
            if self.aborted:
                raise Abort()

    def swap(self, a, b):
        if a == b:
            return
        cur = {k: v for k, v in sys.modules.items() if is_ours(k)}
        self.mods[a] = cur
        for k in cur:
            del sys.modules[k]
        sys.modules.update(self.mods[b])

    def where(self):
        return "; ".join(f"rank {s.rank}{'/' + s.name if s.name != 'main' else ''} waits to {s.why}" for s in self.strands if not s.done)[:900]

    def abort(self, kind, what, me, ending):
        self.problem(kind, what)
        self.aborted = True
        root = self.strands[0]
        if me is root:
            raise Abort()
        self.swap(me.rank, root.rank)
        self.cur = root
        root.sem.release()
        if not ending:
            me.sem.acquire()
            raise Abort()

    def spawn(self, rank, fn, name="main"):
        s = Strand(rank, name)
        s.why = "start"
        s.napping = False

        def body():
            s.sem.acquire()
            try:
                if not self.aborted:
                    fn()
                self.ended[(rank, name)] = None
            except Abort:
                pass
            except SystemExit:
                pass
            except Gap as e:
                self.gap = e
                self.problem("gap", str(e))
            except BaseException as e:
                t = e.__traceback__
                while t.tb_next is not None:
                    t = t.tb_next
                if t.tb_frame.f_code.co_filename == __file__ and not isinstance(e, Bad):
                    self.problem("gap", f"stand-in error {tb(e)[-700:]}")
                self.problem("died", f"rank {rank} died with {type(e).__name__}: {short(str(e), 200)} {tb(e)[-900:]}")
            s.done = True
            self.version += 1
            if self.cur is s and not self.aborted:
                try:
                    self.dispatch(s, ending=True)
                except Abort:
                    pass

        s.thread = threading.Thread(target=body, daemon=True)
        self.strands.append(s)
        s.thread.start()
        return s

    # -- running ------------------------------------------------------------------------
    def run(self, scenario, check=True):
        """scenario(unidist module of the root, world) runs as the root process."""
        global WORLD
        for k in [k for k in sys.modules if is_ours(k)]:
            del sys.modules[k]
        saved = dict(os.environ)
        os.environ.update({"UNIDIST_BACKEND": "mpi", "UNIDIST_MPI_SPAWN": "False", "UNIDIST_MPI_SHARED_OBJECT_STORE": "False", "UNIDIST_CPUS": str(max(1, self.n - 2))})
        os.environ.update({k: str(v) for k, v in self.env.items()})
        WORLD = self
        globals()["LASTW"] = self
        self.active = True
        root = Strand(0, "main")
        root.thread = threading.current_thread()
        root.why = "start"
        root.napping = False
        self.strands.append(root)
        self.cur = root
        sys.modules.update(self.mods[0])

        def member():
            import unidist

            unidist.init()

        for r in range(1, self.n):
            self.spawn(r, member)
        out = None
        try:
            import unidist

            unidist.init()
            out = scenario(unidist, self)
        except Abort:
            pass
        except Gap as e:
            self.problem("gap", str(e))
        finally:
            self.stopping = True
            self.aborted = True
            self.active = False
            for s in self.strands[1:]:
                s.sem.release()
            WORLD = None
            os.environ.clear()
            os.environ.update(saved)
            for k in [k for k in sys.modules if is_ours(k)]:
                del sys.modules[k]
        gaps = [w for k, w in self.problems if k == "gap"]
        if gaps:
            raise Gap(gaps[0])
        if check and self.problems:
            k, what = self.problems[0]
            e = Hang(f"{k}: {what}")
            e.details = {"seed": self.seed, "ranks": self.n, "hosts": self.hosts, "problems": self.problems[:4], "env": self.env}
            raise e
        return out

    def settle(self):
        """let every other process run until the cluster is at rest"""
        me = self.cur
        while True:
            for q in self.queues.values():
                for m in q:
                    if m.hold > 0:
                        m.hold = 0
                        self.version += 1
            rs = [s for s in self.strands if s is not me and not s.done and (s.pred is None or s.pred())]
            if not rs:
                ts = [s for s in self.strands if s is not me and not s.done and s.deadline is not None and not s.napping]
                if not ts:
                    return
                self.clock = max(self.clock, min(s.deadline for s in ts))
                for s in ts:
                    if s.deadline <= self.clock:
                        s.pred = None
                continue
            me.pred, me.why, me.deadline, me.napping = None, "settle", None, False
            self.nsteps += 1
            if self.nsteps > self.steps:
                return self.abort("livelock", "the cluster does not come to rest: " + self.where(), me, False)
            self.goto(rs[self.rng.randrange(len(rs))], me)

    def module(self, rank, name):
        """a module of another process (for looking at its state between steps)"""
        d = sys.modules if rank == self.cur.rank else self.mods[rank]
        if name not in d:
            raise Gap(f"{name} is not loaded")
        return d[name]
