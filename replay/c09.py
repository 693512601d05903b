"""C09: the parallel copy and fill, compiled from the current sources in a scratch directory."""
import os
import random
import shutil
import subprocess
import sys
import tempfile

from rt import *

MEM = REPO + "/unidist/core/backends/mpi/core/memory"
HARN = os.path.join(HERE, "c09", "harness.cpp")


def native(mode, part, parts, seed, secs):
    def run():
        if not os.path.exists(MEM + "/memory.cpp"):
            raise Gap("memory.cpp is gone")
        tmp = tempfile.mkdtemp(prefix="c09_")
        try:
            exe = os.path.join(tmp, "h")
            fl = ["-DREC", "-O1"] if mode == "rec" else ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-O1"]
            c = subprocess.run(["g++", "-std=c++17", "-g", *fl, f'-DMEMORY_CPP="{MEM}/memory.cpp"', HARN, "-o", exe, "-lpthread"], capture_output=True, text=True)
            if c.returncode:
                raise Gap("the harness does not compile with this memory.cpp: " + c.stderr[-500:])
            p = subprocess.run([exe, str(part), str(parts), str(seed), str(secs)], capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS="abort_on_error=0:detect_leaks=0"), timeout=secs * 3 + 60)
            lines = p.stdout.splitlines()
            n = sum(x.startswith("CASE") for x in lines)
            if p.returncode or not lines or not lines[-1].startswith("DONE"):
                if "AddressSanitizer: out of memory" in p.stderr or "failed to" in p.stderr[:300]:
                    raise Gap(p.stderr[:300])
                last = next((x for x in reversed(lines) if x[:4] in ("CASE", "FAIL")), "?")
                return {"failures": [{"what": "the copy reads or writes outside of its ranges, does not copy exactly, or crashes", "input": last, "output": p.stderr[:1500], "exit": p.returncode}], "evaluations": n, "distinct": n}
            return {"evaluations": n, "distinct": len(set(lines)), "samples": lines[:2]}
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    return run


SETUP = """
from setuptools import setup, Extension
from Cython.Build import cythonize
setup(name="m", ext_modules=cythonize([Extension("_memory", ["_memory.pyx"], language="c++", extra_compile_args=["-std=c++11", "-O1"], extra_link_args=["-std=c++11"])]))
"""


def wrapper(seed, k):
    def run():
        tmp = tempfile.mkdtemp(prefix="c09w_")
        try:
            for f in os.listdir(MEM):
                if f != "_memory.cpp" and os.path.isfile(os.path.join(MEM, f)):
                    shutil.copy(os.path.join(MEM, f), tmp)
            open(tmp + "/setup.py", "w").write(SETUP)
            c = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace"], cwd=tmp, capture_output=True, text=True, env={k: v for k, v in os.environ.items() if k != "PYTHONPATH"})
            if c.returncode:
                raise Gap("the wrapper does not build: " + c.stderr[-400:])
            sys.path.insert(0, tmp)
            import _memory as m
            import numpy as np

            M = Multi()
            rng = random.Random(seed)

            def copy(n, so, do, extra, th):
                tick((n, so, do, extra, th))
                src = np.frombuffer(rng.randbytes(so + n + 80), dtype=np.uint8)
                dst = np.full(do + n + extra + 80, 165, dtype=np.uint8)
                before = dst.copy()
                v = memoryview(dst)[do : do + n + extra]
                s = memoryview(src)[so : so + n]
                keep = bytes(s)
                m.parallel_memcopy(s, v, th)
                before[do : do + n] = np.frombuffer(keep, dtype=np.uint8)
                ensure((dst == before).all(), "the copy is not exact or touched other bytes", first_difference=int(np.argmax(dst != before)), length=n, offset=do)
                ensure(bytes(s) == keep, "the source changed")

            def fl(n, off, v):
                b = np.full(n + 20, 3, dtype=np.int64)
                e = b.copy()
                e[off : off + n] = v
                m.fill(memoryview(b)[off : off + n], v)
                ensure((b == e).all(), "fill did not set exactly the elements of the buffer", n=n, offset=off)

            for i in range(k):
                a = (rng.choice([1, 2, 63, 64, 65, 127, 128, 129, rng.randrange(1, 5000)]), rng.randrange(70), rng.randrange(70), rng.choice([0, 0, 1, 64]), rng.randrange(1, 13))
                M.one(a, copy, *a)
                a = (rng.randrange(1, 300), rng.randrange(18), rng.choice([-1, 0, 1, 2**62, -(2**63)]))
                M.one(("fill",) + a, fl, *a)
            return M.result()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    return run


if __name__ == "__main__":
    rep = Report("C09")
    secs = 120 if rep.thorough else 14
    parts = 4 if rep.thorough else 3
    cs = [(f"recorded copies #{i}", native("rec", i, parts, rep.seed, secs)) for i in range(parts)]
    cs += [(f"address sanitizer #{i}", native("asan", i, parts, rep.seed + 50, secs)) for i in range(parts)]
    cs.append(("Python wrapper", wrapper(rep.seed, 20000 if rep.thorough else 1500)))
    rep.run(cs, procs=8, case_timeout=400, rule="lengths around block boundaries and random ones, source and destination alignments 0..70, block sizes 1..256 (mostly 64), 1..40 threads; the memory around the ranges is guarded; distinct calls counted")
