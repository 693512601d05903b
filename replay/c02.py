"""C02: get: values in request order, failures raised every time."""
from rt import *
from cases import inproc_cases, mpi_cases

W = {'get': 8, 'get_list': 8, 'fail': 3, 'slow': 2, 'put': 4, 'wait': 1, 'async': 2, 'multi': 3}

if __name__ == "__main__":
    rep = Report("C02")
    rep.seed += 1000
    cs = mpi_cases(rep, weights=W, async_tasks=True, wait_put=True)
    cs += inproc_cases(rep, weights=W)
    rep.run(cs, procs=8, rule="random API programs (seeded) against their sequential meaning, on the simulated MPI cluster (random schedules, delays, hosts, shared memory on and off) and on the pyseq, pymp and Dask backends")
