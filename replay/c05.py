"""C05: references in arguments."""
from rt import *
from cases import inproc_cases, mpi_cases

W = {'echo': 14, 'multi': 4, 'put': 5, 'get': 1, 'get_list': 1, 'wait': 1, 'fail': 1.5, 'async': 2, 'actor_call': 2, 'slow': 3}

if __name__ == "__main__":
    rep = Report("C05")
    rep.seed += 4000
    cs = mpi_cases(rep, weights=W, async_tasks=True, wait_put=True)
    cs += inproc_cases(rep, weights=W)
    rep.run(cs, procs=8, rule="random API programs (seeded) against their sequential meaning, on the simulated MPI cluster (random schedules, delays, hosts, shared memory on and off) and on the pyseq, pymp and Dask backends")
