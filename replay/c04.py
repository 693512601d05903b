"""C04: num_returns."""
from rt import *
from cases import inproc_cases, mpi_cases

W = {'multi': 9, 'none': 4, 'one_after_zero': 2, 'fail': 5, 'get': 2, 'get_list': 2, 'async': 2, 'actor_new': 2, 'actor_call': 6, 'wait': 1, 'put': 2}

if __name__ == "__main__":
    rep = Report("C04")
    rep.seed += 3000
    cs = mpi_cases(rep, weights=W, async_tasks=True, wait_put=True)
    cs += inproc_cases(rep, weights=W)
    rep.run(cs, procs=8, rule="random API programs (seeded) against their sequential meaning, on the simulated MPI cluster (random schedules, delays, hosts, shared memory on and off) and on the pyseq, pymp and Dask backends")
