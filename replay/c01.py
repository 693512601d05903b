"""C01: wait.  Random programs whose waits overlap running, finished, failed and local tasks."""
from rt import *
from cases import inproc_cases, mpi_cases

if __name__ == "__main__":
    rep = Report("C01")
    W = {"wait": 8, "slow": 6, "fail": 2, "async": 2, "put": 1, "get": 1, "get_list": 1, "multi": 3, "actor_call": 2, "drop": 1}
    cs = mpi_cases(rep, weights=W, async_tasks=True, wait_put=True)
    cs += inproc_cases(rep, weights=W)
    rep.run(cs, procs=8, rule="random API programs (seeded); waits over arbitrary subsets and every num_returns, checked against the executions that have finished")
