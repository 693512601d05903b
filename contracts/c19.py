"""C19: an actor is created once and all of its handles address that one instance."""
from contracts import actors, c04, c11, c13, steps

UNITS = []
NOTE = (
    "Proof, for all classes, argument lists, numbers of results and states of the scheduler, of the creation, the method calls, the serialization and the release of actor handles on all backends, of the reservation of workers, and of the steps "
    "of worker_loop that create actors and run their methods, from any reachable state; the order of calls follows from the order of messages (MPI), of the queue of the reserved process (multiprocessing) or of execution (sequential), see DESIGN.md. "
    "Whole clusters are run (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
ASSUMED = ["MPI delivers the messages of a pair of processes in order; multiprocessing.JoinableQueue is first in, first out", "Dask creates one instance per Client.submit(..., actor=True) and its handles address that instance", "the deletion of a handle runs __del__ once"]
UNITS += actors.CREATE_UNITS + actors.METHOD_UNITS
UNITS += [u for u in c11.UNITS if "reserve_rank" in u.name or "grab_worker" in u.name or "schedule_rank" in u.name]
UNITS += [u for u in c13.UNITS if "put_actor" in u.name]
UNITS += [u for u in c04.UNITS if "Worker.run" in u.name]
UNITS.append(steps.worker_step())
