import json
M="unidist/core/backends/mpi/core/"
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=None)))
p("C01","wait returns exactly num_returns finished references and keeps the rest",
 "For every list of distinct references and every num_returns between 1 and its length, wait returns two lists that together contain exactly the references passed in, each once; the first holds exactly num_returns of them. Every reference in the first list belongs to a task that has finished, successfully or with an exception, and a finished task - failed ones included - can always be waited for. On the MPI backend the answer that the monitor sends for one wait call never mixes in references of another one.",
 ["inputs","schedules","histories"],"all lists of references, num_returns, completion orders and completion histories, on the sequential, multiprocessing, Dask and MPI backends (Ray delegates to ray.wait)",
 "The tests wait on a few lists of one to three references with one completion order; the partition must hold for any subset being ready, in any order, including failed tasks.",
 ["unidist/core/base/backend.py","unidist/core/backends/pyseq/backend.py","unidist/core/backends/pymp/core/object_store.py","unidist/core/backends/dask/backend.py",M+"controller/api.py",M+"monitor/loop.py"],
 [("ready / not-ready split of local objects","mpi controller api wait"),("pending wait request served when enough tasks are done","monitor WaitHandler.process_wait_requests"),("reference to id mapping and back","BackendProxy.wait"),("polling of the shared dictionary","pymp ObjectStore.wait"),("loop over dask wait","DaskBackend.wait")],["return value of unidist.wait"])
p("C02","get returns values in request order and raises a task's failure every time",
 "get of one reference returns its value, and get of a list returns a list of the same length whose i-th element is the value of the i-th reference, duplicates included. If a referenced task failed, get raises the exception that the task raised, on the first and on every later call, and never returns it as a value. Values do not depend on the order in which tasks finish or data arrives.",
 ["inputs","schedules","histories"],"all lists of references (any length, with repetitions, any mix of local, remote, serialized, shared and failed objects), and all arrival orders of remote data",
 "Tests fetch short lists of results of one kind and a failed reference once; order, duplicates, repeated failures and arrival orders are not sampled.",
 ["unidist/core/base/backend.py","unidist/core/backends/pyseq/core/object_store.py","unidist/core/backends/pymp/core/object_store.py","unidist/core/backends/dask/backend.py",M+"controller/api.py",M+"controller/common.py",M+"object_store.py"],
 [("local lookup order","mpi ObjectStore.get/contains"),("remote request loop counting arrivals","request_worker_data, pull_data"),("exception check","get of each backend")],["return value or exception of unidist.get"])
p("C03","an object put into or produced in a store is read back as the same value",
 "Once a value is put under a reference, or a task result is stored under it, reading the reference returns that value, until the reference is dropped, whatever else is stored, read or sent meanwhile and whichever form (plain object, serialized cache, shared memory) holds it. A store reports that it contains an object exactly when it can return it. Reading one reference never changes what another one returns.",
 ["inputs","histories"],"all histories of put, get, contains, cache, owner and clear calls on any identifiers and values",
 "Tests put one object and read it at once; interleavings of the stores and the three representations are not exercised.",
 ["unidist/core/backends/pyseq/core/object_store.py","unidist/core/backends/pymp/core/object_store.py",M+"local_object_store.py",M+"object_store.py",M+"controller/api.py",M+"controller/common.py"],
 [("per-identifier maps","LocalObjectStore, pyseq and pymp ObjectStore"),("form selection","mpi ObjectStore, put, push_data")],["value of unidist.get after unidist.put"])
p("C04","num_returns decides the number of references and which value each one holds",
 "Submitting a function or actor method with num_returns 0, 1 or n > 1 yields None, one reference or a list of n distinct references; options(num_returns=...) overrides the declared value for that call only. When the call returns n values the i-th reference holds the i-th value; when it raises, or one of its argument tasks failed, every one of its references holds the exception and the worker goes on. A task without references that fails has no effect on other tasks or references.",
 ["inputs","programs"],"all num_returns >= 0, all functions returning n values or raising, all argument lists, on every backend",
 "Tests use num_returns 0, 1 and 2 with succeeding functions on fixed arguments.",
 ["unidist/core/base/remote_function.py","unidist/core/base/actor.py","unidist/core/backends/pyseq/core/api.py","unidist/core/backends/pyseq/remote_function.py","unidist/core/backends/pymp/core/api.py","unidist/core/backends/pymp/core/process_manager.py","unidist/core/backends/pymp/core/actor.py","unidist/core/backends/dask/remote_function.py",M+"local_object_store.py",M+"worker/task_store.py",M+"controller/api.py",M+"controller/actor.py","unidist/core/backends/mpi/remote_function.py"],
 [("output id generation","generate_output_data_id; submit of pyseq and pymp"),("result distribution","execute_received_task, Worker.run, pyseq submit"),("wrapping in references","_remote of each backend")],["references returned by .remote(), values read from them"])
p("C05","references in task arguments become their values and nothing else changes",
 "A task runs with exactly the positional and keyword arguments of its call, in order and under the same names, where every reference passed as an argument - and, for MPI and Dask, every reference nested in lists, tuples and dictionaries - is replaced by its value. Containers keep their type, length, order and keys, other objects are passed through unchanged, and the caller's containers are not modified. A task whose dependencies are not all available is never started.",
 ["inputs"],"all argument trees of any depth and width, with any mix of resolved and unresolved references",
 "Tests pass flat arguments with one or two references; nesting, mixed containers, partially resolved trees and aliasing are not sampled.",
 ["unidist/core/base/common.py","unidist/core/backends/common/utils.py","unidist/core/backends/pyseq/core/api.py","unidist/core/backends/pymp/core/process_manager.py",M+"common.py",M+"worker/task_store.py","unidist/core/backends/mpi/remote_function.py","unidist/core/backends/dask/remote_function.py","unidist/core/backends/dask/actor.py"],
 [("reference unwrapping","filter_arguments, unwrap_object_refs"),("recursive materialization with pending flag","materialize_data_ids, unwrap_local_data_id")],["arguments seen by the remote function"])
p("C06","object identifiers are unique, and keep their identity across processes",
 "No two objects created by a process get equal identifiers and identifiers of different processes never collide; equality and hashing agree, for any interleaving of puts and submissions. An identifier that is serialized and restored is equal to the original, is the same object if the original is alive in that process, and the pair of numbers written to shared memory determines it. Only the creating process reports an identifier for cleanup when its last reference disappears, and restored copies never do.",
 ["inputs","histories"],"all ranks, all counters, all sequences of identifier creation, pickling, unpickling and deletion",
 "Tests only see the small identifiers of one run and never inspect identity, hashing or cleanup reports.",
 ["unidist/core/backends/common/data_id.py",M+"common.py",M+"local_object_store.py",M+"shared_object_store.py"],
 [("instance cache keyed by rank and number","MpiDataID.__new__"),("state without collector","MpiDataID.__getstate__/__getnewargs__/__del__"),("counter","generate_data_id, generate_output_data_id"),("numeric form","SharedObjectStore._parse_data_id")])
p("C07","the shared-memory allocator never hands out overlapping or lost space",
 "After any sequence of reservations and releases, the ranges handed out are inside the memory, do not overlap each other and have exactly the requested length, and every cell is either free or in exactly one live reservation. A reservation fails only if no free block is large enough, and then changes nothing; adjacent free blocks are always merged. Memory of an object is released exactly once and only when no process on any host still references it; otherwise its cleanup is retried later.",
 ["inputs","histories"],"all memory sizes, all sequences of reserve and release requests, all reference counts",
 "The tests make a few small reservations; the free-list code has several merge cases that depend on the history of releases.",
 [M+"monitor/shared_memory_manager.py",M+"monitor/loop.py"],
 [("sorted free list","FreeMemoryRange.occupy/release"),("reservation table and pending cleanup","SharedMemoryManager.put/get/clear")],["reservations returned to workers"],
 [("range","sorted list of free [first, last) blocks","FreeMemoryRange"),("_reservation_info","live reservations","SharedMemoryManager"),("pending_cleanup","ids that still had references","SharedMemoryManager")])
p("C08","shared memory holds what was written, inside the reservation, while it is used",
 "Writing serialized data and reading it back with the returned description yields the same main part and the same buffers in the same order, using only cells of the reservation; data that does not fit is refused rather than written outside of it. Service records are only read or changed for the object they belong to, and are published after the data is in place. A process that acquires an object raises its reference count and lowers it by as much when it drops the object, so the count is never zero while a process can read the object and is zero once all have dropped it.",
 ["inputs","histories","schedules"],"all buffer lists and sizes, all reservations and service slots, all sequences of acquire and drop",
 "Tests store a handful of arrays on one host and never inspect the layout, the service records or the counts.",
 [M+"shared_object_store.py",M+"common.py"],
 [("contiguous layout with length list","_write_to_shared_buffer, _read_from_shared_buffer"),("service slots","_put_service_info, _check_service_info, delete_service_info, _increment_ref_number, _decrement_ref_number, get_ref_number")],
 ["bytes of the shared buffers"],[("service slot","worker id, data number, first index, reference count","service_shared_buffer")])
p("C09","parallel memory copy copies every byte exactly and nothing else",
 "For every source address, length and thread count of at least one, the parallel copy leaves the destination equal to the source, reads only the source range and writes only the destination range, and has finished all of its threads when it returns. Filling a buffer sets every element and nothing outside of it.",
 ["inputs"],"all addresses (any alignment), all lengths including those smaller than a block, thread counts as used by the callers",
 "Tests copy large, usually aligned buffers only; alignment and remainder cases are not sampled and out-of-range accesses stay invisible.",
 [M+"memory/memory.cpp",M+"memory/memory.h",M+"memory/_memory.pyx"],
 [("prefix / aligned chunks / suffix split","parallel_memcopy"),("fill","fill")])
p("C10","serialization is inverted exactly by deserialization for any nesting of objects",
 "Serializing any supported object - nested containers, arrays, frames, functions, classes and instances in any combination - and deserializing the result gives back an equal object, with each array or frame rebuilt from its own out-of-band buffers. The recorded buffer counts match the buffers emitted, in order, and reading does not damage data that is cached for sending again. Buffers below the configured threshold travel inside the message, larger ones outside of it.",
 ["inputs"],"all supported objects, any number and size of out-of-band buffers, any threshold, repeated deserialization of the same data",
 "Tests serialize single objects; the bookkeeping of buffers matters only for several objects with different numbers of buffers in one message.",
 [M+"serialization.py",M+"local_object_store.py"],
 [("buffer list and per-object counts","ComplexDataSerializer"),("dispatch by type","is_cpkl_serializable, is_pickle5_serializable, _encode_custom, _decode_custom")])
p("C11","tasks go to eligible workers in rotation and reserved workers are exclusive",
 "A task or actor is scheduled on a worker of the cluster that is not the submitting process, not the controller, not a monitor and not reserved for an actor; if every worker is reserved an error is raised instead. Consecutive submissions visit the eligible workers in rotation, so none is starved. A reserved worker serves only its actor until it is released, and becomes eligible again after that; two live actors never share a worker.",
 ["inputs","histories","configurations"],"all cluster topologies and all sequences of schedule, reserve and release operations (MPI ranks and multiprocessing workers)",
 "Tests run a fixed small pool and never fill it up or mix actors and tasks in long histories.",
 [M+"controller/common.py",M+"communication.py","unidist/core/backends/pymp/core/process_manager.py",M+"controller/actor.py"],
 [("cycle over worker ranks with a reserved list","RoundRobin"),("grabbed flags and rotating index","ProcessManager")])
p("C12","garbage collection removes dropped objects everywhere, and only those",
 "A cleanup is sent only when the number of executed tasks equals the number of submitted ones, so no running or queued task can still need a removed object. Each dropped identifier is sent in exactly one cleanup, to every worker and monitor except the sender, and is never lost, even when identifiers are dropped while a cleanup is being sent. A process that receives a cleanup drops its hold on exactly the listed identifiers.",
 ["histories","schedules"],"all histories of submissions, completions, drops and cleanup attempts; any thresholds and clock readings",
 "The trigger depends on counters and time; tests hardly reach it and cannot see lost or early cleanups.",
 [M+"controller/garbage_collector.py",M+"monitor/loop.py",M+"local_object_store.py",M+"controller/api.py",M+"controller/actor.py",M+"common.py"],
 [("submitted and executed counters","GarbageCollector, TaskCounter"),("cleanup list","GarbageCollector.collect/regular_cleanup/_send_cleanup_request"),("strong-reference map","LocalObjectStore.maybe_update_data_id_map/clear")])
p("C13","a received task runs exactly once, after its dependencies, and is reported once",
 "Each task a worker receives is executed exactly once and never before all of its dependencies are available locally; until then it stays pending, keeping its order, and is not lost or duplicated by checks that happen in between. The worker asks the owner of a missing dependency once, not once per check. After execution exactly one completion message with the task's references goes to the root monitor, also when the task fails or returns nothing.",
 ["inputs","schedules","histories"],"all sets of pending tasks, all availability patterns and arrival orders of dependencies, normal, failing and asynchronous tasks",
 "Tests have one or two dependent tasks with one arrival order.",
 [M+"worker/task_store.py",M+"worker/loop.py",M+"common.py"],
 [("pending lists rebuilt by each check","TaskStore.check_pending_tasks / check_pending_actor_tasks"),("materialize or re-queue","TaskStore.process_task_request, unwrap_local_data_id"),("completion report","TaskStore.execute_received_task")])
p("C14","every data request is answered exactly once, to the process that asked",
 "A request for an object that is available is answered at once; otherwise it is kept and answered as soon as the object becomes available, exactly once per requesting process, with blocking requesters served by the blocking reply. Answering one object's requests leaves requests for other objects untouched, and an object is not sent again to a process that already has it. The reply carries the requested object, or its location if another process owns it.",
 ["inputs","schedules","histories"],"all sets of pending requests, requesters and objects, all orders of request and availability",
 "Tests involve at most a few requests; requests arriving before the data, several requesters of one object, and mixed blocking modes are timing dependent.",
 [M+"worker/request_store.py",M+"controller/common.py",M+"local_object_store.py",M+"worker/loop.py"],
 [("maps from object to requesting ranks","RequestStore"),("sent-to bookkeeping","push_data, _push_local_data, _push_shared_data, cache_send_info")])
p("C15","messages are framed so that a receiver reads exactly what was sent to it",
 "For every operation, the sequence of messages the sender emits (destination, kind and sizes, in order) is the sequence the receiver consumes, for blocking and non-blocking variants, for any data size. Large buffers are split into blocks that cover every byte exactly once, in order, with the same split on both sides. Buffers of a non-blocking send stay referenced until that send has completed, and none is forgotten.",
 ["inputs","histories"],"all payload sizes and buffer lists, all operations, any block size, all completion orders of non-blocking sends",
 "Tests exchange small messages; block boundaries, empty buffers and premature release of buffers are not reached.",
 [M+"communication.py",M+"async_operations.py",M+"common.py",M+"controller/common.py"],
 [("tags per message kind and metadata packages","send and recv helpers"),("block loop","mpi_send_buffer, mpi_isend_buffer, mpi_recv_buffer"),("handler list","AsyncOperations")])
p("C16","configuration values follow set-by-user over environment over default, validated",
 "A configuration value set by the user is what is read, in normalized form; otherwise the environment variable, decoded by its type, counts, and otherwise the default; the reported source says which. A value that is not valid for the type or not among the choices is rejected, and a rejected value does not replace the current one. When the shared object store is on, its threshold takes precedence over the pickle threshold.",
 ["inputs","histories","configurations"],"all configuration parameters, all strings and typed values, all sequences of put and get, all environments",
 "Tests try a few values per parameter; spelling variants, precedence and rejected values form an open-ended space.",
 ["unidist/config/parameter.py","unidist/config/backends/common/envvars.py","unidist/config/backends/mpi/envvars.py","unidist/config/backends/dask/envvars.py","unidist/config/backends/ray/envvars.py"],
 [("decode, normalize and verify per type","_TYPE_PARAMS"),("lazy read and source tracking","Parameter.get/put"),("threshold override","MpiPickleThreshold.get")])
p("C17","the public API accepts only valid declarations and forwards them unchanged",
 "The remote decorator accepts a function (with num_returns None or a non-negative integer) or a class (without num_returns), rejects everything else with an error, and passes the declared num_cpus, num_returns and resources unchanged to the backend. Calling a remote function or actor class directly raises TypeError; options() overrides just the given parameters of that one call and never changes the decorated object. All API calls of a process go to one backend object, chosen by the configuration when it is first needed.",
 ["inputs","programs","configurations"],"all decorator arguments, all options, all call sequences, all backend names",
 "Tests use a few declarations; invalid ones and repeated overrides are an open-ended space.",
 ["unidist/api.py","unidist/core/base/backend.py","unidist/core/base/remote_function.py","unidist/core/base/actor.py","unidist/core/base/utils.py","unidist/core/base/object_ref.py"],
 [("validation","make_decorator, remote"),("wrappers","RemoteFunction.options, ActorMethod.options, ActorClass.options"),("singleton proxy","BackendProxy.get_instance, init_backend, get_backend_proxy")])
p("C18","topology roles are consistent and shutdown ends every process exactly once",
 "For any distribution of processes over hosts, every process is exactly one of controller, monitor or worker, each host has one monitor (or the cluster one, without shared memory), and cluster_resources reports the number of workers per host. Shutdown can be called any number of times: the first sends one cancel to each worker and waits for the root monitor, later ones do nothing. A monitor ends the cluster only after all workers are ready, notifying every other process exactly once, and nothing is executed by a worker after it was cancelled.",
 ["configurations","histories"],"all host/rank topologies, all interleavings of readiness messages, all numbers of shutdown calls",
 "Tests run on one host with a fixed number of processes and shut down once.",
 [M+"communication.py",M+"controller/api.py",M+"monitor/loop.py",M+"worker/loop.py"],
 [("role assignment","MPIState.__init__, is_root_process, is_monitor_process, get_monitor_by_worker_rank"),("shutdown handshake","shutdown, monitor_loop, worker_loop"),("resource report","cluster_resources")])
p("C19","an actor is created once and all of its handles address that one instance",
 "Creating an actor sends exactly one creation request, to one worker that is reserved for it; its method calls go to that worker and that instance; on the MPI, multiprocessing and sequential backends the calls of one process whose arguments are available when they arrive run in the order of their submission. On MPI and Dask a handle that is serialized and restored refers to the same worker and instance and never creates another one. When the creating handle disappears the reservation of the worker is released, once.",
 ["inputs","histories","programs"],"all sequences of actor creation, method calls, handle serialization and deletion",
 "Tests create one or two actors and call a few methods; handle copies and releases in long histories are not exercised.",
 [M+"controller/actor.py","unidist/core/backends/mpi/actor.py","unidist/core/backends/pymp/core/actor.py","unidist/core/backends/pymp/actor.py","unidist/core/backends/dask/actor.py","unidist/core/base/actor.py","unidist/core/backends/pyseq/actor.py"],
 [("creation guarded by missing owner rank and handle","mpi Actor.__init__"),("handle state","Actor serialization helpers"),("rank reservation","Actor.__init__/__del__")])
p("C20","shared-memory sizes never exceed what is available and fit together",
 "For any amount of available memory, threshold and non-negative user setting, the sizes chosen for data and service memory are non-negative, together at most 95 percent of the available memory, and a user-given size is used as given; a setting that cannot be honoured is rejected with an error before anything is allocated. The service area holds a whole number of records and all of it is initialized as empty by the monitor only. Metadata packages describing stored data cannot be modified.",
 ["inputs","configurations"],"all memory sizes, thresholds and combinations of user settings",
 "Tests run with the default sizes of one machine.",
 [M+"shared_object_store.py","unidist/core/backends/mpi/utils.py",M+"common.py"],
 [("size computation","_allocate_shared_memory"),("read-only dictionary","ImmutableDict")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title'])); f.write(json.dumps(x)+"\n")
