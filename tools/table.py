# One entry per property; executed by gen.py
prop("P01", "Switching partitionings preserves every value for the next owner",
     "For any program that switches a container between partitionings which cover the needed indexes, every process "
     "reads after the switch, at every index it owns, exactly the value last written by a process owning that index before "
     "the switch. Values of other containers, and of indexes the process does not own, never leak in. This does not depend on "
     "the communication library's buffering, message delivery order or process speed.",
     ["programs", "schedules", "configurations", "inputs"],
     "all index spaces (1-3d), partitioner sequences, data types, process counts, MPI buffering modes, TCP fragmentations and process schedules",
     "Tests run a few fixed programs with fixed sizes and one MPI library's timing; wrong ranges, offsets or message matching "
     "need specific overlaps of source and target partitioning and specific interleavings.",
     ["src/data.c", "src/partitioning.c", "src/action.c", "src/backend-mpi.c", "src/backend-tcp2.c", "src/layout.c"],
     [("transition calculation", "src/partitioning.c do_calc_transition"), ("copy to self", "src/data.c copyMaps"),
      ("send/receive actions", "src/action.c, src/backend-mpi.c laik_mpi_exec"), ("pack/unpack", "src/layout.c")],
     observe=["container memory reached by laik_get_map_*"])
prop("P02", "Reductions combine exactly the contributions of all owners",
     "A switch with a reduction (sum, product, min, max, and, or, or a user-defined reduction) gives every new owner of an index "
     "the combination of exactly one contribution per previous owner of that index. Initialising a container for a reduction gives "
     "the neutral element of that operation for the element type. All processes see the same result, whatever the buffering, "
     "message timing or reduction algorithm (native or own).",
     ["programs", "schedules", "configurations", "inputs"],
     "all data types, operations, contributor and receiver groups, reduction implementations and schedules",
     "Tests only use sums of doubles over all processes with a single timing.",
     ["src/type.c", "src/action.c", "src/backend-mpi.c", "src/backend-tcp2.c", "src/partitioning.c"],
     [("group reduce to 2-/3-step reduction", "src/action.c"), ("native reduction", "src/backend-mpi.c laik_mpi_exec_reduce"),
      ("element reductions", "src/type.c")])
prop("P05", "All processes agree on partitionings, and their answers are consistent",
     "For the same partitioner, space and group, all processes hold the same ranges, or the same own part when only parts are stored. "
     "The ranges satisfy what the partitioner promises (full cover, disjoint blocks, halo widths, weights' order). Every query about a "
     "partitioning - own ranges, mappings, global/local index conversion, coverage tests, intersections - is consistent with those ranges.",
     ["inputs", "programs", "configurations", "schedules"],
     "all spaces, process counts, partitioner kinds and parameters, weights, storage modes (all, own, intersecting ranges), process schedules",
     "Tests print the result of few partitioners for a few sizes.",
     ["src/partitioner.c", "src/partitioning.c", "src/rangelist.c", "src/space.c"],
     [("partitioners", "src/partitioner.c"), ("range filters", "src/partitioning.c"), ("range lists", "src/rangelist.c")])
prop("P03", "Memory management of containers never shows through the values",
     "Whatever way the memory of a container is obtained - default allocation, an application-defined allocator, memory provided by the "
     "application, a reservation for several partitionings, reuse of an old mapping - and whatever the data layout, values written by the "
     "application survive switches as the data flow demands, newly initialised values are the neutral elements, mappings of different "
     "containers or ranges never overlap, the address found for an index is always the element of that index, and memory is released "
     "exactly once and never used afterwards.",
     ["programs", "inputs", "configurations", "schedules"],
     "all sequences of container creation, reservation, switch, release and destruction, all allocator results, layouts and element sizes",
     "Tests use reservations and allocators in one fixed order and only check sums.",
     ["src/data.c", "src/layout_lex.c", "src/layout.c"],
     [("reservations", "src/data.c laik_reservation_*"), ("map reuse", "src/data.c checkMapReuse"), ("allocation", "src/data.c allocateMap"),
      ("layouts", "src/layout_lex.c")],
     observe=["laik_get_map_*, laik_get_map_addr, allocator callbacks"])
prop("P04", "Precomputed transitions and action sequences do what a direct switch does",
     "Executing a transition calculated beforehand (laik_calc_transition / laik_exec_transition) or a precompiled action sequence "
     "(laik_calc_actions / laik_exec_actions), any number of times and interleaved with other operations, leaves every process with "
     "exactly the values the same direct switch would give, for every backend.",
     ["programs", "schedules", "configurations", "inputs"],
     "all transitions, reservations, repetitions and interleavings with other containers, message buffering modes",
     "Tests execute one precompiled sequence with one size.",
     ["src/data.c", "src/action.c", "src/backend-mpi.c", "src/backend-tcp2.c"],
     [("action sequence transformations", "src/action.c laik_aseq_*"), ("prepare/exec/cleanup", "backends"),
      ("buffers of action sequences", "src/action.c")])
prop("P07", "Synchronising a key-value store makes all processes hold the same content",
     "After laik_kvs_sync, every process of the world holds in the store the same set of keys with the same values: the result of "
     "applying all changes (sets and removals) done by any process since the previous synchronisation to the earlier common content. No change is lost, "
     "invented, truncated or applied twice, for any key names, value sizes, binary content and number of changes.",
     ["histories", "inputs", "schedules", "configurations"],
     "all histories of set/remove/sync operations by all processes, all value sizes and contents, message orders and fragmentations",
     "Tests store a few short strings once.",
     ["src/kvs.c", "src/backend-mpi.c", "src/backend-tcp2.c"],
     [("journal and merge", "src/kvs.c"), ("store synchronisation", "src/backend-mpi.c laik_mpi_sync, src/backend-tcp2.c tcp2_sync")],
     observe=["laik_kvs_get/entry/size"])
prop("P08", "A key-value store behaves as a sorted map with change callbacks",
     "Between synchronisations a process sees its own changes at once: get returns the last value set, removed keys are gone, the entries are "
     "enumerable in key order after sorting with the right count and sizes, a value that did not change is not reported as change, and during a synchronisation the "
     "created/changed/removed callbacks are invoked exactly once for each received change that takes effect, and only for these.",
     ["histories", "inputs"],
     "all histories of local operations on stores and all contents",
     "Tests set a handful of keys and print them.",
     ["src/kvs.c"],
     [("entries and sorting", "src/kvs.c laik_kvs_*"), ("callbacks", "src/kvs.c laik_kvs_reg_callbacks")])
prop("P09", "Synchronised locations and index spaces are identical on all processes",
     "After synchronising locations, every process knows for every process of the world exactly the location string that process registered "
     "with. After synchronising the space store, every process can obtain the spaces set by name by any process with the same dimensions and bounds; "
     "later changes replace earlier ones.",
     ["histories", "inputs", "schedules", "configurations"],
     "all location names, spaces, process counts, orders of synchronisation and schedules",
     "Tests print locations of one run.",
     ["src/core.c", "src/space.c", "src/kvs.c"],
     [("location store", "src/core.c laik_sync_location"), ("space store", "src/space.c laik_spacestore_*")])
prop("P10", "Process groups keep a consistent numbering when shrunk, united or cloned",
     "Every group derived by shrinking, uniting or cloning has the same members in the same order on all processes, consecutive "
     "process ids, unchanged location ids, and an own id which is -1 exactly for processes outside of it. Data and partitionings used or migrated with such a "
     "group reach exactly the processes of the group, and processes outside are not disturbed.",
     ["programs", "schedules", "configurations"],
     "all trees of derived groups (unions where the backend supports them), their use for partitionings, switches and migrations, and schedules",
     "Tests shrink once with one process less.",
     ["src/core.c", "src/partitioning.c", "src/rangelist.c", "src/backend-mpi.c", "src/backend-tcp2.c"],
     [("group creation", "src/core.c laik_new_shrinked_group, laik_new_union_group, laik_clone_group"),
      ("migration", "src/partitioning.c laik_partitioning_migrate"), ("group communicators", "src/backend-mpi.c laik_mpi_updateGroup")])
prop("P06", "Every collective operation finishes under any timing and buffering",
     "A program whose processes all call the same LAIK operations never deadlocks or runs forever: every operation finishes on every process "
     "within a bounded number of steps, whatever amount of buffering the MPI library provides (including none), in which order messages of different "
     "senders arrive, how TCP data is delayed, and how slow single processes are. Process speeds and delays never change the results.",
     ["schedules", "programs", "configurations", "fault_sequences"],
     "all programs of collective operations, all schedules, MPI completion modes (rendezvous, buffered, mixed), TCP delays and stalled processes",
     "Tests run on one machine with one MPI library which buffers small messages, so wrong send/receive orders never block.",
     ["src/action.c", "src/backend-mpi.c", "src/backend-tcp2.c", "src/data.c"],
     [("order of sends and receives (two-phase sort)", "src/action.c laik_aseq_sort_2phases"), ("rank ordered sends", "src/backend-mpi.c laik_mpi_exec"),
      ("send permission handshake", "src/backend-tcp2.c"), ("event loop", "src/backend-tcp2.c run_loop")],
     observe=["termination of every process, container and store content"])
prop("P13", "The TCP backend copes with partial I/O, interruptions and split messages",
     "However the operating system splits, merges or delays the bytes between processes, and whenever a system call is interrupted or does only part of its work, "
     "the TCP backend delivers exactly the same commands, binary data and results as with undisturbed I/O.",
     ["fault_sequences", "schedules", "inputs"],
     "all segmentations of the byte streams, short reads and writes, interrupted system calls, refused and aborted connections, IPv4/IPv6 order, host and port layouts",
     "The loopback device of the test machine delivers each small write in one piece and never fails.",
     ["src/backend-tcp2.c"],
     [("receive buffers per connection", "src/backend-tcp2.c process_rbuf, got_bytes"), ("complete writes", "src/backend-tcp2.c send_cmd, send_bin"),
      ("connection setup", "src/backend-tcp2.c ensure_conn, got_connect")],
     observe=["container and store content, termination"])
prop("P15", "Start-up gives every process a unique id and the same view of the world",
     "Whatever the order and time at which processes are started, the hosts and process ids they have, and which of them gets the master role, all of them finish "
     "initialisation with the same world size, distinct consecutive location ids and process ids, and the same location strings and addresses for each id.",
     ["schedules", "configurations", "fault_sequences"],
     "all start orders and delays, host layouts, equal process ids on different hosts, ports, connection refusals before the master listens",
     "Tests start all processes at once on one host.",
     ["src/backend-tcp2.c", "src/backend-mpi.c", "src/core.c"],
     [("registration", "src/backend-tcp2.c got_register, laik_init_tcp2"), ("id assignment", "src/backend-tcp2.c assignid messages"), ("world group", "src/core.c")],
     observe=["laik_mylocationid, laik_location, laik_size, laik_myid"])
prop("P17", "Results do not depend on backend and its optimisations",
     "The same program computes the same values with the single-process, MPI and TCP backends, with native or own reductions, with or without asynchronous messages, with "
     "generic or specialised memory layouts, and with text or binary transfers (mixed between processes in any way).",
     ["configurations", "programs", "inputs"],
     "all programs and all combinations of backend, backend options and layout implementation",
     "Tests compare single outputs with default options.",
     ["src/backend-mpi.c", "src/backend-tcp2.c", "src/backend-single.c", "src/action.c", "src/layout.c"],
     [("options of the MPI backend", "src/backend-mpi.c LAIK_MPI_REDUCE/LAIK_MPI_ASYNC"), ("binary flag of peers", "src/backend-tcp2.c"), ("generic layout", "src/layout.c")],
     observe=["container and store content compared with a common reference model"])
prop("P18", "The threaded TCP backend delivers every message exactly once and completes",
     "With the older, multi-threaded TCP backend (src/backends/tcp) every message reaches exactly the operation, communicator and process it belongs to, once and unmodified, so that switches, "
     "reductions, sub-groups and key-value stores give the same values as with every other backend. This holds for any interleaving of its threads, any configuration (limits of threads, connections and "
     "message stores, delays, address kinds; changed or unreadable while running), refused, split or delayed transfers and slow or late processes. laik_finalize returns on every process, with all threads and "
     "sockets of the backend gone.",
     ["schedules", "configurations", "fault_sequences", "programs"],
     "all thread interleavings, configurations and their changes, connection failures, transfer fragmentations and programs",
     "This backend is not even started by the tests; its behaviour depends on races between client, server and main threads.",
     ["src/backends/tcp/messenger.c", "src/backends/tcp/minimpi.c", "src/backends/tcp/map.c", "src/backends/tcp/client.c", "src/backends/tcp/server.c", "src/backends/tcp/socketqueue.c", "src/backends/tcp/backend-tcp.c"],
     [("message stores", "src/backends/tcp/map.c"), ("message protocol", "src/backends/tcp/messenger.c"), ("communicators, reductions, barrier", "src/backends/tcp/minimpi.c"),
      ("connection handling", "src/backends/tcp/client.c, server.c, socketqueue.c, socket.c")],
     observe=["container and store content compared with the reference model, termination, open sockets and running threads after laik_finalize"])
prop("P19", "The library never reads or writes outside of the memory it owns",
     "For every valid program the library only touches memory belonging to its own objects and to the containers' ranges: no access beyond an allocation, after its release or to "
     "uninitialised content that influences results, whatever values fresh memory happens to contain.",
     ["programs", "inputs", "schedules", "configurations"],
     "all programs, sizes, names and memory contents",
     "Tests pass as long as the overwritten memory is padding of the allocator or happens to be zero.",
     ["src/data.c", "src/partitioning.c", "src/action.c", "src/kvs.c", "src/backend-mpi.c", "src/backend-tcp2.c", "src/rangelist.c", "src/space.c"],
     [("size calculations", "all allocation sites"), ("growing arrays", "src/rangelist.c, src/kvs.c, src/action.c")],
     observe=["guard pages and guard bytes around each allocation of the library, patterns in fresh memory"])
prop("P20", "Logging and profiling never change results or stop the program",
     "Any log level, prefix style, process filter, log or profiling file, and any clock behaviour (jumps backwards or forwards) leaves results, messages and termination of the program unchanged, also "
     "when output files cannot be opened or written.",
     ["configurations", "programs", "fault_sequences"],
     "all logging and profiling configurations, programs, clock jumps, failing opens and writes of output files",
     "Tests run with logging off or at one level, on working disks.",
     ["src/logging.c", "src/profiling.c", "src/debug.c"],
     [("buffered messages", "src/logging.c"), ("object printing", "src/debug.c"), ("profiling control", "src/profiling.c")],
     observe=["container and store content, exit state"])
prop("P21", "Objects can be released in any order and every process finalizes cleanly",
     "Releasing containers, partitionings, reservations and stores in any valid order releases each of their memory blocks at most once, never disturbs other objects, and finalizing "
     "ends every process normally at any relative time, with no process waiting for one which has already left and with all library threads and connections closed.",
     ["programs", "schedules"],
     "all programs, release orders and relative process speeds at the end of the program",
     "Tests rarely free objects and exit together.",
     ["src/core.c", "src/data.c", "src/partitioning.c", "src/backend-mpi.c", "src/backend-tcp2.c"],
     [("finalize", "src/core.c laik_finalize and backends' finalize"), ("release functions", "laik_free, laik_free_partitioning, laik_reservation_free, laik_kvs_free")],
     observe=["process exit status, double release and use after release"])
prop("P16", "Repeating the same work never accumulates memory, files or requests",
     "When a program repeats the same work (creating partitionings, containers, reservations, transitions, action sequences and key-value stores in spaces and groups which stay, writing, switching "
     "also between groups, executing, reducing, synchronising) and releases all of these objects again, then after a warm-up every repetition leaves each process with the same number and bytes of allocated memory "
     "blocks, open descriptors and files, and pending MPI requests; no fixed limit is ever used up. Releasing frees everything the library allocated for an object, whatever the object was used for before, "
     "and memory handed out by an application's allocator is given back to it exactly once.",
     ["programs", "histories", "schedules"],
     "all sequences of operations, repeated any number of times; workloads of 1-2 kinds of work repeated 9 times per run",
     "Tests run a few iterations and never look at what is left.",
     ["src/data.c", "src/partitioning.c", "src/rangelist.c", "src/action.c", "src/space.c", "src/kvs.c", "src/core.c", "src/backend-mpi.c", "src/backend-tcp2.c"],
     [("release functions", "laik_free, laik_free_partitioning, laik_free_transition, laik_aseq_free, laik_reservation_free, laik_kvs_free"), ("mappings", "src/data.c freeMap, freeMappingList"), ("temporary objects of a switch", "src/data.c laik_switchto_partitioning, doTransition")],
     observe=["live blocks, bytes, descriptors, files and MPI requests at the end of every repetition"])
prop("P11", "World resizes are agreed on and follow exactly what was asked for",
     "At every resize point all remaining, removed and newly joined processes see the same new world: remaining processes keep their ids and order, new processes follow with new unique "
     "location ids, removed processes get no id in it, and phase, epoch and parent group agree. A process is only removed if a removal request matching its location was made, and requests which reached the master "
     "before the resize point are obeyed there, each once. Without a request or newcomer the world stays the same group.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "all numbers of joining processes, removal requests by clients (split, early, with closed connections, also during start-up), arrival times relative to resize points, and schedules",
     "Tests join or remove one process at a fixed moment, and cannot place requests into the middle of a resize.",
     ["src/backend-tcp2.c", "src/core.c"],
     [("resize protocol", "src/backend-tcp2.c tcp2_resize, got_enterresize, got_backedout, got_phase"), ("join", "src/backend-tcp2.c got_register"), ("removal", "src/backend-tcp2.c got_cutoff"),
      ("resize API", "src/core.c laik_allow_world_resize, laik_finish_world_resize")],
     observe=["laik_world, laik_group_locationid, laik_phase, laik_epoch, laik_group_parent"])
prop("P12", "Containers keep their values when processes join or leave",
     "After a world resize, switching containers from partitionings of the old world to partitionings of the new one gives every process, including newly joined ones, exactly the values "
     "last written by their owners in the old world; processes to be removed hand over their values before they leave. Location information synchronized after the resize is complete and correct on every process.",
     ["schedules", "histories", "programs", "configurations"],
     "all sequences of joins and removals, partitioners before and after, data types, released or kept old worlds, and schedules",
     "Tests use one program with a fixed pattern of joins.",
     ["src/core.c", "src/data.c", "src/partitioning.c", "src/backend-tcp2.c", "src/rangelist.c"],
     [("transition between worlds", "src/data.c laik_switchto_partitioning, src/partitioning.c laik_partitioning_migrate"), ("newcomer's view of the old world", "src/backend-tcp2.c laik_init_tcp2"),
      ("location store", "src/core.c laik_sync_location")],
     observe=["container memory reached by laik_get_map_*"])
prop("P14", "Outsiders talking to the TCP port cannot disturb a running program",
     "Whatever connections come from outside - clients of the command interface, port scanners, clients sending arbitrary text or binary data, in any pieces, and closing at any moment - the processes of a "
     "running program neither abort, hang nor compute anything else. Requests from outside are answered as documented (help, status), requests for removal are obeyed at the next resize point only, "
     "and incomplete or invalid commands have no effect.",
     ["fault_sequences", "inputs", "schedules"],
     "all byte strings sent by unknown clients (except valid protocol messages of impersonated processes), their segmentation, closing moments, target process, and the schedules of the program",
     "No test connects to a running program with anything but a valid removal request.",
     ["src/backend-tcp2.c"],
     [("command parsing", "src/backend-tcp2.c got_cmd, process_rbuf"), ("unknown peers", "src/backend-tcp2.c got_bytes, rm_fd"), ("status and help", "src/backend-tcp2.c got_status, got_help")],
     observe=["container and store content, termination, replies to clients"])

prop("P22", "Data is packed, unpacked and copied exactly, in any pieces and layouts",
     "Packing a range of a mapping into buffers of any sizes gives its values in index order, each exactly once and nothing else, and ends exactly at the end of the range; unpacking and copying store each value "
     "at exactly its own index in the target and change no other memory. This holds for every range inside of the mapping, number of dimensions, element size, storage layout, piece sizes and point of resumption, and "
     "addresses, offsets, strides and sections reported for a mapping agree with where values really are.",
     ["inputs", "programs", "histories"],
     "all mappings reached by programs, all sub-ranges, element sizes, layouts and sequences of buffer sizes, also between different mappings and containers",
     "Tests pack whole halos into buffers large enough, in one layout.",
     ["src/layout.c", "src/layout_lex.c", "src/data.c"],
     [("generic pack, unpack, copy", "src/layout.c laik_layout_pack_gen, laik_layout_unpack_gen, laik_layout_copy_gen"), ("lexicographical layout", "src/layout_lex.c pack_lex, unpack_lex, copy_lex"),
      ("addresses", "laik_get_map_addr, laik_global2local_1d, laik_maplocal2global_1d, offset and section functions")],
     observe=["buffers written by pack, memory of mappings after unpack and copy"])
prop("P23", "Failures announced by external agents reach the program exactly once",
     "Asking for failed nodes returns exactly those which the loaded fault tolerance agents report at that moment, of all agents and in the order of loading, and no failure is lost or reported by another agent; without any, "
     "the number is zero. Agents are initialised once with their arguments, informed about every iteration set, never called after their library was closed, and each library is closed exactly once. "
     "Iteration and phase read back are the values last set by that process.",
     ["programs", "schedules", "fault_sequences"],
     "all sets of agents (from files and functions, with and without optional functions), moments of announcements relative to requests, programs and schedules around",
     "No test loads an agent.",
     ["src/external.c", "src/program.c"],
     [("loading and closing", "src/external.c laik_ext_load_agent_from_file, laik_ext_load_agent_from_function, laik_ext_cleanup"), ("failures", "src/external.c laik_get_failed"),
      ("program control", "src/program.c laik_set_iteration, laik_set_phase, laik_get_phase, laik_iter_reset")],
     observe=["result of laik_get_failed, calls received by agents, laik_get_iteration, laik_get_phase"])
prop("P24", "A dying process or exhausted memory never leads to wrong data elsewhere",
     "When a process is killed at any moment, or an allocation fails in it, every other process either completes operations with exactly the values it would have got otherwise, keeps waiting, or ends with an error: "
     "no process is ever given wrong or incomplete data in containers or key-value stores. A process whose allocation fails itself ends instead of continuing with wrong data, and no process corrupts memory or spins for ever "
     "in the consequence.",
     ["crash_points", "fault_sequences", "schedules", "programs"],
     "all programs, processes and moments of dying (between any two calls to the communication layer; TCP2), all points at which allocations start to fail (TCP2 and MPI), and schedules",
     "No test kills a process or lets an allocation fail.",
     ["src/backend-tcp2.c", "src/backend-mpi.c", "src/data.c", "src/kvs.c", "src/rangelist.c", "src/action.c", "src/core.c"],
     [("lost connections", "src/backend-tcp2.c got_bytes, ensure_conn, send_cmd, send_bin"), ("waiting", "src/backend-tcp2.c recv_range, send_range, tcp2_sync"), ("allocation failures", "checks after malloc, calloc and realloc; laik_panic")],
     observe=["container and store content seen by the remaining processes, exit states"])
