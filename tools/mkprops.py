#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="schedules";I="inputs";G="programs";H="histories";C="configurations";F="fault_sequences";K="crash_points"
TESTS="The tests run one program each with 4-5 processes on one node under whatever timing the host gives; "

p("C01","Remote patch put and get move exactly the addressed elements",
"A put of a rectangular or strided patch changes exactly the addressed elements of the global array to the caller's values, and a get returns exactly the current values of the addressed elements into the addressed positions of the caller's buffer and touches nothing else. This holds for every element type, dimension, patch shape, leading dimension, stride and data distribution, whichever processes own the patch, on every communication runtime and transfer path (direct, shared memory, packed, chunked, vector), and however messages are delayed or processes scheduled.",
[S,I,G,C],"all interleavings and message timings; all patches, types, strides, distributions, process counts, runtimes and transfer-size settings",
TESTS+"they sample a few regular distributions, default transfer thresholds and quiet timing, so path- and schedule-dependent misplacement is unexplored.",
["global/src/onesided.c","global/src/base.c","comex/src-armci/armci.c","comex/src-mpi/comex.c","comex/src-mpi-pr/comex.c","comex/src-mpi-mt/comex.c","comex/src-mpi-pt/comex.c","comex/src-mpi3/comex.c"],
[("patch split by owner and strided transfer","global/src/onesided.c: ngai_put_common, ngai_get_common, gai_iterator"),("strided/packed/chunked/iov protocols","comex/src-mpi*/comex.c: nb_puts, nb_gets, _put_packed_handler, _get_packed_handler")],
["NGA_Put/NGA_Get/NGA_Strided_put/NGA_Strided_get results","full array contents after a sync"])

p("C02","Concurrent accumulates are atomic and none is lost or repeated",
"When any number of processes or tasks accumulate scaled contributions into overlapping elements at the same time, each element ends up as its initial value plus every contribution exactly once. No read ever returns a value that is not the initial value plus some subset of the contributions.",
[S,I,G,C],"all interleavings of accumulates, strided, element-list and nonblocking, from any set of processes to any owners, all types and scale factors",
TESTS+"an unlocked read-modify-write loses an update only in a narrow window that few test runs hit.",
["global/src/onesided.c","comex/src-common/acc.h","comex/src-mpi/comex.c","comex/src-mpi-pr/comex.c","comex/src-mpi-mt/comex.c","comex/src-mpi-pt/comex.c","comex/src-mpi3/comex.c"],
[("accumulate applied under per-process lock or by the single server","comex/src-mpi-pr/comex.c: sem_wait in comex_acc/_acc_handler; comex/src-mpi-mt, -pt: mutex around acc; comex/src-mpi3: MPI_Accumulate")],
["array contents read during and after the phase"])

p("C03","Read-and-increment and swap are atomic",
"Every atomic fetch-and-add or swap on an element takes effect at one instant between its call and its return: it returns the value immediately before its own update and no other update is lost. In particular counters handed out by read-and-increment are never duplicated and never skipped.",
[S,G,H],"all interleavings of fetch-and-add and swap calls by any processes on any elements",
TESTS+"duplicated tickets need two requests to interleave inside one update.",
["global/src/onesided.c","comex/src-mpi/comex.c","comex/src-mpi-pr/comex.c","comex/src-mpi-mt/comex.c","comex/src-mpi-pt/comex.c","comex/src-mpi3/comex.c"],
[("owner-side execution of the fetch-and-op","comex/src-mpi*/comex.c: comex_rmw, _fetch_and_add_handler, _swap_handler")],
["return values of NGA_Read_inc / ARMCI_Rmw with invocation/response order","final counter values"])

p("C04","Completed, fenced and synchronised updates are visible in order",
"A process's own blocking operations on overlapping data take effect in the order it issued them. After a sync, or after an update followed by its fence and any message or barrier, every process that looks at the data, remotely or by direct local access, sees that update, and a sync returns on no process before every process of the group has entered it.",
[S,G,H,C],"all interleavings, message delays and stalled processes around puts, accumulates, gets, fences, syncs and user messages",
TESTS+"a missing fence or an early barrier return is normally hidden because data arrive quickly.",
["global/src/onesided.c","global/src/base.c","comex/src-mpi/comex.c","comex/src-mpi-pr/comex.c","comex/src-mpi-mt/comex.c","comex/src-mpi-pt/comex.c","comex/src-mpi3/comex.c","comex/src-armci/armci.c"],
[("fence requests and acknowledgements","comex/src-mpi*/comex.c: comex_fence_all, comex_fence_proc, comex_barrier"),("GA sync and fence array","global/src/onesided.c: pnga_pgroup_sync, pnga_init_fence, pnga_fence")],
["values read after fence+message and after sync","order of entry and exit of syncs"])

p("C05","Nonblocking operations complete exactly as waited for",
"After waiting on a nonblocking put or accumulate the caller may reuse its buffer without affecting the data transferred, and after waiting on (or a successful test of) a nonblocking get the buffer holds the data; operations never waited on individually are completed by the next sync. This holds for any number of operations outstanding, waited on in any order, mixed with blocking operations, and beyond the limit on simultaneous requests.",
[S,G,H,C],"all interleavings and orders of issue, test and wait, any number of outstanding handles, any outstanding-request limit",
TESTS+"they wait in issue order with few handles and never squeeze the request limit or reuse buffers adversarially.",
["global/src/nbutil.c","global/src/onesided.c","comex/src-mpi/comex.c","comex/src-mpi-pr/comex.c","comex/src-mpi-mt/comex.c","comex/src-mpi-pt/comex.c","comex/src-mpi3/comex.c","comex/src-armci/armci.c"],
[("GA handle list","global/src/nbutil.c"),("request slots and deferred sends/receives","comex/src-mpi*/comex.c: nb_get_handle_index, nb_wait_for_all, nb_test_for_all")],
["array contents and local buffers after wait/test/sync while source buffers are overwritten"])

p("C06","Mutexes give exclusive access and are always eventually granted",
"At most one process holds a given mutex at any time, a process that asks for a free mutex gets it after finitely many steps of the others, and updates made and fenced inside one critical section are visible in the next one. Distinct mutexes do not block each other, and mutexes can be destroyed and created again.",
[S,G,H],"all interleavings of lock and unlock calls on any number of mutexes, hosted on any process, by any processes",
TESTS+"lock.x tries one contended counter under host timing.",
["global/src/onesided.c","comex/src-mpi/comex.c","comex/src-mpi-pr/comex.c","comex/src-mpi-mt/comex.c","comex/src-mpi-pt/comex.c","comex/src-mpi3/comex.c","comex/src-armci/armci.c"],
[("queued lock requests granted by the host process","comex/src-mpi*/comex.c: comex_lock, comex_unlock, _lock_handler, _unlock_handler"),("GA mutex placement","global/src/onesided.c: pnga_create_mutexes, pnga_lock, pnga_unlock")],
["critical-section entry/exit order","unprotected read-modify-write counters inside critical sections"])

p("C07","Collective reductions and broadcasts give every member the right result",
"A global reduction leaves in every member of the group the same result, equal to the reduction of the members' contributions for every operator, type and length, and a broadcast leaves the root's bytes in every member. Collectives of disjoint or overlapping groups and point-to-point traffic in flight never affect one another.",
[S,I,G],"all interleavings; operators, types, lengths across internal buffer sizes, roots and groups",
TESTS+"they use short vectors of two types on the world group in lockstep.",
["comex/src-armci/message.c","global/src/collect.c","global/src/global.util.c"],
[("typed reduction over messages or MPI","comex/src-armci/message.c: armci_msg_*gop*, armci_msg_group_*"),("GA interface","global/src/collect.c: pnga_gop, pnga_pgroup_gop, pnga_brdcst")],
["buffers of every member after the call"])

p("C08","Processor groups are independent and their ranks translate consistently",
"Arrays, synchronisation and collectives on a processor group involve exactly its members: concurrent work on other groups neither blocks them nor changes their data, and one-sided access by group-relative or absolute rank reaches the same process. Splitting or creating groups, nesting them, changing the default group and destroying them gives every member the same membership, order and rank translation.",
[S,G,C],"all interleavings of work in several groups, all membership lists and nestings, group create/destroy histories",
TESTS+"they make one or two disjoint groups and use them in lockstep.",
["global/src/base.c","global/src/onesided.c","comex/src-mpi/groups.c","comex/src-mpi-pr/groups.c","comex/src-mpi-mt/groups.c","comex/src-mpi-pt/groups.c","comex/src-mpi3/groups.c","comex/src-armci/armci.c"],
[("group creation and rank maps","comex/src-mpi*/groups.c; global/src/base.c: pnga_pgroup_create, pnga_pgroup_split, PGRP_LIST")],
["group sizes, ranks and absolute ids on every member","array contents of arrays on each group"])

p("C09","Every element has exactly one owner and all location queries agree",
"For every array the blocks reported by the distribution queries of all processes are disjoint and cover the array, and the element and region location queries, block queries and direct local access all agree with them. Data stored by any process is what the owner finds through direct access, and data an owner writes directly and releases is what any process then reads.",
[S,I,C],"regular, irregular, block-cyclic, tiled, grid and restricted layouts, all shapes, chunk hints, ghost widths and process counts; all interleavings of the accesses",
TESTS+"they use a few shapes that divide evenly.",
["global/src/base.c","global/src/decomp.c","global/src/onesided.c","global/src/iterator.c","global/src/matrix.c"],
[("decomposition","global/src/decomp.c; global/src/base.c: pnga_allocate, pnga_distribution, pnga_locate, pnga_locate_region")],
["NGA_Distribution/NGA_Locate/NGA_Locate_region/NGA_Access* on every process"])

p("C10","Gather, scatter and scatter-accumulate address exactly the listed elements",
"A scatter stores, a gather fetches and a scatter-accumulate adds exactly the listed elements in list order correspondence, for any list length, order, repetition (for gathers and accumulates) and any mix of owners. Elements not listed are never changed and concurrent scatter-accumulates lose nothing.",
[S,I,G,C],"all element lists and layouts, all interleavings",
TESTS+"they use short lists on one layout.",
["global/src/onesided.c","global/src/hsort.scat.c","comex/src-armci/armci.c","comex/src-mpi/comex.c","comex/src-mpi-pr/comex.c","comex/src-mpi-mt/comex.c","comex/src-mpi-pt/comex.c","comex/src-mpi3/comex.c"],
[("list bucketed by owner and sent as vector transfers","global/src/onesided.c: gai_gatscat, gai_gatscat_new, pnga_gather2d, pnga_scatter2d; comex_putv/getv/accv")],
["array contents and gathered buffers"])

p("C11","Ghost cells mirror their neighbours and periodic access wraps around",
"After a ghost update every ghost cell holds the current value of the element it mirrors, wrapping periodically at the array boundary, and no interior element has changed; transfers that do not concern ghosts never read or write ghost cells. Periodic put, get and accumulate on index ranges crossing the boundary act on exactly the wrapped elements.",
[S,I,C],"all ghost widths, dimensions, distributions and process counts, all update variants, all interleavings and message timings",
TESTS+"ghosts.x uses one or two widths and evenly divided arrays.",
["global/src/ghosts.c","global/src/global.periodic.c","global/src/onesided.c","global/src/base.c"],
[("dimension-wise shift and direct update algorithms","global/src/ghosts.c: pnga_update1_ghosts..pnga_update7_ghosts, pnga_set_update*_info"),("wrapped patch list","global/src/global.periodic.c")],
["NGA_Access_ghosts/NGA_Get_ghost_block contents after GA_Update_ghosts","results of NGA_Periodic_*"])

p("C12","Whole-array and patch operations equal their serial definition",
"Fill, zero, copy, scale, add, dot product, element-wise arithmetic, extrema, diagonal, norm, transpose and symmetrise operations on arrays and patches leave in every element, or return on every process, what the serial definition gives, and change nothing outside the target patch. The result does not depend on how operands are distributed, on which group of processes runs it, or on timing.",
[S,I,G,C],"all operand shapes, patches, types, scalars, pairs of different distributions, aliasing allowed by the interface, process counts, interleavings",
TESTS+"they use equal distributions and full arrays.",
["global/src/global.npatch.c","global/src/global.nalg.c","global/src/elem_alg.c","global/src/matrix.c","global/src/ga_symmetr.c","global/src/DP.c"],
[("owner-computes loops with temporary redistribution","global/src/global.npatch.c: pnga_copy_patch, pnga_add_patch, pnga_dot_patch; elem_alg.c; matrix.c")],
["array contents and scalars on every process"])

p("C13","Distributed matrix multiplication equals the serial product",
"Multiplying distributed matrices or patches, with or without transposition and scaling, stores alpha*op(A)*op(B)+beta*C in the target patch and changes nothing else, for every shape, type, distribution, process count and amount of temporary memory. Concurrent execution order never changes which products are included.",
[S,I,C,F],"all shapes, transposes, types, distributions, memory available for temporaries, interleavings",
TESTS+"they use square matrices on default grids.",
["global/src/matmul.c","global/src/base.c"],
[("blocked multiply with task counters, nonblocking prefetch and accumulate","global/src/matmul.c: pnga_matmul, gai_matmul_patch, pnga_matmul_patch")],
["contents of C compared with a serial product"])

p("C14","Scans, pack/unpack, enumeration and selection equal their serial definition",
"Segmented scan-copy and scan-add, pack and unpack by mask, patch enumeration and element selection (minimum or maximum with its index) produce the serial result for every mask, segment layout and distribution, identically on all processes. Elements outside the requested range are unchanged.",
[S,I,C],"all masks, ranges, exclusive/inclusive flags, types, process counts, interleavings",
TESTS+"they use a handful of masks that are aligned with the distribution.",
["global/src/sparse.c","global/src/select.c"],
[("per-process partial scans combined by reductions and gets","global/src/sparse.c: gai_scan_copy_add, pnga_pack, pnga_unpack, pnga_patch_enum; select.c: pnga_select_elem")],
["array contents, counts and selected values"])

p("C15","Sparse arrays contain exactly the assembled elements and multiply correctly",
"After assembly a distributed sparse array holds exactly the elements its processes added, whichever process added them and in whatever order, and every query, block fetch and copy reports them. Products of sparse arrays with vectors, dense arrays, diagonals and other sparse arrays equal the serial product.",
[S,I,G,C],"all sparsity patterns including empty rows, blocks and processes, all contributors, index sizes, process counts, interleavings",
TESTS+"two programs build one regular stencil pattern.",
["global/src/sparse.array.c"],
[("assembly by linked lists exchanged through one-sided transfers","global/src/sparse.array.c: pnga_sprs_array_assemble, pnga_sprs_array_matvec_multiply, pnga_sprs_array_matmat_multiply")],
["elements found by block access and column access on every process, product arrays"])

p("C16","Array creation, failure and destruction are collective and leak nothing",
"Creating an array either succeeds on every process of the group or fails on every one, including when memory cannot be obtained on only some of them, and a failure leaves existing arrays, handles and later creations working. Destroying arrays and terminating gives back all memory, shared-memory objects, windows and communicators they used, and no handle, block or value of a destroyed array leaks into a new one.",
[G,H,F,S,C],"all create/duplicate/destroy histories, allocation failures at any site on any subset of processes, memory limits, interleavings",
"No test makes an allocation fail, and none looks for leaked system resources after termination.",
["global/src/base.c","global/src/ga_malloc.c","comex/src-mpi/comex.c","comex/src-mpi-pr/comex.c","comex/src-mpi-mt/comex.c","comex/src-mpi-pt/comex.c","comex/src-mpi3/comex.c","comex/src-mpi-pr/reg_cache.c"],
[("collective status check after allocation","global/src/base.c: pnga_allocate, pnga_duplicate, gai_getmem, pnga_destroy, pnga_terminate"),("shared segments","comex/src-mpi-pr/comex.c: comex_malloc, comex_free, _shm_create, _shm_attach, comex_finalize")],
["return values on every process","simulated heap, shared-memory name space and MPI object tables after termination"])

p("C17","Disk resident arrays return what was written, or report failure",
"A section written to a disk resident array and completed is what any later read returns, for any section shape, file layout, number of files and I/O processes, also after closing and reopening and with a different number of processes; unwritten parts of the file are not changed. When the file system gives short transfers or interruptions the data are still right, and when it fails an operation the failure is reported rather than silently losing or corrupting data.",
[S,I,H,F,K,C],"all sections, array/disk layouts, I/O process and file counts, process counts across reopen, interleavings, I/O fault sequences, restart points",
"The tests write and read whole arrays on a healthy disk; none injects an I/O fault or restarts.",
["pario/dra/disk.arrays.c","pario/dra/buffers.c","pario/dra/patch.util.c","pario/dra/disk.param.c","pario/elio/elio.c"],
[("chunked layout, aligned reads with read-modify-write, buffer pool, request wait","pario/dra/disk.arrays.c: ndai_transfer, nwrite, nread, NDRA_Write_section, DRA_Wait, DRA_Open")],
["array contents after NDRA_Read*","return codes","bytes of the simulated files"])

p("C18","Private scratch files behave like a byte store under interrupted I/O",
"For each process a read from an exclusive-access file returns the most recently written bytes of each position, for synchronous and asynchronous requests in any number and order of waiting, and the reported length, truncation, end-of-file and deletion behave like an ordinary file. Short transfers and interruptions never lose, duplicate or misplace bytes, and real errors are returned to the caller.",
[G,H,F,S,I],"all sequences of open/read/write/async/wait/truncate/close, all completion orders, short transfers, EINTR, ENOSPC and EIO at any call",
"test.F runs one sequence on a healthy disk; I/O calls there are never short or interrupted.",
["pario/eaf/eaf.c","pario/elio/elio.c"],
[("seek/read/write loops and asynchronous request table","pario/elio/elio.c: elio_write, elio_read, elio_awrite, elio_aread, elio_wait, elio_probe")],
["EAF return codes, buffers, lengths; bytes of the simulated files"])

p("C19","Shared files give all processes one consistent byte store",
"Data written by any process at any offset of a shared file and waited for is what every process reads there after synchronisation; writes of different processes to disjoint ranges never disturb one another. Asynchronous requests complete exactly once whatever the order of waiting, and the file disappears on destruction.",
[S,G,H,F],"all interleavings of requests by all processes, all offsets and sizes, request orders, short and interrupted transfers",
"test.F is one program with one pattern and is not in the reliable test set.",
["pario/sf/shared.files.c","pario/elio/elio.c"],
[("asynchronous elio requests on one file per array","pario/sf/shared.files.c: sfi_create, sfwrite, sfread, sfi_waitall")],
["buffers and return codes on every process; bytes of the simulated file"])

p("C20","Calls from several threads of a process are safe",
"When several threads of each process issue one-sided operations, waits and local queries concurrently on shared arrays, the outcome is that of some interleaving of whole operations: no update is lost, no data is misplaced, handles are not mixed up, and every call returns.",
[S,G],"all interleavings of threads at memory-access granularity within and between processes",
"threadsafec.x runs a few threads and cannot force the narrow windows between them.",
["global/src/thread-safe.c","global/src/capi.c","global/src/fapi.c","global/src/onesided.c","global/src/nbutil.c"],
[("one lock around library entry points","global/src/thread-safe.c: GAI lock; calls in global/src")],
["array contents, returned tickets and local buffers"],
)
p("C21","Arrays of variable-size elements store and fetch each element intact",
"In a global pointer array every element put, assigned locally or scattered by any process is fetched by any process with its exact size and bytes, the reported sizes equal the stored sizes, and empty elements stay empty. Elements not addressed are unchanged.",
[S,I,G,C],"all element sizes including zero, patches, element lists, distributions, process counts, interleavings",
"No test of these arrays is in the reliable test set.",
["gparrays/src/gpbase.c","gparrays/src/gponesided.c","gparrays/src/gpcapi.c"],
[("pointer array plus remote block transfers","gparrays/src/gponesided.c: pgp_get, pgp_put, pgp_gather, pgp_scatter, pgp_get_size")],
["sizes and bytes returned by GP_Get/GP_Gather/GP_Access_element"])

p("C22","Message-passing layer delivers in order and hands out each ticket once",
"Messages sent between two processes with one type arrive unaltered, complete and in order, whatever other types and senders are in flight; collective sums and broadcasts of this layer are right. Every call of the shared counter between resets returns a different value, together forming an unbroken sequence.",
[S,G],"all interleavings and message delays; all types, lengths, senders, wildcard receives, counter users",
"No test exercises this layer under varied timing.",
["tcgmsg/tcgmsg-mpi/p2p.c","tcgmsg/tcgmsg-mpi/misc.c","tcgmsg/tcgmsg-mpi/nxtval.c","tcgmsg/tcgmsg-mpi/nxtval-armci.c","tcgmsg/tcgmsg-mpi/collect.c"],
[("MPI wrappers with type tags; counter in remote memory","tcgmsg/tcgmsg-mpi/*.c: tcgi_snd, tcgi_rcv, NXTVAL_, tcgi_gop")],
["received buffers, lengths, senders; counter values"])

p("C23","Every correct program makes progress and terminates cleanly",
"A program in which every process makes matching collective calls and completes what it starts always runs to the end: no set of delays, stalled processes, message orders or resource limits leads to deadlock, livelock, a crash or an error exit. Communication addressed to a process proceeds even while that process computes or waits in another library call, wherever the runtime promises asynchronous progress, and otherwise as soon as it enters the library.",
[S,G,C,F],"all schedules, stalls, message delays, buffer and request limits, runtimes and process counts",
TESTS+"a hang needs a particular cycle of waits that quiet timing does not produce.",
["comex/src-mpi/comex.c","comex/src-mpi-pr/comex.c","comex/src-mpi-mt/comex.c","comex/src-mpi-pt/comex.c","comex/src-mpi3/comex.c","global/src/base.c","global/src/onesided.c"],
[("progress engines and server threads or ranks","comex/src-mpi*/comex.c: comex_make_progress, _progress_server, _progress_thread"),("message queues with flow control","comex/src-mpi/comex.c: message queues; -pr: nb limits")],
["termination of every process within a step bound after faults stop"])

p("C24","Raw remote-memory transfers are exact for contiguous, strided and vector data",
"Contiguous, strided and scatter/gather-vector put, get and accumulate on collectively allocated memory, by any member to any other including itself, change or fetch exactly the described bytes for any stride, count, level and segment list, blocking or not, on world and group allocations. Neighbouring memory and other allocations are never touched, whatever transfer path is chosen.",
[S,I,G,C],"all descriptors, alignments, sizes across protocol thresholds, targets on the same or another node, runtimes, interleavings",
"comex/armci tests use one or two sizes per operation and one node.",
["comex/src-armci/armci.c","comex/src-common/acc.h","comex/src-mpi/comex.c","comex/src-mpi-pr/comex.c","comex/src-mpi-mt/comex.c","comex/src-mpi-pt/comex.c","comex/src-mpi3/comex.c"],
[("contiguous, packed, iov and datatype transfer paths and remote memory registration","comex/src-mpi*/comex.c, reg_cache.c, reg_win.c; comex/src-armci/armci.c")],
["all bytes of every allocation and buffer, with guard zones"])

p("C25","Declaring an array read-only or otherwise hinted never changes its contents",
"Setting an access property on an array (such as read-only, which replicates data) and removing it again leaves every element's value as it was, and while it is set permitted accesses return the same values as without it. Data written after the property is removed is what every process then reads.",
[S,G,C],"all arrays, layouts, groups, node configurations, property set/unset histories, interleavings",
"read_only.x tries one array on one node.",
["global/src/base.c","global/src/onesided.c"],
[("redistribution between normal and node-replicated layout","global/src/base.c: pnga_set_property, pnga_unset_property; onesided.c read-only get path")],
["array contents read by every process before, during and after"])

p("C26","The local memory allocator hands out disjoint, intact blocks",
"Blocks handed out by the local stack-and-heap allocator are disjoint, aligned and inside its region, keep their contents until freed, are reported consistently by its queries, and freeing makes the space available again.",
[G,I],"all sequences of push, pop, allocate, free and inquire calls",
"The two tests of this allocator run fixed sequences.",
["ma/ma.c"],[("boundary tags and free list","ma/ma.c")],["returned indices and verification results"])

p("C27","Dense solvers and eigensolvers return solutions of the given systems",
"The linear solvers and symmetric eigensolvers return, for nonsingular well-conditioned input, solutions whose residual is at rounding level, identically on every process.",
[I,C,S],"all sizes, right-hand sides, distributions, process counts",
"testsolve and testeig run one size each.",
["global/src/ga_solve_seq.c","global/src/ga_diag.F","global/src/ga_diag_seq.F","global/src/rsg.F"],[("gather to one process, sequential factorisation, scatter back","global/src/ga_solve_seq.c, global/src/ga_diag_seq.F")],["solution arrays"])
p("C28","Mirrored arrays keep one independent copy per node and merge by summing",
"A mirrored array exists once per cluster node, distributed over that node's processes: every operation of a process acts on the copy of its own node and on no other, collective operations act on every copy alike, the reported cluster topology is a partition of the processes, merging replaces every copy by the elementwise sum of all copies (or adds that sum into a distributed array, for a patch), and copying a distributed array to a mirrored one gives every node the same contents.",
[I,C,S],"all cluster shapes, distributions, element types, patches, schedules",
"Tests run on one node, where a mirrored array is an ordinary array; the node copies, their merge and the topology code never run.",
["global/src/base.c","global/src/onesided.c","global/src/global.nalg.c","comex/src-armci/armci.c"],[("reduce over the nodes' shared memory and copy back","global/src/base.c pnga_merge_mirrored"),("node-local owner search","global/src/onesided.c"),("host names form nodes","comex/src-armci/armci.c")],["mirrored arrays","topology queries"])
p("C29","Registered types and field transfers move exactly the bytes they name",
"Every registered element type keeps its own number and size until it is removed, arrays of it behave like arrays of built-in types in whole-element transfers, and a (blocking or nonblocking) field put or get moves exactly the named byte range of exactly the elements of its patch: processes that write different fields of the same elements at the same time do not disturb each other, and neither other fields nor other bytes of the caller's buffer change.",
[I,C,S],"all element sizes, field ranges, distributions, patches, leading dimensions, schedules",
"Only one Fortran test uses fields (halves of a complex number); registered types have no test at all.",
["global/src/onesided.c","global/src/base.c"],[("extra stride level over the bytes of an element","global/src/onesided.c ngai_puts/ngai_gets"),("type table","global/src/base.c ga_types")],["contents of arrays and buffers"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
