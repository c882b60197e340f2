"""Which workloads decide which property, and with how much search."""
CHECKS={
 'C01':dict(targets='ga_rw:8,ga_mix:1',quick=20,what='random put/get/strided programs over arrays of random type, shape and distribution; every get and the whole array contents are compared with a serial model'),
 'C02':dict(targets='ga_acc:8,ga_mix:1',quick=20,what='overlapping blocking, nonblocking, strided and scatter accumulates by all processes; racing reads must be the initial value plus a subset of the contributions, the final contents the exact sum'),
 'C03':dict(targets='ga_ctr:8,ga_mix:1',quick=20,what='read-and-increment storms on shared elements; the returned values must form an unbroken chain that is consistent with real-time order (linearizability of a counter)'),
 'C04':dict(targets='ga_order:8,ga_mix:1',quick=20,what='overlapping blocking operations of one process, fence plus message hand-off to another process, syncs followed by direct local access'),
 'C05':dict(targets='ga_nb:8,ga_mix:1',quick=20,what='many outstanding nonblocking operations, waits and tests in any order, buffers overwritten right after the wait'),
 'C06':dict(targets='mtx:1',quick=20,what='random lock/unlock programs over several mutexes by all processes on every port, with protected plain get-modify-put counters; mutual exclusion is checked at every acquisition, the counters at the end, and every run must terminate (no lost wake-up)'),
 'C07':dict(targets='coll:1',quick=20,what='sequences of broadcasts, reductions of every type and operation, barriers, synchronisations and point-to-point messages on the world and on groups with processes arriving at random times; results compared with a serial evaluation'),
 'C08':dict(targets='grp:1',quick=20,what='random groups (lists, subgroups of subgroups, splits, duplicates, self, default-group switching) used concurrently by disjoint and overlapping members for array creation, transfers, atomics, collectives and destruction; membership, translation and data compared with a model'),
 'C09':dict(targets='own:1',quick=20,what='arrays of every distribution kind on the world, groups and restricted lists; distribution, locate, locate-region, block and topology queries must describe one partition, and direct access must reach exactly the elements they name'),
 'C11':dict(targets='gho:3,ga_per:1',quick=20,what='arrays with ghost cells of random widths and distributions: full, nonblocking and directional updates, ghost-direction fetches, direct access and ordinary transfers mixed; every local cell, ghosts included, compared with a model; periodic transfers that wrap'),
 'C10':dict(targets='ga_gs:8,ga_mix:1',quick=20,what='gather, scatter and scatter-accumulate over random element lists, both interfaces'),
 'C12':dict(targets='nalg:1',quick=20,what='whole-array and patch arithmetic (fill, scale, add, element-wise, dot, norms, median, diagonal, step, select, copy, duplicate, transpose, symmetrize, reductions) over random arrays, patches, distributions and groups against a serial model'),
 'C13':dict(targets='mm:1',quick=20,what='matrix products (plain, transposed, patches, planes of higher-dimensional arrays, legacy interfaces) of all types, shapes, distributions, groups and block-cyclic layouts, some with simulated memory pressure, compared with a serial product'),
 'C14':dict(targets='scan:1',quick=20,what='segmented scans, packing, unpacking, enumeration, binning, sorting and mask operations over random arrays, distributions and groups against a serial model'),
 'C15':dict(targets='sprs:1',quick=20,what='sparse matrices of every type, index width, nonzero pattern (including empty blocks and empty matrices) and shape: assembly from elements added by random processes, block access, duplication, vector, diagonal, dense and sparse products, conversions, export and sketching against a dense serial model'),
 'C16':dict(targets='life:2,ovl:1',quick=20,what='random create/allocate/duplicate/destroy/memory-limit programs with injected segment-allocation failures; refused allocations must be reported to every process, accounting and live simulated resources (heap, windows, shared segments, communicators) must return to where they were, and termination must release everything; overlays (accepted exactly when they fit, never touching their parent behind their own size) and arrays assembled from memory of the caller'),
 'C17':dict(targets='dra:1',quick=20,what='disk-resident arrays: section writes and reads in random order and shape, transposed, reopened, flushed, several I/O processes and files; disk contents as seen by later reads compared with a model while the simulated file system delivers short and interrupted transfers and errors'),
 'C18':dict(targets='eaf:1',quick=20,what='exclusive-access files: synchronous and asynchronous reads and writes, seek, truncate, probe, memory files; every byte compared with a model while the simulated file system injects short and interrupted transfers and errors, which must be reported'),
 'C19':dict(targets='sf:1',quick=20,what='shared files written and read by all processes at random offsets with asynchronous requests, compared with a byte model under injected short transfers and errors'),
 'C22':dict(targets='tcg:1',quick=20,what='TCGMSG programs: messages of several types between random processes (blocking, asynchronous, wildcard, probed, self), global operations, broadcasts, synchronisations and the shared counter, alone or next to global arrays; message numbers, contents and lengths, results, and the chain of counter values between resets with its real-time order are checked'),
 'C24':dict(targets='arm:1',quick=20,what='raw one-sided runtime layer: contiguous, strided and vector put/get/accumulate, register values, read-modify-write, locks, fences, groups, messages and collectives against a byte model'),
 'C25':dict(targets='prop:1',quick=20,what='random sequences of setting, using and removing the read-only and read-cache properties on one or several simulated nodes, with reads by every interface, writes to other arrays and duplicates in between; every value read, local access and memory accounting compared with a plain array'),
 'C21':dict(targets='gp:1',quick=20,what='global pointer arrays of random shape and distribution: owners attach, free and replace elements of random size while all processes get, put, gather and scatter patches and lists; sizes, pointers and every byte compared with a model (mpi-ts and mpi-mt; mpi-pr, mpi-pt and mpi3 cannot reach elements of other processes, see known findings)'),
 'C20':dict(targets='thr:1',quick=20,fine=True,args=['--finepct=45'],what='two to four threads of every process issue transfers, accumulates, gathers, scatters, strided and nonblocking operations, waits, tests, counters and queries at the same time, switched at library calls and, in 45 % of the runs (image fine), at every memory access of the Global Arrays layer; each thread checks the cells it owns, constants and query results at once, tickets and sums are checked at the end'),
 'C23':dict(targets='prog:10,ga_mix:2,mtx:2,coll:1,grp:1,gho:1,scan:1,arm:2,nalg:1,mm:1,life:1',quick=20,what='one process computes without entering the library (runtimes with asynchronous progress) or waits in a lock, collective, receive or polling loop while the others complete every kind of one-sided operation on its memory, plus the mixed programs of the other checks with random buffer and request limits; a run must end with every process terminating normally: deadlocks, livelocks (step budget after all faults stop and everything in flight was delivered), crashes and error exits are violations',tech='seeded schedule and fault search with deadlock, livelock and crash detection'),
 'C26':dict(targets='mal:1',quick=20,what='random sequences of allocator calls in every process (heap and stack blocks of all types, partial frees, chops, alignments, inquiries, invalid requests, damaged guards, failing system allocations, arenas from nothing to large) interleaved with collective and one-sided library operations that use the same arena; disjointness, alignment, contents, indices and the exact agreement of inquiries with what can be allocated are checked after every step'),
 'C27':dict(targets='la:1',quick=20,what='linear systems (plain, transposed, several right-hand sides) and standard and generalised symmetric eigenproblems on arrays of every distribution, on the world or concurrent groups: residuals, orthonormality, order, agreement between the processes and unchanged operands'),
 'C28':dict(targets='mir:1',quick=20,what='mirrored arrays of every distribution and type on simulated clusters of several nodes: one-sided and collective operations of each process act on its own copy, merges (whole, and patches into distributed arrays), copies in both directions and products are compared with a model that keeps one array per node; the topology queries must describe one partition of the processes'),
 'C29':dict(targets='fld:1',quick=20,what='arrays of registered element types (1 to 48 bytes) and built-in types of every distribution, on the world or groups: concurrent blocking and nonblocking writes of different fields of the same elements, padded caller buffers, reads of fields during writes of others, whole-element transfers, duplicates, gather and scatter, compared byte by byte with a serial model; histories of the type table up to its capacity'),
}
NA={
}
