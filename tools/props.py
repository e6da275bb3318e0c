"""The properties, how each is decided, and what the checks run (see gen.py)."""

REAL = ['all of include/htool, compiled from the current tree with every memory access, atomic and synchronisation call visible to the simulator', 'the BLAS and LAPACK installed here (their arguments are checked and their accesses are part of the race detection)', 'libstdc++']
STUBS = ['OpenMP runtime (sim/omp.cpp): teams, guided and other loop schedules, critical sections, barriers, single and tasks, decided by the seed', 'MPI (sim/mpi.cpp): ranks are fibers of one process, messages have seeded delays and eager or rendezvous buffering', 'allocator (sim/alloc.cpp), file system (sim/disk.cpp) and clocks (sim/clock.cpp)']
ASSUMPTIONS = ['sequentially consistent memory: orders that only weak memory allows are not executed, but the data race that would allow them is reported', 'floating-point results are compared with an independent dense evaluation, componentwise, up to a multiple of the rounding error bound', 'the search is a seeded sample: what it did not reach is not covered']
NOTES = 'All checks: python3 check.py ID --tier quick|thorough [--seed N]; replay.sh FILE replays a violation. DESIGN.md describes the simulator and lists the defects found and fixed.'
TECH = 'deterministic simulation with fault injection: seeded search over '


def part(prog, driver, quick, thorough, **k):
    return dict(prog=prog, driver=driver, quick=quick, thorough=thorough, **k)


HM = 'include/htool/hmatrix/'
PROPS = [
    dict(
        id='A01', title='Threaded assembly builds exactly the operator one thread would build',
        statement='For every geometry, admissibility, compression and symmetry setting, and for every number of threads and interleaving, assembling a hierarchical operator ends, without data race or access outside of its data, with blocks that cover every coefficient exactly once. Each block is what its own sequential computation gives: dense blocks hold the kernel entries, compressed blocks are admissible and hold the approximation the compressor produces for that block, to the requested accuracy or rank. The reported settings, block counts, sizes, ranks, false positives and compression figures describe that operator whatever the schedule.',
        over=['schedules', 'inputs', 'configurations'], quant='all interleavings of the assembling threads (1 to 8, possibly fewer than requested), 9 point distributions, 8 kernels, real and complex in single and double precision, N/S/H symmetry, 5 compressors, user or default admissibility, dense-block generators, whole operators and row blocks',
        why='The tests assemble a few fixed problems on whatever schedule the machine gives; a wrong merge order, a lost block or an unsynchronised counter needs a particular interleaving.',
        files=[HM + 'tree_builder/tree_builder.hpp', HM + 'hmatrix.hpp', HM + 'hmatrix_output.hpp', HM + 'lrmat/lrmat.hpp', HM + 'lrmat/sympartialACA.hpp', HM + 'lrmat/partialACA.hpp', HM + 'lrmat/fullACA.hpp', HM + 'lrmat/SVD.hpp', 'include/htool/clustering/tree_builder/recursive_build.hpp'],
        mechanism=[('per-thread lists of computed blocks merged in a critical section', 'HMatrixTreeBuilder compute_blocks'), ('block tree by admissibility', 'HMatrixTreeBuilder build_block_tree')],
        state=[('admissible and dense task lists', 'blocks still to be computed, shared by the team', 'HMatrixTreeBuilder members'), ('false positive counter', 'admissible blocks whose compression failed', 'HMatrixTreeBuilder')],
        observe=['the leaves of the operator', 'the information map', 'accesses to the user callbacks'],
        parts=[part('assembly', 'assembly', 12000, 400000)],
        rule='a case is a random problem, builder configuration, team size and schedule strategy; non-trivial: more than one thread, more than two blocks, and a schedule and fault trace not seen before in the run',
        technique=TECH + 'thread interleavings of the real assembly code with race and bounds detection, against independent block-by-block recomputation',
        note='Sampled interleavings of the real code, every access race-checked; sizes up to 150 (quick) or 260 (thorough) points.'),
    dict(
        id='A02', title='Threaded vector products equal the dense product under every schedule',
        statement='For every assembled operator or block of it, transposition, scalars and vectors, and every interleaving and number of threads, the parallel product adds exactly the operator applied to the input, up to rounding, and scales what was in the output. It changes neither the operator nor the input, has no data race and touches no memory outside of its arguments. Combinations of transposition and symmetric storage that are not supported are reported instead of giving a silent wrong result.',
        over=['schedules', 'inputs', 'configurations'], quant='all interleavings of 1 to 8 threads, all operators of A01, trans N/T/C, alpha and beta including 0 and 1, whole operators and inner blocks',
        why='The tests compare one product per configuration under one schedule with a loose tolerance tied to the approximation error; a lost contribution or race shows up only under some schedules.',
        files=[HM + 'linalg/add_hmatrix_vector_product.hpp', HM + 'lrmat/linalg/add_lrmat_vector_product.hpp', 'include/htool/matrix/linalg/add_matrix_vector_product.hpp', HM + 'hmatrix.hpp'],
        mechanism=[('private partial sums added in a critical section', 'openmp_internal_add_hmatrix_vector_product'), ('mirrored contribution of symmetric blocks', 'get_leaves_from')],
        observe=['output vector', 'logger', 'operator blocks'],
        parts=[part('products', 'vector', 12000, 400000)],
        rule='a case is a random operator, a team, a schedule and up to 6 products; non-trivial: a parallel product of an operator with more than two blocks by more than one thread, with a new schedule trace',
        technique=TECH + 'thread interleavings of real products with race and bounds detection, against a dense reference read from the blocks',
        note='Sampled interleavings; the reference is the dense matrix the blocks describe, so the comparison is to rounding and independent of the compression error.'),
    dict(
        id='A03', title='Threaded multi-vector products equal the dense product under every schedule',
        statement='For every assembled operator or block of it, transposition, scalars and any number of right-hand sides, the parallel and sequential products with several vectors stored row by row, and those with a matrix, add exactly the operator applied to every vector, up to rounding. This holds for every interleaving and number of threads, without data race or access outside of the arguments, and leaves operator and inputs unchanged. Unsupported combinations of transposition and symmetric storage are reported.',
        over=['schedules', 'inputs', 'configurations'], quant='all interleavings of 1 to 8 threads, 1 to 20 right-hand sides, all operators of A01, trans N/T/C on both factors, alpha and beta including 0 and 1',
        why='As for single vectors, with strides and blocked kernels that the tests sample at a few sizes and with one schedule.',
        files=[HM + 'linalg/add_hmatrix_matrix_product_row_major.hpp', HM + 'linalg/add_hmatrix_matrix_product.hpp', HM + 'lrmat/linalg/add_lrmat_matrix_product_row_major.hpp', 'include/htool/matrix/linalg/add_matrix_matrix_product_row_major.hpp'],
        mechanism=[('private partial sums added in a critical section', 'openmp_internal_add_hmatrix_matrix_product_row_major'), ('transposition around the row-major kernel', 'internal_add_hmatrix_matrix_product')],
        observe=['output block', 'logger'],
        parts=[part('products', 'multi', 10000, 350000)],
        rule='a case is a random operator, a team, a schedule and up to 5 products; non-trivial as for A02',
        technique=TECH + 'thread interleavings of real products with race and bounds detection, against a dense reference read from the blocks',
        note='Sampled interleavings; comparison to rounding.'),
    dict(
        id='A04', title='Parallel scaling multiplies every coefficient of the operator exactly once',
        statement='Scaling an operator, or one block of it, by a number multiplies each of its coefficients exactly once and leaves every block outside of it untouched, for every schedule and number of threads, and products made before and after it agree with the coefficients they met. It has no data race and touches no other memory.',
        over=['schedules', 'inputs', 'histories'], quant='histories of up to 6 scalings and products on operators of A01 and their blocks, factors including 0, 1 and complex ones, all interleavings of 1 to 8 threads',
        why='The tests scale one operator once; repeated scaling of nested blocks under other schedules is not reached.',
        files=[HM + 'linalg/scale.hpp', HM + 'lrmat/linalg/scale.hpp', 'include/htool/matrix/linalg/scale.hpp'],
        mechanism=[('work-shared loop over the leaves', 'openmp_scale')],
        observe=['the leaves of the operator', 'products'],
        parts=[part('products', 'scale', 10000, 300000)],
        rule='a case is a random operator, a team, a schedule and 2 to 6 scalings and products; non-trivial: a parallel operation on more than two blocks by more than one thread, with a new schedule trace',
        technique=TECH + 'thread interleavings of histories of scalings and products, against block-wise recomputation',
        note='Sampled interleavings and histories.'),
    dict(
        id='A06', title='Reused and concurrent builders do not influence each other',
        statement='A builder used again, with the same or with changed settings, produces the operator and the statistics that a new one with these settings would produce, and earlier operators keep their content. Callers that cluster, build and assemble different problems at the same time, each with its own team of threads, get exactly what they would get alone, without data race. Every assembled operator is complete and correct in the sense of the assembly property.',
        over=['schedules', 'histories'], quant='1 to 3 concurrent callers, 1 to 3 builds each with one builder whose compressor, admissibility, depths, consistency and dense generator may change in between, teams of 1 to 3 threads, all interleavings, clusterings made inside the concurrent callers or before',
        why='No test builds twice with one builder or from two threads; leftover state and hidden shared state need exactly these histories.',
        files=[HM + 'tree_builder/tree_builder.hpp', 'include/htool/clustering/tree_builder/tree_builder.hpp', 'include/htool/clustering/tree_builder/recursive_build.hpp', 'include/htool/misc/logger.hpp'],
        mechanism=[('state of a build kept in the builder and reset by the next', 'HMatrixTreeBuilder build'), ('no global state besides the logger', 'whole library')],
        state=[('task lists and counters of the builder', 'must not survive a build', 'HMatrixTreeBuilder members')],
        observe=['the leaves of every operator', 'information maps'],
        parts=[part('assembly', 'reuse', 6000, 200000)],
        rule='a case is 1 to 3 callers with 1 to 3 builds each; non-trivial: several builds or callers, with a new schedule trace',
        technique=TECH + 'caller and team interleavings of repeated and concurrent builds, against block-by-block recomputation',
        note='Sampled interleavings and histories.'),
    dict(
        id='M01', title='Distributed global products are the same, correct result on every process',
        statement='On any number of processes and for every partition, operator composition and symmetry, a product of a distributed operator, or of its transpose, with one or several global vectors returns on every process the whole operator applied to the input, up to rounding, in the numbering of the user or of the partition as requested. The operator is within the requested accuracy of the matrix it stands for. This holds for every message delay and process speed, ends, and leaves the input unchanged.',
        over=['schedules', 'inputs', 'configurations', 'fault_sequences'], quant='1 to 7 simulated processes, single and double precision, even, random and given partitions, operators built by the default builders, from hierarchical, dense, user-written and several added local operators, N/S/H symmetry, random message delays, stalls and clock skew, threads within processes',
        why='The tests run a handful of process counts and fixed problems on the timing of one machine, mostly with one local operator per process.',
        files=['include/htool/distributed_operator/distributed_operator.hpp', 'include/htool/distributed_operator/utility.hpp', 'include/htool/distributed_operator/implementations/partition_from_cluster.hpp', 'include/htool/local_operators/local_operator.hpp', 'include/htool/local_operators/local_hmatrix.hpp', 'include/htool/local_operators/local_dense_matrix.hpp', 'include/htool/wrappers/wrapper_mpi.hpp'],
        mechanism=[('local rows computed and gathered, transposed contributions reduced', 'DistributedOperator *_product_global_to_global'), ('renumbering by the partition', 'PartitionFromCluster')],
        observe=['output of every process', 'arguments of every collective'],
        parts=[part('dist', 'global', 10000, 300000)],
        rule='a case is a world of 1 to 7 ranks (maybe in two communicators), an operator composition, delays and up to 5 products; non-trivial: more than one rank per communicator, with a new schedule and delay trace',
        technique=TECH + 'rank interleavings and message delays of the real distributed code on a simulated MPI, against the global dense product',
        note='Sampled schedules and delays; MPI itself is a model that checks that collectives match.'),
    dict(
        id='M02', title='Distributed local-to-local products equal the global product on each part',
        statement='On any number of processes, products of a distributed operator or of its transpose that take and return only the local parts of one or several vectors give each process its part of the global product, up to rounding, in the numbering of the user or of the partition as requested, with or without work space supplied by the caller. The results do not depend on message delays, process speeds or what the output held before, and the inputs are unchanged.',
        over=['schedules', 'inputs', 'configurations', 'fault_sequences'], quant='as for the global products',
        why='Few process counts, one partition and one timing are tested; offsets and buffer strides of uneven parts with several vectors are barely touched.',
        files=['include/htool/distributed_operator/distributed_operator.hpp', 'include/htool/distributed_operator/utility.hpp', 'include/htool/distributed_operator/implementations/partition_from_cluster.hpp', 'include/htool/local_operators/local_operator.hpp'],
        mechanism=[('gathering of the local parts', 'local_to_global'), ('exchange of transposed contributions', 'DistributedOperator *_transp_local_to_local')],
        observe=['output of every process'],
        parts=[part('dist', 'local', 10000, 300000)],
        rule='as for M01 with local-to-local products; non-trivial: more than one rank per communicator, with a new schedule and delay trace',
        technique=TECH + 'rank interleavings and message delays of the real distributed code on a simulated MPI, against the global dense product',
        note='Sampled schedules and delays.'),
    dict(
        id='M03', title='Products and redistribution in the numbering of the partition are correct',
        statement='The products that work in the numbering of the partition (global to local, transposed local to global, local to local, and with only a range of the columns) and the gathering of local parts give on every process the corresponding part of the global result, for one or several vectors stored row by row. This holds for every composition of local operators added to the distributed one, including several that add up, cover different columns, number their points in their own way or are symmetric or Hermitian on their own, for each local operator used alone with any coefficients, and for every delay and process speed.',
        over=['schedules', 'inputs', 'configurations', 'fault_sequences'], quant='as for the global products; column ranges of one part or arbitrary ones',
        why='These entry points are used by the solvers only; the tests call few of them, on one composition.',
        files=['include/htool/distributed_operator/distributed_operator.hpp', 'include/htool/local_operators/local_operator.hpp', 'include/htool/local_operators/local_hmatrix.hpp', 'include/htool/local_operators/local_dense_matrix.hpp', 'include/htool/distributed_operator/utility.hpp'],
        mechanism=[('sum over the local operators', 'DistributedOperator internal_*'), ('restriction to a column range', 'LocalOperator sub_matrix_product_to_local')],
        observe=['output of every process'],
        parts=[part('dist', 'internal', 10000, 300000)],
        rule='as for M01 with up to 7 internal operations; non-trivial: more than one rank per communicator, with a new schedule and delay trace',
        technique=TECH + 'rank interleavings and message delays of the real distributed code on a simulated MPI, against the global dense product',
        note='Sampled schedules and delays.'),
    dict(
        id='M04', title='Mixed histories of distributed operations always match and terminate',
        statement='Any sequence of distributed operations issued in the same order by all processes of a communicator ends on all of them, whatever the delays and relative speeds, and also while another communicator of the same program runs other sequences. Every collective call has the same operation, root, counts and types on all its processes, stays inside the buffers it is given, never uses another communicator, and leaves no message behind. Every operation of the sequence returns its correct result.',
        over=['schedules', 'histories', 'fault_sequences'], quant='histories of 4 to 13 operations of all kinds, one or two communicators with reordered ranks, delays up to 16 ms of simulated time, stalls, skewed clocks, 1 to 12 simulated processes',
        why='The tests issue one operation per program run on one communicator; mismatches, overruns and hangs depend on the mix and on timing.',
        files=['include/htool/distributed_operator/distributed_operator.hpp', 'include/htool/distributed_operator/utility.hpp', 'include/htool/hmatrix/hmatrix_distributed_output.hpp', 'include/htool/wrappers/wrapper_mpi.hpp'],
        mechanism=[('the communicator of the operator', 'DistributedOperator get_comm'), ('sizes and displacements from the partition', 'local_to_global, products')],
        observe=['every MPI call', 'outputs', 'progress within a bounded number of steps'],
        parts=[part('dist', 'mixed', 6000, 200000)],
        rule='a case is a world of 1 or 2 communicators and a history of operations; non-trivial: more than one rank per communicator, with a new schedule and delay trace',
        technique=TECH + 'rank interleavings, message delays and operation histories on a simulated MPI that checks matching, buffers and progress',
        note='Sampled histories; progress means within the step bound of a run.'),
    dict(
        id='M05', title='Reports on distributed operators aggregate all processes correctly',
        statement='The report on a distributed hierarchical operator gives, on the first process, the numbers, sizes, ranks (smallest, mean, largest), compression and timings over the blocks of all processes of the communicator, for any distribution of the blocks, including processes without dense or without compressed blocks. Only the first process prints it, and asking for it changes nothing and ends on every process.',
        over=['schedules', 'inputs', 'configurations'], quant='1 to 7 processes, uneven partitions, symmetric and non-symmetric operators, delays and clock skew',
        why='The tests only print the report; nothing compares it with the blocks, least of all with uneven processes.',
        files=['include/htool/hmatrix/hmatrix_distributed_output.hpp', 'include/htool/hmatrix/hmatrix_output.hpp'],
        mechanism=[('reductions to the first process', 'get_distributed_hmatrix_information')],
        observe=['the returned map', 'the printed text'],
        parts=[part('dist', 'info', 8000, 200000)],
        rule='as for M01 with reports and products; non-trivial: more than one rank per communicator, with a new schedule and delay trace',
        technique=TECH + 'rank interleavings and message delays of the real reporting code on a simulated MPI, against a count of all blocks',
        note='Sampled problems and schedules.'),
    dict(
        id='S01', title='Binary files of vectors and matrices are never silently lost or misread',
        statement='Saving a vector or a matrix returns zero only if the file then holds its sizes and all its coefficients, and loading returns zero only if the object then is, bit for bit, what a complete file holds. A file that cannot be opened, a failing or full disk, a crash in the middle of a save, a missing or shortened file and a failing allocation are all reported by the returned value or an exception. Whatever happens the object saved is unchanged, the object loaded into stays valid and usable, memory that belongs to the user is not changed or freed, nothing leaks, and callers that use different files do not disturb each other.',
        over=['crash_points', 'fault_sequences', 'histories', 'inputs'], quant='histories of saves, loads, shortenings and views over three coefficient types, sizes from 0 to 2500 coefficients, with open, write, read and close errors, full disks, crashes and failed allocations at any call, 1 to 3 concurrent callers',
        why='The tests save and load one matrix on a healthy disk; errors at each call and files cut at each byte are never produced.',
        files=['include/htool/basic_types/vector.hpp', 'include/htool/matrix/matrix.hpp'],
        mechanism=[('status of the stream after the last transfer', 'vector_to_bytes, matrix_to_bytes'), ('sizes read before the data', 'bytes_to_vector, bytes_to_matrix')],
        state=[('ownership flag of a matrix', 'decides who frees the coefficients', 'Matrix::m_is_owning_data')],
        observe=['returned values', 'content of the simulated disk', 'the objects', 'live allocations'],
        parts=[part('storage', 'vecmat', 20000, 600000)],
        rule='a case is a history of 3 to 25 operations of 1 to 3 callers with at most one hard fault per operation; non-trivial: more than one operation, with a schedule and fault trace not seen before in the run',
        technique=TECH + 'histories of saves and loads with disk errors, full disks, crashes, truncations and failed allocations, against the exact file image',
        note='Sampled histories; the disk is a model with errors, short and interrupted transfers, capacity and crashes that keep a prefix of what was written.'),
    dict(
        id='A05', title='Concurrent callers can read one shared operator and factorisation',
        statement='Several callers, each with its own team of threads, can use one assembled operator and one factorised operator at the same time without synchronisation: multiply by them, solve with them, copy them, search their blocks, convert them to dense, list their leaves, and print their figures. Every caller gets exactly what it would get alone, up to rounding in products, and no data race occurs. The shared objects, the inputs and everything outside of the output arguments are unchanged afterwards.',
        over=['schedules', 'inputs', 'histories'], quant='1 to 4 concurrent callers with teams of 1 to 4 threads, histories of 2 to 16 read-only operations of 15 kinds, all operators of A01, LU and Cholesky factorisations, all interleavings',
        why='The tests use an operator from one caller only; a cache, a mutable member or a static buffer in a read-only operation would pass them all.',
        files=[HM + 'hmatrix.hpp', HM + 'hmatrix_output.hpp', HM + 'linalg/add_hmatrix_vector_product.hpp', HM + 'linalg/add_hmatrix_matrix_product.hpp', HM + 'linalg/add_hmatrix_matrix_product_row_major.hpp', HM + 'linalg/factorization.hpp', HM + 'linalg/triangular_hmatrix_matrix_solve.hpp', HM + 'linalg/triangular_hmatrix_lrmat_solve.hpp', 'include/htool/clustering/cluster_node.hpp'],
        mechanism=[('read-only operations keep no state', 'products, solves and queries of HMatrix'), ('copies share the clusters by reference counting', 'HMatrix copy constructor')],
        observe=['outputs of every caller', 'the leaves of the shared objects', 'the inputs', 'logger'],
        parts=[part('readers', 'shared', 8000, 250000)],
        rule='a case is one operator, possibly a factorised one, 1 to 4 callers with teams and 2 to 16 operations; non-trivial: at least two callers with work, with a new schedule trace',
        technique=TECH + 'interleavings of concurrent callers and their teams on shared real objects with race and bounds detection, against what one caller alone gets and a dense reference',
        note='Sampled interleavings and histories.'),
    dict(
        id='S02', title='Cluster trees survive a save and are never silently lost or misread',
        statement='A cluster tree that was saved without a report of failure is loaded back bit for bit: permutation, boxes, sizes, ranks, depths, partition and everything else a caller can ask for. A file that cannot be opened, a failing or full disk, a crash in the middle of a save, a missing or shortened file and a failing allocation are reported by an error or an exception, on saving as on loading. The saved tree is unchanged, nothing leaks, and callers that use different files do not disturb each other.',
        over=['crash_points', 'fault_sequences', 'histories', 'inputs'], quant='histories of saves, loads and shortenings of global and local trees over 9 point distributions and all clustering settings, with open, write, read and close errors, full disks, crashes and failed allocations at any call, 1 to 3 concurrent callers',
        why='The tests save and load one tree on a healthy disk and compare a few of its members.',
        files=['include/htool/clustering/cluster_output.hpp', 'include/htool/misc/user.hpp', 'include/htool/clustering/cluster_node.hpp'],
        mechanism=[('text properties and tree written in two files', 'save_cluster_tree'), ('tree rebuilt level by level', 'read_cluster_tree')],
        state=[('tree data shared by all nodes', 'permutation, partition and limits', 'ClusterTreeData')],
        observe=['content of the simulated disk', 'the loaded tree', 'logger', 'exceptions', 'live allocations'],
        parts=[part('files', 'cluster', 8000, 250000)],
        rule='a case is a history of 3 to 20 operations of 1 to 3 callers with at most one hard fault per operation; non-trivial: more than one operation, with a schedule and fault trace not seen before in the run',
        technique=TECH + 'histories of saves and loads of trees with disk errors, full disks, crashes, truncations and failed allocations, against the fault-free image and a field-by-field comparison',
        note='Sampled histories; the disk is a model with errors, short and interrupted transfers, capacity and crashes that keep a prefix of what was written.'),
    dict(
        id='S03', title='Text exports describe exactly the object they were given',
        statement='Text exports of vectors, points, matrices, clustered geometries, block structures with ranks and levels write, to the file or stream they were given and nowhere else, text that describes exactly the object exported. Those that return a status return zero only if the file holds the whole text, whatever errors the disk meets. The object exported is unchanged, and concurrent callers that export one shared operator to different files do not disturb each other.',
        over=['crash_points', 'fault_sequences', 'histories', 'inputs', 'schedules'], quant='histories of exports of eight kinds for objects over two coefficient types and all operators of A01, with open, write and close errors and full disks at any call, 1 to 3 concurrent callers',
        why='No test reads an export back; a figure in the wrong column, a truncated file and output on the wrong stream all pass.',
        files=['include/htool/basic_types/vector.hpp', 'include/htool/matrix/matrix.hpp', HM + 'hmatrix_output.hpp', 'include/htool/clustering/cluster_output.hpp'],
        mechanism=[('formatted output to a stream', 'csv_save, print, matlab_save, save_clustered_geometry, save_leaves_with_rank, save_levels')],
        observe=['content of the simulated disk', 'returned values', 'standard output', 'the object'],
        parts=[part('files', 'export', 10000, 300000)],
        rule='a case is a history of exports of 1 to 3 callers with at most one hard fault per operation; non-trivial: more than one operation, with a schedule and fault trace not seen before in the run',
        technique=TECH + 'histories of exports with disk faults and concurrent callers, parsed back and compared with the object',
        note='Sampled histories.'),
    dict(
        id='S04', title='Mesh files are loaded completely or the failure is reported',
        statement='Loading the nodes of a mesh returns zero only if the points then are exactly the nodes of a complete file, in their order, whatever the vector held before and whatever other sections the file has. It always ends: a missing, empty or anywhere shortened file, an error of the disk and a failing allocation are reported by the returned value or an exception. Short and interrupted transfers change nothing, the file is not changed, nothing leaks, and callers that load different files do not disturb each other.',
        over=['fault_sequences', 'histories', 'inputs', 'schedules'], quant='histories of loads and shortenings of mesh files with 0 to 530 nodes and other sections, with open and read errors, short and interrupted transfers and failed allocations at any call, 1 to 3 concurrent callers',
        why='The only test of the loader reads one intact file, and it is not among those that are built.',
        files=['include/htool/testing/gmsh.hpp', 'include/htool/testing/point.hpp'],
        mechanism=[('lines of a text file parsed into points', 'Load_GMSH_nodes')],
        observe=['the points', 'returned value', 'exceptions', 'number of steps', 'content of the simulated disk', 'live allocations'],
        parts=[part('files', 'mesh', 8000, 250000)],
        rule='a case is a history of 2 to 18 operations of 1 to 3 callers with at most one hard fault per load; non-trivial: more than one load, with a schedule and fault trace not seen before in the run',
        technique=TECH + 'histories of loads of mesh files with disk errors, shortenings and failed allocations, against the nodes the file was written from',
        note='Sampled histories; a file that is cut behind its last node may be accepted or refused. Known findings cover cut files and hard faults.'),
    dict(
        id='L01', title='Messages logged by concurrent threads arrive whole, once, at their level',
        statement='Every message that a caller, a task of a parallel region or the library itself logs reaches the current writer exactly once, with its own text and level, for every number of threads and interleaving. The standard writer puts each message that is at least as severe as the chosen level on the standard output as one whole line, with the mark of its level, and nothing else; errors and worse are shown until another level is chosen, and a level chosen later holds for what is logged later. The messages of one caller keep their order, there is no data race and nothing leaks, and an allocation that fails while logging is reported to that caller and leaves no part of a line.',
        over=['fault_sequences', 'histories', 'inputs', 'schedules'], quant='histories of 1 to 24 logging operations (direct messages of 0 to 3000 characters, refused products, copies, assemblies of kernels with vanishing rows) by 1 to 4 concurrent callers with teams of 1 to 3 threads, every level, standard and user writers, failed allocations at any call',
        why='No test logs from more than one thread or looks at what is written.',
        files=['include/htool/misc/logger.hpp', 'include/htool/hmatrix/lrmat/partialACA.hpp', 'include/htool/hmatrix/lrmat/sympartialACA.hpp', 'include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp'],
        mechanism=[('one shared logger, called from parallel regions', 'Logger::log'), ('insertion into the shared standard output', 'StandartOutputWriter::write')],
        observe=['every insertion into the standard output', 'calls of the writer of the user', 'exceptions', 'data races', 'live allocations'],
        parts=[part('logs', 'messages', 12000, 400000)],
        rule='a case is a history of 1 to 24 operations in one or two phases with a level each; non-trivial: at least two callers log in one phase and more than one line is written',
        technique=TECH + 'concurrent logging histories with preemption between any two insertions into the standard output and failed allocations, against the messages one caller alone logs',
        note='The standard output is a recorded stream buffer: each insertion arrives whole, as with the stdio-backed stream. The level and the writer are only changed while nobody logs.'),
    dict(
        id='A07', title='Products and sums of operators equal those of the matrices they represent',
        statement='For every combination of hierarchical, low-rank and dense factors and output, every supported transposition and all scalars, the product or sum adds to the output exactly what the dense matrices the arguments represent would give: up to rounding where no truncation takes place, and up to the accumulated compression tolerance elsewhere. Callers that share the factors and have outputs of their own do not influence each other, and nothing but the output changes. If an allocation fails, the failure is reported by an exception and the factors are still intact and usable.',
        over=['inputs', 'histories', 'schedules', 'fault_sequences'], quant='histories of up to 8 operations of 24 kinds on operators of A01 with several partitions, ranks from 0, real and complex coefficients in single and double precision, alpha and beta including 0 and 1, 1 to 3 concurrent callers, failed allocations at any point',
        why='The tests run each product on one square geometry with beta and alpha of one value and one thread; empty low-rank factors, deeper partitions, mixed block types and failures between two blocks are not reached.',
        files=[HM + 'linalg/add_hmatrix_hmatrix_product.hpp', HM + 'linalg/add_hmatrix_lrmat_product.hpp', HM + 'linalg/add_lrmat_hmatrix_product.hpp', HM + 'linalg/add_lrmat_hmatrix.hpp', HM + 'linalg/add_matrix_hmatrix_product.hpp', HM + 'linalg/add_hmatrix_matrix_product.hpp', HM + 'lrmat/linalg/add_lrmat_lrmat_product.hpp', HM + 'lrmat/linalg/add_lrmat_matrix_product.hpp', HM + 'lrmat/linalg/add_matrix_lrmat_product.hpp', HM + 'lrmat/linalg/add_lrmat_lrmat.hpp', HM + 'lrmat/utils/recompression.hpp'],
        mechanism=[('recursion over blocks of the three trees', 'internal_add_hmatrix_hmatrix_product'), ('concatenation of factors and recompression', 'low-rank outputs of the product functions')],
        observe=['the output as a dense matrix', 'factors', 'exceptions', 'logger'],
        parts=[part('algebra', 'products', 6000, 200000)],
        rule='a case is a random operator and builder configuration and a history of 1 to 8 products of 1 to 3 callers; non-trivial: at least one product evaluated on an operator with several blocks, with a schedule and fault trace not seen before in the run',
        technique=TECH + 'histories of products by concurrent callers and failing allocations on the real arithmetic, with race and bounds detection, against dense arithmetic on what the arguments represent',
        note='Sampled histories; where the code truncates, the bound is the sum of the tolerances of the truncations, so an error below it is not seen.'),
    dict(
        id='A08', title='Factorisations and solves invert the matrix the operator represents',
        statement='LU and Cholesky factorisations of an operator or of one of its diagonal blocks, and of dense matrices, solves with them for any number of right-hand sides and transposition, and triangular solves from both sides with dense, low-rank and hierarchical right-hand sides give results whose residual with the matrix that was represented is at the level of rounding and of the compression tolerance. Factorising one copy or one block leaves everything else as it was, factorised operators can be shared by concurrent callers, and the right-hand sides are the only memory a solve changes. If an allocation fails, the failure is reported, all other objects stay valid, and nothing leaks.',
        over=['inputs', 'histories', 'schedules', 'fault_sequences'], quant='histories of up to 4 factorisations and solves of 7 kinds on operators, their diagonal blocks and dense matrices (some of them factorised with other coefficients before) of A01 made well conditioned, general, symmetric and Hermitian, single and double precision, both triangles, all sides, transpositions and unit or general diagonals, with pivoting inside of blocks, 1 to 3 concurrent callers, failed allocations at any point',
        why='The tests factorise and solve for one geometry with one partition per run; updates between several off-diagonal blocks, empty low-rank blocks and failing allocations are not reached.',
        files=[HM + 'linalg/factorization.hpp', HM + 'linalg/triangular_hmatrix_hmatrix_solve.hpp', HM + 'linalg/triangular_hmatrix_lrmat_solve.hpp', HM + 'linalg/triangular_hmatrix_matrix_solve.hpp', HM + 'linalg/add_hmatrix_hmatrix_product.hpp', 'include/htool/matrix/linalg/factorization.hpp'],
        mechanism=[('block elimination with Schur updates', 'lu_factorization, cholesky_factorization'), ('row interchanges inside of dense diagonal blocks', 'Matrix pivots')],
        state=[('pivots', 'interchanges of each dense diagonal block', 'Matrix::m_pivots')],
        observe=['solutions', 'the factorised blocks', 'all other objects', 'exceptions', 'live allocations'],
        parts=[part('algebra', 'solves', 6000, 200000)],
        rule='a case is a random well-conditioned operator and a history of 1 to 4 factorisations and solves of 1 to 3 callers; non-trivial: as for A07',
        technique=TECH + 'histories of factorisations and solves by concurrent callers and failing allocations on the real arithmetic, with race and bounds detection, against dense residuals',
        note='Sampled histories of well-conditioned operators; the bound contains the compression tolerances.'),
    dict(
        id='A09', title='Compression and recompression keep the tolerance with the ranks it needs',
        statement='Compressing the block of a kernel on a pair of clusters keeps the promise of its method in every unit of the kernel: the truncated SVD and the fully pivoted cross approximation stay within the relative tolerance with the smallest rank (or number of crosses) that does, partially pivoted ones reproduce the rows and columns of their crosses and stop exactly at their criterion, a required rank is honoured, and a block is refused only when the factors would take more memory than it. Sums and products of low-rank matrices and recompression keep the relative tolerance of the matrix they write, with ranks that are not larger than needed, and change nothing else. Reported errors, sizes and ratios are those of the factors. Concurrent callers may share generators, compressors and inputs; a failing callback or allocation is reported and leaks nothing.',
        over=['inputs', 'histories', 'schedules', 'fault_sequences'], quant='histories of up to 8 operations of 11 kinds by 1 to 3 concurrent callers, 4 compressors, all pairs of clusters of the trees of A01 (one point up to everything), 8 kernels in units from 1e-18 to 1e12, tolerances from 1e-1 to 1e-10, required ranks, blocks of up to 1.3e5 lines with more coefficients than 2^31 or 2^32, graded and linearly dependent factors, failing callbacks and allocations at any point',
        why='The tests compress a few well separated clusters with entries of order one and look at the error only; units, degenerate blocks, the ranks, and what a history of sums does to the tolerance are not reached.',
        files=[HM + 'lrmat/lrmat.hpp', HM + 'lrmat/SVD.hpp', HM + 'lrmat/fullACA.hpp', HM + 'lrmat/partialACA.hpp', HM + 'lrmat/sympartialACA.hpp', HM + 'lrmat/utils/recompression.hpp', HM + 'lrmat/linalg/add_lrmat_lrmat.hpp', 'include/htool/matrix/utils/SVD_truncation.hpp'],
        mechanism=[('crosses until the last one is small', 'partialACA, sympartialACA, fullACA copy_low_rank_approximation'), ('QR of the factors and truncated SVD', 'recompression, SVD_truncation')],
        observe=['the factors', 'inputs', 'reported errors and ratios', 'exceptions', 'live allocations'],
        parts=[part('lowrank', 'blocks', 6000, 250000)],
        rule='a case is a problem, a compressor and a history of 1 to 8 operations of 1 to 3 callers; non-trivial: more than one operation or caller, with a schedule and fault trace not seen before in the run',
        technique=TECH + 'histories of compressions, sums and products by concurrent callers, failing callbacks and allocations on the real code, with race and bounds detection, against singular values and dense references',
        note='Sampled histories; sizes up to 70 (quick) or 110 (thorough) points. The accuracy of partially pivoted approximations is only checked for smooth kernels on separated clusters, where they promise it.'),
    dict(
        id='A10', title='Dense matrix operations are exact in every layout and touch only their output',
        statement='Products with a dense matrix add to the output alpha times the product of the (transposed, conjugated) factors, and beta times what was there, which is not read for beta zero: with a vector or a matrix, column by column or row by row, from either side, up to rounding in every unit. Products with symmetric and Hermitian matrices read the stated triangle only. Sums, scalings, transposes, rows, columns, slices, norms, largest entries and printed matrices are those of the coefficients, and views act on the memory they were given. Nothing is written beside the output, callers may share all inputs, and a failed allocation is reported and leaks nothing.',
        over=['inputs', 'histories', 'schedules', 'fault_sequences'], quant='histories of up to 10 operations of 9 families by 1 to 4 concurrent callers on shared matrices of 1 to 24 (thorough: 40) rows and columns, real and complex in single and double precision, all transpositions, sides and triangles, alpha and beta including 0, junk in the other triangle and in outputs that are overwritten, units from 1e-20 to 1e24, failed allocations at any point',
        why='The tests use one set of sizes per product with fully stored matrices of order one and outputs that hold numbers; a swapped dimension of square shapes, a read of the other triangle and an unsynchronised buffer are not seen.',
        files=['include/htool/matrix/matrix.hpp', 'include/htool/matrix/linalg/add_matrix_vector_product.hpp', 'include/htool/matrix/linalg/add_matrix_matrix_product.hpp', 'include/htool/matrix/linalg/add_matrix_matrix_product_row_major.hpp', 'include/htool/matrix/linalg/scale.hpp', 'include/htool/matrix/linalg/transpose.hpp', 'include/htool/misc/misc.hpp'],
        mechanism=[('row-major products as transposed products, with conjugated copies', 'add_matrix_matrix_product_row_major, add_hermitian_matrix_matrix_product_row_major'), ('strided access', 'Matrix::get_stridedslice, set_stridedslice')],
        observe=['outputs and the memory around them', 'all inputs', 'printed text', 'exceptions', 'live allocations'],
        parts=[part('dense', 'kernels', 20000, 1000000)],
        rule='a case is a set of shared matrices and a history of 1 to 10 operations of 1 to 4 callers; non-trivial: more than one operation or caller, with a schedule and fault trace not seen before in the run',
        technique=TECH + 'histories of matrix operations by concurrent callers that share their inputs, and failing allocations, on the real code with race and bounds detection, against naive products',
        note='Sampled histories; BLAS is real, its accesses are checked. Empty matrices are not given to these functions.'),
    dict(
        id='H01', title='Copies, moves and assignments give independent, complete objects',
        statement='A copy of an operator, low-rank matrix or dense matrix equals its source in everything a caller can observe, and a moved object gives all of it to the new one; afterwards changing or destroying one of them changes no other. Cluster trees can be moved and stay usable. Memory that belongs to the user is neither freed nor written by objects that were only made to look at it, sources shared by concurrent callers are only read, and when an allocation fails in the middle every object is still valid, nothing leaks and nothing is freed twice.',
        over=['histories', 'schedules', 'fault_sequences', 'inputs'], quant='histories of 4 to 30 copies, assignments, moves, swaps, scalings, replacements of blocks, products, resizes, views and destructions over 3 slots of each type per caller, on operators of A01, 1 to 3 concurrent callers, failed allocations at any point',
        why='The tests copy an operator once and look at a few members; the second use after a move, a lost symmetry flag or a failing allocation inside an assignment is not reached.',
        files=[HM + 'hmatrix.hpp', HM + 'lrmat/lrmat.hpp', 'include/htool/matrix/matrix.hpp', 'include/htool/clustering/cluster_node.hpp', 'include/htool/basic_types/tree.hpp'],
        mechanism=[('deep copies of the blocks', 'HMatrix copy constructor and assignment'), ('ownership flag', 'Matrix::m_is_owning_data'), ('shared tree data', 'TreeNode::m_tree_data')],
        state=[('block tree', 'children and leaf data of every node', 'HMatrix'), ('root and partition of a tree', 'pointers into the nodes', 'ClusterTreeData')],
        observe=['every member of every object after each step', 'products', 'user memory', 'live allocations'],
        parts=[part('objects', 'copies', 10000, 300000)],
        rule='a case is a history of 4 to 30 operations of 1 to 3 callers; non-trivial: more than one operation carried out, with a schedule and fault trace not seen before in the run',
        technique=TECH + 'histories of value operations by concurrent callers and failing allocations, with race, bounds, lifetime and leak detection, against a value model of every object',
        note='Sampled histories.'),
    dict(
        id='M06', title='Coarse operators assemble every contribution of every process once',
        statement='For any number of vectors on each process, including none, and any overlap, assembling the coarse operator gives the first process the whole matrix: its block for processes a and b is the operator between the vectors of a and b, extended by zero. It ends without deadlock or mismatched messages for every timing of the processes, can be repeated and mixed with products on the same operator, and leaves operator and vectors unchanged. Assemblies on different communicators do not influence each other.',
        over=['schedules', 'inputs', 'histories'], quant='1 to 6 ranks, 0 to 4 vectors per rank, several overlap patterns, real and complex operators, histories of up to 5 assemblies, products and barriers, one or two communicators, all message timings',
        why='The tests run it inside a solver with one number of vectors; a rank with no vectors and other message orders are not reached.',
        files=['include/htool/solvers/geneo/coarse_operator_builder.hpp', 'include/htool/distributed_operator/distributed_operator.hpp', 'include/htool/wrappers/wrapper_mpi.hpp'],
        mechanism=[('sizes gathered, vectors exchanged and products collected', 'build_geneo_coarse_operator, GeneoCoarseOperatorBuilder::build_coarse_operator')],
        observe=['the coarse matrix on the first process', 'MPI traffic', 'operator and vectors'],
        parts=[part('geneo', 'coarse', 6000, 200000)],
        rule='a case is a random world and a history of 1 to 5 operations; non-trivial: more than one rank, with a new schedule trace',
        technique=TECH + 'timings of simulated MPI processes around the real code, against the dense coarse matrix',
        note='Sampled timings; MPI is the simulator, its semantics are the standard ones.'),
    dict(
        id='D01', title='Solvers find the same solution on every process and for every timing',
        statement='For any number of processes and right-hand sides, any overlap and any way the local operators are built, solving with the distributed operator ends on every process, without deadlock or mismatched messages and for every timing, with the same vectors, and they solve the system with the represented operator in the numbering of the user. Every local solver inverts the operator of its subdomain, the coarse spaces are those of the stated eigenvalue problems and the coarse operator is theirs. The information reported describes the solve, and neither operator nor right-hand sides change.',
        over=['schedules', 'inputs', 'histories', 'configurations'], quant='1 to 6 ranks with 1 or 2 threads each, histories of up to 5 solves, coarse spaces and reports on one solver, 6 ways to build it, 1 to 5 right-hand sides, no, restricted or additive one-level preconditioner, 4 coarse corrections, general, symmetric and Hermitian operators, overlaps of neighbouring or arbitrary unknowns in any order, all message timings',
        why='The tests of the solvers need HPDDM, which fixes one problem, one partition and a loose tolerance on an iterative method that converges in spite of wrong local or coarse parts; timings and unusual overlaps are not reached.',
        files=['include/htool/solvers/ddm.hpp', 'include/htool/solvers/utility.hpp', 'include/htool/wrappers/wrapper_hpddm.hpp', 'include/htool/solvers/geneo/coarse_space_builder.hpp', 'include/htool/solvers/geneo/coarse_operator_builder.hpp', 'include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp', 'include/htool/distributed_operator/utility.hpp'],
        mechanism=[('product of the operator for the Krylov method', 'HPDDMOperator::GMV'), ('numbering and local operators with overlap', 'LocalNumberingBuilder, DDMSolverBuilder, DDMSolverWithDenseLocalSolver'), ('permutation, gathering and information of a solve', 'DDM::solve'), ('selection of eigenvectors', 'GeneoCoarseSpaceDenseBuilder::build_coarse_space')],
        state=[('factorised local operator', 'made once, used by every later solve', 'HPDDMCustomLocalSolver, DDM::one_level'), ('coarse space', 'of the last call of build_coarse_space', 'DDM::nevi, DDM::two_level'), ('information map', 'what the last operations did', 'DDM::infos')],
        observe=['solutions on every rank', 'every call of a local solver', 'coarse spaces and coarse operators', 'information', 'MPI traffic'],
        parts=[part('solvers', 'ddm', 1600, 60000)],
        rule='a case is a random problem, partition, overlap, way to build the solver and a history of 1 to 5 operations; non-trivial: more than one rank, with a new schedule trace',
        technique=TECH + 'timings of simulated MPI processes around the real solver code, against the dense system, with every local solve and coarse operator checked as it is made',
        stubs=STUBS + ['HPDDM (drivers/HPDDM.hpp): it is not installed here; a small implementation of the interface htool uses, with point-to-point exchanges of the overlap, a flexible GMRES and a dense coarse solver on the simulated MPI'],
        note='Sampled timings and problems. HPDDM itself is a stand-in, so this decides the code of htool around it; Krylov methods other than GMRES are only named, complex symmetric operators and coarse corrections of complex non-symmetric ones are left out.'),
    dict(
        id='D02', title='Local solvers invert their subdomain, also concurrently and after failures',
        statement='For any operator, symmetry, stored triangle, overlap and number of right-hand sides, a factorised local solver, hierarchical with or without overlap or dense, solves its local system up to the accuracy of the factorisation, in place or not, as often as asked, and leaves the right-hand side alone if it is given a separate output. Several solvers work concurrently without influencing each other or racing. If an allocation fails an exception says so, later solves are right, and nothing leaks.',
        over=['histories', 'inputs', 'schedules', 'fault_sequences'], quant='3 kinds of local solver, histories of up to 7 solves of 1 to 5 right-hand sides, 0 to 10 unknowns in the overlap, general, symmetric and Hermitian operators, both triangles, 1 to 3 concurrent callers with 1 to 3 threads, failed allocations at any point',
        why='The tests use local solvers only inside an iterative method that hides a wrong one; wrong triangular factors, concurrent use and failing allocations are not reached.',
        files=['include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp', 'include/htool/solvers/local_solvers/local_hmatrix_solvers.hpp', 'include/htool/solvers/local_solvers/local_dense_solvers.hpp', 'include/htool/hmatrix/linalg/factorization.hpp', 'include/htool/matrix/linalg/factorization.hpp'],
        mechanism=[('block elimination of the overlap', 'LocalHMatrixPlusOverlapSolver'), ('permutation around the factorised operator', 'LocalHMatrixSolver')],
        state=[('factorised operator and overlap', 'made by numfact, used by every solve', 'members of the local solvers'), ('work buffer', 'reused between solves', 'LocalHMatrixSolver')],
        observe=['solutions', 'right-hand sides', 'live memory', 'logger'],
        parts=[part('solvers', 'local', 8000, 300000)],
        rule='a case is a random operator with an overlap, 1 to 3 callers and their solves; non-trivial: more than one solve, with a new schedule and fault trace',
        technique=TECH + 'histories of local solves with concurrent callers and failing allocations, with race and bounds detection, against the dense local system',
        note='Sampled histories; the operators are diagonally dominant, so that a factorisation without pivoting is stable.'),
    dict(
        id='C01', title='Cluster trees are valid and depend only on the points and settings',
        statement='For any points, weights, radii, settings and partition, the cluster tree has a permutation of all points, children that tile their parent and respect the minimal size, centers and radii that contain the points, and exactly the parts, ranks and depths that were asked for; a partition that cannot be made is reported. Children follow each other along the direction of largest extent asked for, whatever the shape, position or unit of length of the points, and are equal parts or slabs of equal width. The tree is bit for bit the one a new builder makes, whatever the builder was used for before, whatever failed before and whoever else is clustering with the same strategies or points. Conversions between the numberings are the permutations the tree describes, and if an allocation fails an exception says so and nothing leaks.',
        over=['histories', 'inputs', 'schedules', 'fault_sequences', 'configurations'], quant='histories of up to 16 clusterings and conversions with reused builders, up to 400 points of 13 distributions in 2 and 3 dimensions with symmetric and coincident ones, units from 1e-6 to 1e6, single and double precision, both directions and splittings, 2 to 7 children, given and computed partitions of up to 12 parts in any order, 1 to 3 concurrent callers, failed allocations at any point',
        why='The tests build each tree once with a new builder; what a builder keeps from its previous call, refused partitions, failing allocations and degenerate directions are not reached.',
        files=['include/htool/clustering/tree_builder/recursive_build.hpp', 'include/htool/misc/evp.hpp', 'include/htool/clustering/tree_builder/splitting.hpp', 'include/htool/clustering/tree_builder/direction_computation.hpp', 'include/htool/clustering/cluster_node.hpp', 'include/htool/clustering/cluster_tree_data.hpp', 'include/htool/basic_types/tree.hpp'],
        mechanism=[('recursive cut along a direction', 'ClusterTreeBuilder::create_cluster_tree'), ('permutation shared by all nodes', 'ClusterTreeData::m_permutation')],
        state=[('settings and last partition of a builder', 'kept between two constructions', 'ClusterTreeBuilder members')],
        observe=['every node of the tree', 'converted vectors', 'logger', 'exceptions', 'live allocations'],
        parts=[part('clusters', 'trees', 8000, 250000)],
        rule='a case is a history of 2 to 16 operations of 1 to 3 callers; non-trivial: more than one operation, with a schedule and fault trace not seen before in the run',
        technique=TECH + 'histories of clusterings by reused builders and concurrent callers with failing allocations, against the definition of a valid tree and what a new builder makes',
        note='Sampled histories. Principal axes are compared only where rounding leaves them defined.'),
]
