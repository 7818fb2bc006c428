EX = 'src/mpi/ext_mpi_native_exec.c'
prop('P01', 'Compiled collective programs are decoded exactly as they were encoded',
     'A collective is compiled at initialisation into a flat program for later execution. For every collective, size, datatype and parameter choice, '
     'the executor reads each instruction of that program with exactly the operands, in the order, width and role in which the compiler stored them, the size computed in advance equals the size written, '
     'and the communicators, request slots and shared-memory handles kept behind the program are found where they were put.',
     ['inputs', 'configurations', 'programs'],
     'all instruction kinds, all operand kinds, both the sizing and the writing pass, all interpreters of compiled programs',
     'Tests execute only the instruction kinds that the sampled allreduce plans contain; gather/scatter, waitany, atomic barriers and blocking plans are never executed.',
     ['src/core/byte_code.c', EX, 'src/mpi/ext_mpi_native.c', 'src/core/count_instructions.c', 'include/core/byte_code.h', 'include/core/constants.h'],
     [('encoder', 'src/core/byte_code.c:ext_mpi_generate_byte_code'), ('executor', EX + ':ext_mpi_exec_native'), ('statistics walker', 'src/core/count_instructions.c')],
     technique='path-sensitive symbolic effect comparison of encoder and decoders over LLVM IR',
     note='Every path of the encoder per input line kind (real and sizing mode) and every path of each decoder per opcode is enumerated and the operand sequences (width, role) compared; sound for the enumerated paths, loops are summarised by one symbolic iteration. Not covered: whether the program itself implements the collective.')

prop('P02', 'Testing a collective never blocks, and it resumes exactly where it stopped',
     'Starting a persistent collective begins at its first instruction; testing it never waits: it returns "not complete" only while a message or barrier of the current instruction is outstanding, and the next test or wait resumes at precisely that instruction. '
     'Waiting never returns before the last instruction, and completion is reported exactly when the last instruction has been reached.',
     ['schedules', 'histories'],
     'every instruction kind, every interleaving of test/wait calls with the progress of other ranks',
     'No test ever calls the test functions; the polling mode of the executor is not executed at all.',
     [EX, 'src/mpi/ext_mpi_native.c'],
     [('polling / waiting modes of the executor', EX + ':ext_mpi_exec_native'), ('start, test, wait', 'src/mpi/ext_mpi_native.c:EXT_MPI_Start_native,EXT_MPI_Test_native,EXT_MPI_Wait_native')],
     state=[('execution_pointer', 'resume position of a handle, null when complete', 'src/mpi/ext_mpi_native.c')],
     technique='path-sensitive typestate analysis of the executor over LLVM IR',
     note='All paths of one executor step per opcode and wait mode, and all paths of start/test/wait. Known finding: the wait-any instruction terminates the program in polling mode.')

prop('P03', 'Reductions add every element exactly once with the requested element type',
     'A reduction instruction of n elements adds source element k to destination element k for every k from 0 to n-1 and nothing else: no element is skipped, repeated, moved or combined with another, '
     'the destination is the first operand and the source the second, the element type is that of the requested reduction (double, long int, float, int), and all four are supported by persistent, wait-any and blocking execution.',
     ['inputs'], 'all element counts, all element types, all executors of compiled programs',
     'Tests use one datatype, message sizes from a list, and never the wait-any or blocking kernels; a kernel that is wrong for one type or at the last element goes unnoticed.',
     [EX], [('reduction kernels', EX + ':ext_mpi_exec_native,ext_mpi_exec_blocking,reduce_waitany')],
     technique='loop summarisation (induction variables, trip counts, strides) over LLVM IR',
     note='Every accumulation loop reachable from the reduction instructions is summarised in closed form: trip count, stride, operands and element type. Calls into GPU code are not analysed (not built here).')

IFC = 'src/mpi/ext_mpi_interface.c'
GEN = 'src/mpi/ext_mpi.c'
NAT = 'src/mpi/ext_mpi_native.c'
prop('P04', 'Request calls act on exactly the collective the request stands for',
     'A request returned by a successful MPI_<collective>_init stands for the new collective until it is freed. MPI_Start, MPI_Wait, MPI_Test and MPI_Request_free act on that collective (and only once) when the request stands for one, '
     'and on the underlying MPI request otherwise, with the arguments of the caller; the result of the call is returned, MPI_Test reports the completion the collective reports, '
     'an initialisation that fails registers nothing, and freeing a request forgets it.',
     ['histories', 'inputs'], 'every sequence of init, start, wait, test and free on mixed lists of persistent collectives and ordinary requests',
     'Tests run one allreduce request at a time through start and wait; test, failing initialisations, ordinary requests and all other collectives are never used.',
     [IFC, GEN], [('persistent collective constructors', IFC + ':MPI_*_init'), ('request calls', IFC + ':MPI_Start,MPI_Wait,MPI_Test,MPI_Request_free'), ('handle layer', GEN + ':EXT_MPI_Start,EXT_MPI_Test,EXT_MPI_Wait,EXT_MPI_Done')],
     technique='path-sensitive typestate and argument-provenance analysis over LLVM IR',
     note='All paths of the interface functions and of the handle layer. The request table itself is a separate property; MPI_Startall is not provided by the library and not part of the property.')

prop('P05', 'Multi-request calls report exactly the completed requests',
     'For every mixture of persistent collectives and ordinary requests, MPI_Waitall, MPI_Waitany, MPI_Waitsome, MPI_Testall, MPI_Testany and MPI_Testsome treat every request of the list, '
     'in a list without persistent collectives behave as the underlying MPI, and report through flag, index, outcount and the index list exactly those requests that have completed: never a pending one as complete, never complete when one is still pending, and indices that refer to the caller\'s list.',
     ['histories', 'inputs', 'schedules'], 'all list lengths, all mixtures, all completion orders',
     'No test ever calls any of these functions.',
     [IFC], [('multi-request calls', IFC + ':MPI_Waitall,MPI_Waitany,MPI_Waitsome,MPI_Testall,MPI_Testany,MPI_Testsome')],
     technique='path-sensitive dataflow with loop summaries over LLVM IR',
     note='All paths through the loops of the six calls with one symbolic iteration per loop. Statuses of persistent collectives are left untouched by the library, which the property does not cover.')

prop('P06', 'Every layer passes the caller\'s arguments on unchanged and in their role',
     'From the MPI interface (C and Fortran) down to the plan builder, buffers, counts, displacements, types, operation, root, communicator, info and handle of a collective reach the next layer in their own role: none is exchanged, dropped, or replaced by a value of another role or rank. '
     'A regular collective is the irregular one with count[i] equal to the count and displacement[i] equal to i times the count for every rank, MPI_IN_PLACE stands for the receive buffer, Fortran types map to the C type of the same representation, and the new handle (or the error) is what the caller gets.',
     ['inputs', 'configurations'], 'all collectives, both languages, all counts, types, roots and communicator sizes',
     'Tests only use the C allreduce with one type; exchanged arguments are invisible whenever both have the same value (counts, types, MPI_COMM_WORLD, root 0).',
     [IFC, GEN, NAT, 'src/fortran/ext_mpi_f.c'],
     [('regular to irregular', IFC + ':MPI_Allgather_init,MPI_Gather_init,MPI_Scatter_init,MPI_Reduce_scatter_block_init'), ('general layer', GEN + ':ext_mpi_*_init_general'),
      ('native wrappers', NAT + ':EXT_MPI_Allreduce_init_native,EXT_MPI_Bcast_init_native,EXT_MPI_Allgatherv_init_native'), ('Fortran wrappers', 'src/fortran/ext_mpi_f.c')],
     technique='argument-role provenance analysis over LLVM IR (inlined call chains)',
     note='Every call site between the layers, with array contents as closed-form loop summaries and Fortran types by enumeration of the type decisions. Known findings: displs of gatherv/allgatherv/scatterv are ignored by the plan builder.')

prop('P07', 'The plan header describes the collective and the place of the rank in it',
     'The plan builders describe the requested operation truthfully to the passes: node number, number of nodes, rank in the node, tasks per node (rows, columns), sockets, copy-in method and factors, root, ports and groups, the bytes of every column rank, of every local rank and of every node, the flags BIT_IDENTICAL, IN_PLACE and BLOCKING, and the data type are those of the call, for every rank and shape. '
     'The message sizes of the nodes are whole elements and add up to the whole operation; MPI_SUM on a supported type selects exactly the reduction of that type, and an operation or type without a reduction is refused instead of computed as something else.',
     ['inputs', 'configurations'], 'all ranks, node shapes, counts, roots, data types and operations',
     'Tests build plans for few shapes through MPI_Allreduce only; uneven counts, columns, roots, other types and operations never appear.',
     [NAT],
     [('headers', NAT + ':EXT_MPI_Reduce_init_native,EXT_MPI_Gatherv_init_native,EXT_MPI_Scatterv_init_native,EXT_MPI_Reduce_scatter_init_native')],
     technique='closed-form value analysis (configuration-specialised paths and loop summaries over LLVM IR) against reference formulas',
     note='The values printed for every PARAMETER line are compared with the reference as formulas over rank, size, shape and counts on a grid of about 900 configurations; the distribution of the message sizes over the nodes is only checked for its sum and granularity.')

prop('P08', 'Plans come from a complete, ordered chain of passes, never a failed one',
     'Every plan builder (reduce/allreduce/broadcast, gatherv/allgatherv, scatterv, reduce_scatter) hands each pass the text its predecessor produced, never overwrites that text while it is read, and generates the byte code from the final text; when a pass reports failure the builder fails and no plan is installed. '
     'In every configuration (tasks per node, nodes, root, alternation, polling, recursion, sockets) exactly the generation passes it needs run, in their order; passes that are only valid in some configurations (removal of the first barrier, removal of node barriers, direct use of the user buffers, buffer optimisation of broadcasts, ...) do not run in others.',
     ['configurations', 'fault_sequences'], 'all configurations of the four builders and every failing pass',
     'Tests drive the passes in their own fixed pipelines, not through the builders; most configurations and no failure are ever exercised.',
     [NAT],
     [('builders', NAT + ':EXT_MPI_Reduce_init_native,EXT_MPI_Gatherv_init_native,EXT_MPI_Scatterv_init_native,EXT_MPI_Reduce_scatter_init_native')],
     technique='typestate analysis of the plan buffers over configuration-specialised paths of LLVM IR',
     note='All paths of the four builders for about 1400 configurations; contents of the passes are other properties.')

prop('P09', 'Setting up a persistent operation leaves the user buffers untouched',
     'Every persistent init call (MPI_Allreduce_init, Bcast, Reduce, Allgather(v), Gather(v), Scatter(v), Reduce_scatter(_block)) and everything it runs internally - choice of the algorithm, measurement of the copy-in variants, self-check, plan and byte code generation - neither reads nor writes the data buffers the user passes. '
     'They may be unallocated, in use, or already hold the operands (in-place); all trial runs during set-up use buffers of the library, and no operation that was given the buffers of the user is started before the user starts it.',
     ['inputs', 'configurations', 'histories'], 'all set-up paths of all persistent collectives',
     'Tests fill their buffers after the init call and never use in-place or absent buffers with the self-check or the measurement on.',
     ['src/mpi/ext_mpi.c', 'src/mpi/debug_persistent.c', 'src/mpi/cost_copyin_measurement.c', NAT, 'src/core/byte_code.c'],
     [('entry points', 'src/mpi/ext_mpi_interface.c:MPI_*_init'), ('measurement', 'src/mpi/cost_copyin_measurement.c:EXT_MPI_Allreduce_measurement'),
      ('self-check', 'src/mpi/debug_persistent.c'), ('code generation', 'src/core/byte_code.c:ext_mpi_generate_byte_code')],
     technique='interprocedural pointer taint analysis over LLVM IR',
     note='Every function of src/core and src/mpi reachable with a user buffer address; addresses written into the plan are not followed, executing a plan is what the start rule forbids. GPU code is not compiled here.')

prop('P10', 'All ranks of a communicator set up the same operation in step',
     'The configuration read at start-up (node shape, alternation, recursion, ports, copy-in, verbosity, self-check) and every choice made by a persistent init call - tasks per node, sockets, ports and groups, copy-in method and factors, alternation, recursion - is the same on all ranks, although environment, timings, node-local communicators and the own counts differ between them. '
     'No collective call of the start-up, the choice of the algorithm, the measurement and the self-check, and no start or wait of a trial run, is executed by only some of the ranks or with differing counts or roots.',
     ['configurations', 'inputs', 'schedules'], 'all values of environment, info objects, per-rank counts and timings; all paths',
     'On one machine the environment, node sizes and timings agree by chance; counts in the tests are equal on all ranks.',
     ['src/mpi/ext_mpi.c', 'src/mpi/num_ports_factors.c', 'src/mpi/cost_copyin_measurement.c', 'src/mpi/debug_persistent.c', 'src/mpi/ext_mpi_interface.c'],
     [('start-up', 'src/mpi/ext_mpi.c:read_env,EXT_MPI_Init'), ('choice of the algorithm', 'src/mpi/ext_mpi.c:ext_mpi_*_init_general'),
      ('ports', 'src/mpi/num_ports_factors.c'), ('measurement', 'src/mpi/cost_copyin_measurement.c')],
     technique='divergence (uniformity) data-flow analysis, interprocedural, over LLVM IR',
     note='From EXT_MPI_Init and all MPI_*_init entry points to the calls of the plan builders; the builders themselves (shared memory set-up on sub-communicators) are not followed. Allocations are assumed to succeed; MPI arguments that the standard requires to agree are taken as uniform, counts arrays are expected on all ranks.')

prop('P11', 'The shared memory barriers of a node wait for everybody, every time',
     'Between the processes of a socket, and between the sockets of a node, no process leaves a barrier of a collective before all members have entered it, for every number of processes and sockets, for every barrier of a plan and for every repeated start (also when the barrier counter wraps around), and nobody waits for a signal that is never sent: when all members have entered, all of them leave. '
     'A partial barrier covers the processes it is issued for; processes without data take part in as many rounds as the others. The slots of different members, barriers and plans do not overlap and start from one common state.',
     ['schedules', 'inputs', 'histories'], 'all member counts (evaluated up to 33), all members, all sequences of barriers, all interleavings at sequential consistency',
     'A barrier that lets one process through early is only seen when that process is faster by chance; tests run few process counts on one socket.',
     ['src/mpi/ext_mpi_native_exec.c', 'src/core/byte_code.c', 'src/mpi/shmem.c', 'src/mpi/ext_mpi_native.c', 'src/core/reduce_copyin.c'],
     [('socket and node barrier', 'src/mpi/ext_mpi_native_exec.c:ext_mpi_exec_native'), ('slot areas', 'src/mpi/shmem.c:ext_mpi_setup_shared_memory'),
      ('counters', 'src/core/byte_code.c:ext_mpi_generate_byte_code'), ('partial barriers', 'src/core/reduce_copyin.c:local_barrier')],
     technique='abstract interpretation of the barrier loops over LLVM IR into recurrences, decided for all members by knowledge propagation',
     note='Sequential consistency is assumed (memory ordering: P94). Member counts up to 33 are evaluated; the recurrences are uniform in the count. That the plans contain barriers where data dependences need them is P90.')

prop('P12', 'Any number of persistent operations live side by side',
     'Persistent operations do not affect each other, however many exist and in whatever order they are set up, started and released. Every request is found as long as it lives, and the look-up of a foreign or released request ends, for every number of registered and every history of released requests. A new operation gets a free slot, an existing one keeps its plans, position and state when the tables grow. '
     'Starting an operation touches this operation only and exchanges its two plans (if it has two) completely. Every plan has code, shared memory and message requests of its own, of the size determined for it; releasing waits for completion and gives back exactly these, once, with every shared memory segment, and the common tables only when no operation is left.',
     ['histories', 'inputs'], 'all histories of init, start, test, wait, free; all numbers of operations (table sizes evaluated at samples, rules are uniform)',
     'The tests hold one operation at a time; collisions, growth of the tables and release in other orders do not occur.',
     ['src/mpi/hash_table.c', 'src/mpi/ext_mpi_native.c', 'src/mpi/shmem.c'],
     [('table of requests', 'src/mpi/hash_table.c:ext_mpi_hash_insert'), ('slots', 'src/mpi/ext_mpi_native.c:get_handle'),
      ('start and release', 'src/mpi/ext_mpi_native.c:EXT_MPI_Start_native, EXT_MPI_Done_native'), ('segments', 'src/mpi/shmem.c:ext_mpi_destroy_shared_memory')],
     technique='ownership and typestate rules over path summaries of the LLVM IR with loops as recurrences and loads resolved to the last store',
     note='Allocation failures are not considered. The tables of blocking collectives are not covered.')

prop('P13', 'Only the root gives in Bcast and Scatter, only it receives in Reduce, Gather',
     'The root, and nothing but the root, makes the difference between a rooted collective and its symmetric relative: in Bcast and Scatter(v) the data of exactly the root enter the plan, in Reduce and Gather(v) exactly the root\'s receive buffer is written, in Bcast everybody else gets the data, and in Allreduce, Allgather(v) and Reduce_scatter everybody gives and receives. '
     'The origin and the destination of data are marked on the node of the root only, whatever rank is root and whatever the shape of the nodes. The root copies every block of its send buffer into the place the plan reads it from, in the order of the plan.',
     ['inputs', 'configurations'], 'all roots and ranks of sample shapes (nodes x tasks per node), all kinds of collectives; one column',
     'The tests run no rooted collective at all.',
     ['src/core/reduce_copyin.c', 'src/core/reduce_copyout.c', 'src/mpi/forward_interpreter.c', 'src/mpi/backward_interpreter.c'],
     [('give', 'src/core/reduce_copyin.c:ext_mpi_generate_reduce_copyin'), ('receive', 'src/core/reduce_copyout.c:ext_mpi_generate_reduce_copyout'),
      ('origin', 'src/mpi/forward_interpreter.c:ext_mpi_generate_forward_interpreter'), ('destination', 'src/mpi/backward_interpreter.c:ext_mpi_generate_backward_interpreter')],
     technique='sparse conditional constant propagation over LLVM IR: reachability of the copying code per kind, root and rank',
     note='Shapes (1..3 nodes x 1..3 tasks, 2x4, 5x1) are samples, every root and rank of them is decided; columns are not covered. How blocks travel in between is P90.')

prop('P14', 'Plans and their headers pass from one pass to the next without loss',
     'The passes that turn a collective into code hand each other a plan. Whatever one pass writes, the next one reads exactly as written: every line of the plan operand by operand, also through passes that only copy lines, up to the end of the plan; every copy, reduction, send and receive with its buffers, offsets, sizes, partner and tag; '
     'every field and every list of the header and of the algorithm, in the binary and in the text form, whatever the lengths of the lists, the root and the kinds of the collective. A line is never taken for a line of another format. What a reader builds is large enough for what is written and is given back exactly once.',
     ['inputs', 'programs'], 'all kinds of lines and buffers, all fields with opaque contents; lists of 0 to 3 entries',
     'The tests only see the results of the collectives they run; rooted collectives and the text form do not occur.',
     ['src/core/read_write.c', 'src/core (all passes)', 'src/mpi'],
     [('lines', 'src/core/read_write.c:ext_mpi_write_assembler_line, ext_mpi_read_assembler_line'), ('transfers', 'src/core/read_write.c:ext_mpi_read_memcpy_reduce, ext_mpi_read_irecv_isend'),
      ('header', 'src/core/read_write.c:ext_mpi_write_parameters, ext_mpi_read_parameters'), ('algorithm', 'src/core/read_write.c:ext_mpi_write_algorithm, ext_mpi_read_algorithm')],
     technique='abstract interpretation of writer and reader over LLVM IR with opaque contents (round trip token by token); constant propagation for the keywords of the text form',
     note='How the digits of a number in text form are parsed (sscanf, read_int_series) is taken as given; the lists are up to 3 entries long.')

prop('P15', 'Settings of the user are found, shared with all ranks and take effect',
     'Every setting of the README (EXT_MPI_VERBOSE, DEBUG, NUM_SOCKETS_PER_NODE, NOT_RECURSIVE, ALTERNATING, NUM_TASKS_PER_SOCKET, NUM_PORTS, COPYIN) given to rank 0 in the environment takes the value given, 0 included, changes no other setting, and is the same on all ranks afterwards; without a variable the default stays. '
     'Every collective looks up each setting under its own name: the environment goes before the entry of the MPI_Info object of the caller, the entry before the default or the measurement, and the planner gets each value in its role: ports and groups (in reverse order and direction for Reduce_scatter and Scatterv, with the direction the kind needs on a single node, and covering all sockets there), copyin method and factors, sockets, tasks, alternating buffers, recursion, bit identity, reproducibility. '
     'Ports and copyin factors printed as text read back as the same lists. The self-check of an operation runs exactly if EXT_MPI_DEBUG asks for it, with the arguments of the caller, is not checked itself, and stays asked for afterwards. The lists made on the way are freed once, those of the user are not.',
     ['configurations', 'inputs'], 'every variable with 0, 1 and an opaque value; ports and copyin from environment, info or measurement on one or several nodes, 1 or 2 sockets, 2 or 4 found by the measurement',
     'The tests set two of the variables, to 1 only, and pass no info.',
     ['README.md', 'src/mpi/ext_mpi.c', 'src/mpi/num_ports_factors.c', 'src/core/ports_groups.c'],
     [('environment', 'src/mpi/ext_mpi.c:EXT_MPI_Init'), ('order of sources', 'src/mpi/num_ports_factors.c:ext_mpi_get_param, ext_mpi_copyin_info, ext_mpi_num_ports_factors_env'),
      ('use', 'src/mpi/ext_mpi.c:ext_mpi_*_init_general'), ('text', 'src/core/ports_groups.c:ext_mpi_scan_ports_groups, ext_mpi_scan_copyin')],
     technique='abstract interpretation over LLVM IR with environment and info as cases; rank 0 and another rank compared broadcast by broadcast',
     note='Quality of measured defaults is not judged. That all ranks evaluate the settings in step is P10. The ports of Scatterv on a single node are not judged.')

# ---------------------------------------------------------------- not applicable
prop('P90', 'Every planned collective computes the value MPI defines, for all inputs',
     'For every number of ranks, node shape, message size, algorithm parameter and reduction operand, the receive buffers after completion hold exactly what the MPI standard defines for the collective.',
     ['inputs', 'configurations', 'schedules'], 'all rank counts, node shapes, sizes, port factors',
     'The tests sample rank counts and parameters.', ['src/core', 'src/mpi'], [('pass pipeline', 'src/mpi/ext_mpi_native.c')],
     na='The value computed depends on runtime-generated schedules (arrays of stages, fractions and partners computed from rank counts and port factors); no sound static argument in reach bounds them, deciding it needs execution or solver-backed exploration of generated schedules.')
prop('P91', 'Generated schedules of all ranks match and never deadlock',
     'For every configuration, each message that one rank of a collective sends has exactly one matching receive on its partner, in compatible order, so that the collective always terminates.',
     ['inputs', 'configurations', 'schedules'], 'all configurations and interleavings',
     'Tests simulate a sample of configurations.', ['src/core'], [('schedule generators', 'src/core/allreduce.c, src/core/allreduce_recursive.c')],
     na='Matching relates schedules generated at run time on different ranks from arithmetic over runtime rank counts and factors; that cross-rank runtime relation has no static representation in the source.')
prop('P92', 'Results are bit-identical across ranks when bit identity is requested',
     'When bit identity is requested, all ranks obtain bitwise the same reduction result for every input.',
     ['inputs', 'configurations'], 'all operands and configurations', 'Floating-point association depends on the generated plan.',
     ['src/core/allreduce.c'], [('bit identical option', 'src/core/allreduce.c')],
     na='The association order of the reduction is a function of the runtime schedule; it cannot be derived from the source without evaluating the generators.')
prop('P93', 'Internal buffers are large enough for every plan',
     'No configuration makes a textual or compiled plan exceed the buffer that holds it, and no size computation overflows its integer type.',
     ['inputs', 'configurations'], 'all configurations', 'Only small configurations are run.',
     ['src/mpi/ext_mpi_native.c', 'src/core'], [('fixed-size plan buffers', 'src/mpi/ext_mpi_native.c')],
     na='Plan length is a runtime quantity growing with rank count and factors, while the buffers are of fixed size; the property is false in the limit and no static bound exists for the intended range.')
prop('P94', 'Shared-memory synchronisation is correct under weak memory ordering',
     'The hand-written barriers order all preceding stores before all following loads of other ranks on every supported architecture.',
     ['schedules'], 'all hardware reorderings', 'x86 hides it.', [EX], [('barriers', EX)],
     na='The barriers use volatile accesses without fences; whether this orders data depends on the hardware memory model, which the source does not determine.')
