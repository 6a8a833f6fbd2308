ENGINE = ('The public operations are instantiated for each dimension/order/layout/standard listed in unit_names, compiled by clang to LLVM IR from the '
          'working tree, and abstractly interpreted: coordinates, knots, data and control points stay symbolic (value numbers of rational functions), '
          'branches on them split into rows with linear facts (polyhedral domain), memory is tracked per object. ')
BOUND = (' Sizes, orders and dimensions are those of the units; all real values are covered symbolically. Rounding is not modelled.')
E = {
 'C01': 'Every row of at()/derivative_at() is classified by its path facts relative to range(): throw rows must be outside in a non-periodic dimension, others inside, and the returned value number must equal that of the unchecked call.',
 'C02': 'The value number returned on every row must equal the tensor-product B-spline sum built independently from the Cox-de Boor definition on the segment the row selects.',
 'C03': 'The value number of every derivative row must equal the formal derivative of the reference polynomial of the same segment, for every multi-index up to order+1.',
 'C04': 'Basis value numbers must equal the Cox-de Boor recursion, and lower orders must be right-aligned behind zeros.',
 'C05': 'Row facts must imply that the selected segment encloses the coordinate (or is the clamped first/last one), for an arbitrary symbolic hint; all knot and control-point accesses must be in bounds.',
 'C06': 'In periodic dimensions the coordinate entering the basis must be x minus an integer multiple of the period, inside the base range by the row facts; non-periodic ones unchanged.',
 'C07': 'Result value numbers must be homogeneous linear forms in the data symbols, no row condition may mention data, and an opaque value type without comparison, multiplication or conversion must compile.',
 'C08': 'Control points and knots produced by construction (value numbers through the whole LU solve) are evaluated by the reference spline at every data coordinate and must equal the data symbol.',
 'C09': 'Effect analysis: the abstract store after every evaluation, query or proxy path must equal the one before; no store may reach a global, static or thread-local object.',
 'C10': 'After the source object, template and data are overwritten and released in the abstract store, every access path of copies, moved-to objects and proxies must return the same value numbers and touch no released object.',
 'C11': 'The template object graph must be unchanged by interpolation, and functions from a reused template or a reused target must have the value numbers of fresh ones.',
 'C12': 'Effect analysis: the abstract contents of caller-owned arrays, meshes, vectors and matrices must be the same after each call as before.',
 'C13': 'All access paths are compared slot by slot for the shapes in the units, and symbolically in the sizes for the index arithmetic.',
 'C14': 'Each element gets its own symbol; reads through every accessor and the product must return the symbols of the matrix.',
 'C15': 'Symbolic matrix and right-hand side: A times the computed solution must have the value number of b in every equation, for every solving interface.',
 'C16': 'Compile-and-link witnesses: every header alone, every standard and macro combination, instantiating all public operations for the supported types, from two translation units; a diagnostic is the violation.',
 'C17': 'Each unit builds the same function in two or more configurations (standard, layout, threads, logging, assertions, dummy points); knots, ranges, control points, values, derivatives and proxies must have the same value numbers under the same facts.',
 'C18': 'With INTP_ENABLE_ASSERTION, every row of each guarded operation must throw std::runtime_error exactly when the documented precondition is violated, before any out-of-bounds access.',
 'C19': 'Thread-modular abstract interpretation: each thread role of the pool (constructor, worker, submitter, destructor, query) is interpreted on its own over the IR to a fixpoint on all normal and unwind paths, with unknown queue contents and interference; any two accesses of different roles to one field, one of them a write, must share a mutex, both be atomic, or be ordered by thread start or join.',
 'C20': 'Thread-modular abstract interpretation: each thread role of the pool (constructor, worker, submitter, destructor, query) is interpreted on its own over the IR to a fixpoint on all normal and unwind paths, with unknown queue contents and interference; a task goes into one queue, leaves it exactly when taken, is invoked once and outside locks and its own future is returned; a worker may sleep only having found every pushed-to queue empty under the waited mutex, and every push under that mutex is followed by a notification.',
 'C21': 'Thread-modular abstract interpretation: each thread role of the pool (constructor, worker, submitter, destructor, query) is interpreted on its own over the IR to a fixpoint on all normal and unwind paths, with unknown queue contents and interference; every exit path sets the flag workers test under the waited mutex, notifies all and joins all before members die; workers start only after the queues are complete; no worker path keeps running or sleeping once the flag is set.',
 'C22': 'The sections are compiled against a model of packaged_task and future whose tasks run when the analysis decides (at submission, when waited for, all at the first wait in reverse), with a failure injected at every allocation and value operation in turn: on each exit, normal or unwinding, no task may be unfinished, and a failure must leave the call as an exception.',
 'C23': 'The sections are interpreted with per-task access sets under three schedules: write sets must be disjoint from what other tasks and the caller touch meanwhile, every line must be written, and the result must equal the sequential value numbers; the partition arithmetic is covered over all line counts of the units.',
 'C24': 'Allocation is analysed with a symbolic element count: rows must throw bad_alloc exactly when the byte count overflows or the system allocator fails, otherwise request enough bytes with the required alignment.',
 'C25': 'Each cell entry must hold the symbol of the control point the plain layout would pick; strides are read from the stored object and compared.',
 'C26': 'Knot value numbers and ordering facts are compared with the documented construction for every grid; range() with the given coordinates.',
 'C27': 'Every row of a proxy evaluation must carry the value number that direct evaluation returns under the same facts.',
}
EXPLAIN = {k: (v if k in ('C16', 'C19', 'C20', 'C21', 'C22') else ENGINE + v + BOUND) for k, v in E.items()}
