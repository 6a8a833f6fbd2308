#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that anchors and wording stay reviewable)."""
import json, os
H='src/include/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=[H+f for f in files],mechanism=[dict(name=n,where=H+w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=H+c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

prop('C01','Checked evaluation throws exactly when a coordinate is out of range',
 'For every interpolation function and every non-NaN coordinate, at() and derivative_at() throw std::domain_error if and only if some non-periodic dimension\'s coordinate lies strictly outside the closed range() of that dimension; otherwise they return exactly what the unchecked call returns. Periodic dimensions never cause a throw, and operator() and derivative() never throw domain_error.',
 ['inputs','configurations'],'all coordinates, dimensions, periodicity patterns, overloads and build macros',
 'The suite samples a few out-of-range points of one or two functions; the exact end points, each dimension alone, mixed periodicity and every overload are unbounded.',
 ['Interpolation.hpp'],[('boundary_check_',"Interpolation.hpp"),('at / derivative_at overloads','Interpolation.hpp')],['at','derivative_at','operator()','derivative'])
prop('C02','Evaluation is the tensor-product B-spline of knots and control points',
 'Evaluating an interpolation function at a point returns the sum over all (order+1)^dim basis combinations of the control point times the product, over dimensions, of the B-spline basis values of the segment that contains the point. Every overload (scalars, coordinate array) and every storage layout selects the same control points and pairs each with the basis values of its own dimension.',
 ['inputs','configurations'],'all coordinates, knots, control points, dimensions, orders, overloads and both control-point layouts',
 'Tests compare a handful of points against stored numbers in one layout (cell) and one standard (C++20); the other layout, orders and dimensions are never evaluated.',
 ['BSpline.hpp','Interpolation.hpp','Mesh.hpp'],[('BSpline::operator()','BSpline.hpp'),('call_op_helper','Interpolation.hpp')],['operator()','at','BSpline::operator()'])
prop('C03','Derivatives are the exact derivatives of the evaluated spline',
 'For every derivative order per dimension, derivative() and derivative_at() return the corresponding partial derivative of the piecewise polynomial that operator() evaluates on the same segment; an order above the spline order gives zero and order zero everywhere gives the value itself. Every overload assigns each derivative order to the dimension of the coordinate it was given with.',
 ['inputs','configurations'],'all coordinates, derivative orders, dimensions, spline orders, overloads and layouts',
 'Tests check a few first and second derivatives at sampled points with a tolerance, in one layout.',
 ['BSpline.hpp','Interpolation.hpp'],[('BSpline::derivative_at','BSpline.hpp'),('derivative_helper','Interpolation.hpp')],['derivative','derivative_at','BSpline::derivative_at'])
prop('C04','Basis functions satisfy the Cox-de Boor recursion',
 'For every knot sequence, segment and coordinate, the basis-function values of order p on a segment are those of the Cox-de Boor recursion, so they sum to one and each depends only on its own p+2 knots. Basis values requested for a lower order are right-aligned in the result with zeros in front.',
 ['inputs','configurations'],'all knot sequences, coordinates, orders and requested lower orders',
 'Tests look at three or four numeric basis values on one knot vector.',
 ['BSpline.hpp'],[('base_spline_value','BSpline.hpp')],['BSpline::base_spline_value'])
prop('C05','Segment location is right for every coordinate, whatever the hint',
 'For every coordinate, the segment used for evaluation is the one whose knots enclose the coordinate, or the first or last valid segment when the coordinate lies outside; it never lies before the first or after the last valid segment, so only existing knots and control points are touched. The position hint, uniform or not, never changes which segment is used.',
 ['inputs','configurations'],'all coordinates (including knots, end points and out-of-range values), hints and knot vectors',
 'A wrong hint or an off-by-one bound shows only at particular coordinates (exact knots, last segment); tests sample interior points.',
 ['BSpline.hpp','Interpolation.hpp'],[('get_knot_iter','BSpline.hpp'),('add_hint_for_spline / derivative_helper','Interpolation.hpp')],['BSpline::get_knot_iter','operator()','derivative'])
prop('C06','Periodic dimensions are periodic on every evaluation path',
 'In a periodic dimension every coordinate is replaced by the coordinate in the base range that differs from it by a whole number of periods, where the period is the length of range(); so evaluation, checked evaluation, derivatives and evaluation proxies return the same value at x and x plus any multiple of the period. A non-periodic dimension\'s coordinate is used unchanged.',
 ['inputs','configurations'],'all coordinates on either side and any number of periods away, all entry points',
 'Tests shift a few points by one period on one entry point.',
 ['BSpline.hpp'],[('get_knot_iter','BSpline.hpp')],['operator()','at','derivative','derivative_at','eval_proxy'])
prop('C07','Interpolation is linear in the data, for any vector-space value type',
 'Construction, evaluation, derivatives and proxies only ever add, subtract and scale values of the value type by coordinate-type scalars, starting from zero; so results are linear in the interpolated data and any value type offering just those operations can be interpolated. No result depends on comparing, multiplying or converting data values.',
 ['inputs','programs','configurations'],'all data and all user value types that form a vector space over the coordinate type',
 'Tests use double and one float instance; no test can sample linearity over all data or all value types.',
 ['BSpline.hpp','BandLU.hpp','Interpolation.hpp','InterpolationTemplate.hpp'],[('value-type operations','BSpline.hpp'),('solve_in_place_impl','BandLU.hpp')],['InterpolationFunction<T,...>','InterpolationFunctionTemplate<T,...>'])
prop('C08','The interpolant passes through every data point',
 'In exact arithmetic, the spline defined by the control points and knots that construction produces takes the given data value at every data coordinate: for uniform and nonuniform grids, periodic or not, every order and every dimension, with the last point of a periodic dimension identified with the first. Data of each dimension is matched to its own axis.',
 ['inputs','configurations'],'all data values and coordinate ranges, for mesh shapes from the smallest solvable ones up',
 'Tests reconstruct a few meshes numerically with a tolerance, in one configuration (no dummy point, cell layout).',
 ['InterpolationTemplate.hpp','Interpolation.hpp','BandLU.hpp','BandMatrix.hpp','BSpline.hpp'],[('build_solver_','InterpolationTemplate.hpp'),('solve_for_control_points_','InterpolationTemplate.hpp')],['InterpolationFunction constructors','interpolate'])
prop('C09','Evaluating an interpolation function changes nothing and is thread-safe',
 'Evaluating, differentiating, range-checking or querying an interpolation function (or creating and calling an evaluation proxy) modifies neither the function nor any global, static or thread-local state. Therefore any number of threads may evaluate one function concurrently, and results never depend on earlier evaluations.',
 ['schedules','histories','inputs'],'all interleavings and evaluation histories on one object',
 'Tests evaluate from one thread and cannot enumerate interleavings or histories.',
 ['BSpline.hpp','Interpolation.hpp','Mesh.hpp'],[('const member functions','Interpolation.hpp'),('const member functions','BSpline.hpp')],['operator()','at','derivative','derivative_at','eval_proxy','range','periodicity','uniform'])
prop('C10','Objects own their data; copies, moves and proxies are independent',
 'Interpolation functions, templates, splines, meshes and evaluation proxies hold no pointer or reference to caller data, to the object they were made from or to temporaries. A copy or a proxy keeps working, unchanged, after the source data, the source object or the template is modified or destroyed.',
 ['histories','programs'],'all orders of copying, modifying and destroying the objects involved',
 'Lifetimes are a property of every client program; tests keep all objects alive to the end of one scope.',
 ['BSpline.hpp','Interpolation.hpp','InterpolationTemplate.hpp','Mesh.hpp','BandMatrix.hpp','BandLU.hpp'],[('data members','BSpline.hpp'),('eval_proxy closures','Interpolation.hpp'),('pre_calc_coef closure','BSpline.hpp')],['copy construction','eval_proxy'])
prop('C11','A template can be reused: interpolating never alters it',
 'Interpolating data with an lvalue template leaves the template unchanged and depends on nothing but the template and that data, so any sequence of interpolations yields the same functions as fresh templates would. Populating an existing function through the template gives exactly the function interpolation would have returned, whatever the target held before.',
 ['histories','schedules'],'all sequences (and concurrent use) of interpolations with one template and all previous states of the target',
 'Tests interpolate once or twice with one template.',
 ['InterpolationTemplate.hpp'],[('interpolate overloads','InterpolationTemplate.hpp'),('solve_for_control_points_','InterpolationTemplate.hpp')],['InterpolationFunctionTemplate::interpolate'])
prop('C12','Caller-owned inputs are never modified or moved from',
 'Data meshes, containers, iterator ranges, knot vectors, control points and matrices that the caller passes as lvalues or const hold the same values after construction, interpolation, evaluation, loading or factorisation as before. Only arguments explicitly given as rvalues may be consumed.',
 ['programs','inputs'],'all API entry points and value categories of arguments',
 'Tests rarely look at an argument again after passing it.',
 ['InterpolationTemplate.hpp','BSpline.hpp','BandLU.hpp','BandMatrix.hpp','Mesh.hpp'],[('interpolate','InterpolationTemplate.hpp'),('load_knots / load_ctrlPts','BSpline.hpp'),('compute / solve','BandLU.hpp')],['interpolate','load_knots','load_ctrlPts','BandLU::compute','BandLU::solve','BandMatrix::operator*'])
prop('C13','Mesh addressing is one row-major bijection on every access path',
 'For every mesh shape, element access by indices or index array, flat iteration, per-dimension begin/end iterators and conversions between flat and multi-dimensional index all agree on one row-major layout: distinct valid indices name distinct elements within storage, and converting an index to a position and back is the identity. Const and non-const variants agree, and per-dimension iterators visit exactly the elements that differ only in that dimension.',
 ['inputs','configurations'],'all mesh shapes, indices, dimensions and iterator operations',
 'Tests walk a few small meshes, mostly cubic ones, where transposed strides coincide.',
 ['Mesh.hpp'],[('indexing / indexing_safe / dimwise_indices / dim_acc_size','Mesh.hpp'),('begin/end/skip_iterator','Mesh.hpp')],['MeshDimension','Mesh'])
prop('C14','Band matrix elements live in distinct in-range slots and multiply correctly',
 'For every dimension and bandwidths, each element of the main bands and of the cyclic side bands of a band matrix maps to its own storage slot within bounds, identically for reading and writing, and all others are not stored. Multiplying a band matrix by a vector gives the ordinary matrix-vector product of the matrix those elements define.',
 ['inputs'],'all dimensions, band widths (including unequal ones), element values and vectors',
 'Tests use one or two symmetric-width matrices.',
 ['BandMatrix.hpp'],[('operator(), main_bands_val, side_bands_val, operator*','BandMatrix.hpp')],['BandMatrix','ExtendedBandMatrix'])
prop('C15','Band LU solves the system of the given matrix',
 'For every band or cyclically extended band matrix that admits LU factorisation without pivoting, factorising it and solving yields, in exact arithmetic, the vector x with A x = b, for containers, raw pointers and strided iterators alike. Solving out of place leaves the right-hand side alone, and a factorised solver may be reused for any number of right-hand sides.',
 ['inputs','configurations'],'all matrix entries and right-hand sides, for dimensions and unequal band widths where bands and side bands do or do not overlap',
 'Tests solve two fixed systems with equal band widths.',
 ['BandLU.hpp','BandMatrix.hpp'],[('compute_impl, solve_in_place_impl','BandLU.hpp')],['BandLU::compute','BandLU::solve','BandLU::solve_in_place'])
prop('C16','Every documented configuration builds and links',
 'Every combination of language standard (C++11 to C++20) and documented macros compiles and links for all public operations and the supported value and coordinate types, from any single public header and from several translation units at once. Coordinates and range ends of any arithmetic type are accepted wherever evaluation accepts them. No header needs another to be included first.',
 ['configurations','programs'],'all standards, macro combinations, element types, orders, dimensions and include orders',
 'The build compiles one standard with one macro set.',
 ['BSpline.hpp','BandLU.hpp','BandMatrix.hpp','DedicatedThreadPool.hpp','Interpolation.hpp','InterpolationTemplate.hpp','Mesh.hpp','aligned-allocator.hpp','util.hpp'],[('preprocessor branches','InterpolationTemplate.hpp')],['compiler and linker'])
prop('C17','Standards, layouts and diagnostic macros do not change results',
 'For the same inputs, builds that differ only in language standard, control-point layout, multithreading, logging or assertion macros produce the same knots, ranges, control points and evaluation results in exact arithmetic. The data given with and without the periodic dummy point describe the same function.',
 ['configurations','inputs'],'all pairs of configurations and all inputs',
 'Only one standard and macro set is ever built, so no two configurations are compared.',
 ['InterpolationTemplate.hpp','BSpline.hpp','Interpolation.hpp','util.hpp'],[('#if branches','InterpolationTemplate.hpp'),('INTP_ASSERT','util.hpp')],['all public results'])
prop('C18','Assertion builds reject invalid input before using it',
 'With assertions enabled, coordinate lists that are not strictly increasing, coordinate or data counts that disagree with the mesh or template, knot counts that disagree with the control points, mesh elements accessed by separate indices out of range and matrix positions outside the bands raise std::runtime_error, and no out-of-bounds access happens first. Valid input never raises it.',
 ['inputs','configurations'],'all invalid and valid inputs of the checked operations',
 'Tests feed no or one invalid input, and the release suite builds without assertions.',
 ['Interpolation.hpp','Mesh.hpp','BandMatrix.hpp','BSpline.hpp','InterpolationTemplate.hpp','util.hpp'],[('INTP_ASSERT','util.hpp')],['constructors','Mesh::operator()','BandMatrix::operator()'])
prop('C19','The thread pool is free of data races',
 'In every schedule of any number of submitting threads and the workers, all accesses to the pool\'s shared mutable state (task queues, termination flag, counters) are ordered by the mutex that guards that state, by atomics, or by thread start and join.',
 ['schedules'],'all interleavings of submission, execution, stealing, waiting and destruction',
 'A race shows up only in rare interleavings; the suite runs a few.',
 ['DedicatedThreadPool.hpp'],[('lock_type scopes','DedicatedThreadPool.hpp')],['queue_task','is_main_queue_empty','worker threads','destructor'],
 [('main_queue','pending tasks','DedicatedThreadPool.hpp'),('shared_working_queue::deq','per-worker tasks','DedicatedThreadPool.hpp'),('should_terminate','shutdown flag','DedicatedThreadPool.hpp')])
prop('C20','Every submitted task runs exactly once and its outcome reaches its future',
 'Each task submitted to a live pool is executed exactly once by some worker, never lost, duplicated or run under a pool lock, and its result or exception is delivered through the future returned for that very task. A worker never sleeps through a submission: whenever a task is pending some awake or notified worker will look for it.',
 ['schedules','histories'],'all interleavings of submissions, pops, steals and waits',
 'Lost wake-ups and double pops need rare interleavings.',
 ['DedicatedThreadPool.hpp'],[('queue_task, try_pop, try_steal, try_pop_from_main, thread_loop','DedicatedThreadPool.hpp')],['queue_task','futures'])
prop('C21','The pool shuts down cleanly in every schedule',
 'Destroying the pool, or failing while constructing it, makes every worker leave its loop and be joined before any state the workers use is destroyed, and no worker can miss the termination signal. Workers see fully constructed queues from their first step.',
 ['schedules','fault_sequences'],'all interleavings of shutdown with sleeping, waking and running workers; thread creation failing at any point',
 'The singleton is destroyed once per test process, almost always with all workers asleep.',
 ['DedicatedThreadPool.hpp'],[('constructor, destructor, JoinThreads','DedicatedThreadPool.hpp')],['constructor','destructor'])
prop('C22','Parallel sections never leave tasks running and surface their failures',
 'When control-point solving or cell-layout generation returns or exits by an exception, every task it submitted has finished, so no task touches data of a finished call. If any part of the work throws, the call throws instead of returning a partial result.',
 ['schedules','fault_sequences'],'all interleavings and all tasks or submissions that may throw',
 'Tests never make a task throw and cannot schedule a task to outlive its caller.',
 ['InterpolationTemplate.hpp','BSpline.hpp','DedicatedThreadPool.hpp'],[('solve_for_control_points_','InterpolationTemplate.hpp'),('generate_cell_layout','BSpline.hpp')],['interpolate','constructors'])
prop('C23','Parallel work is partitioned exactly, without overlap or gap',
 'For every mesh shape, the chunks handed to the thread pool and the remainder done by the caller cover every line of the mesh exactly once, and different chunks write disjoint elements. Multithreaded and sequential builds therefore compute the same control points in every schedule.',
 ['inputs','schedules'],'all mesh shapes and interleavings',
 'Tests use a few mesh sizes; an off-by-one in chunking shows only for particular counts.',
 ['InterpolationTemplate.hpp','BSpline.hpp'],[('solve_for_control_points_','InterpolationTemplate.hpp'),('generate_cell_layout','BSpline.hpp')],['interpolate'])
prop('C24','The aligned allocator honours the allocator contract',
 'For every element type and count, allocation returns storage of at least count elements aligned as requested, or throws std::bad_alloc when that is impossible (including a byte count that overflows), and deallocation releases exactly what allocation returned. Allocators compare equal only if one can release what the other allocated, and rebinding keeps the alignment.',
 ['inputs','fault_sequences'],'all element types, alignments, counts and allocation failures',
 'Tests never exhaust memory, check alignment or use the allocator directly.',
 ['aligned-allocator.hpp','util.hpp'],[('AlignedAllocator','aligned-allocator.hpp'),('default_init_allocator','util.hpp')],['AlignedAllocator'])
prop('C25','Cell layout stores, for every segment, exactly the control points it uses',
 'In cell-layout builds, the stored cell of every segment combination contains, in the order evaluation and proxies read them, the same control points that the plain layout would pick for that segment, with periodic dimensions wrapping around. The strides evaluation and proxies use are those the cells were stored with.',
 ['inputs','configurations'],'all mesh shapes, orders, dimensions and periodicity patterns',
 'Tests evaluate sampled points of a few shapes; only one layout is ever built.',
 ['BSpline.hpp'],[('generate_cell_layout, calculate_cell_dim_from_knots','BSpline.hpp')],['operator()','derivative','eval_proxy'])
prop('C26','Knots and range() follow from the coordinates as documented',
 'For every grid, the knot vector is nondecreasing, has exactly the number of knots its control points need, and is clamped at both ends of a non-periodic dimension or continued periodically in a periodic one. range() of a non-periodic dimension is exactly from the first to the last given coordinate, and for a periodic dimension spans exactly one period. The same holds when the ends or coordinates are given as integers or the two ends differ in arithmetic type.',
 ['inputs','configurations'],'all grids (uniform, nonuniform), orders, sizes and periodicities',
 'Tests check ranges of no or one function and knots of none.',
 ['Interpolation.hpp','BSpline.hpp'],[('create_knot_vector_','Interpolation.hpp'),('load_knots','BSpline.hpp')],['range','spline().knots_begin','spline().knots_num'])
prop('C27','Evaluation proxies give what direct evaluation gives',
 'In cell-layout builds, a proxy created by a template for a coordinate and applied to any function interpolated with that template returns what that function returns at that coordinate, for every coordinate, dimension, order and periodicity. All proxy overloads agree.',
 ['inputs','histories'],'all coordinates, templates, data sets and overloads',
 'Tests try a few proxies on one or two functions.',
 ['BSpline.hpp','Interpolation.hpp','InterpolationTemplate.hpp'],[('pre_calc_coef','BSpline.hpp'),('eval_proxy','InterpolationTemplate.hpp')],['eval_proxy'])
prop('C28','Results are accurate to rounding error',
 'In floating point, interpolation reproduces the data and evaluates the spline within a small multiple of machine precision for well-scaled grids.',
 ['inputs'],'all data and well-conditioned grids','Tests sample a few grids with a loose tolerance.',
 ['BandLU.hpp','BSpline.hpp'],[('elimination without pivoting','BandLU.hpp')],['operator()'])
prop('C29','Evaluation cost is independent of the mesh size for uniform grids',
 'With an accurate hint, evaluating on a uniform grid takes constant time, and on a nonuniform grid time logarithmic in the number of knots.',
 ['inputs'],'all mesh sizes','Tests do not bound time.',
 ['BSpline.hpp','Interpolation.hpp'],[('get_knot_iter','BSpline.hpp')],['operator()'])
prop('C30','The MATLAB interface returns what the C++ library returns',
 'Calling the MATLAB wrapper with a grid, data and query points yields the values the C++ interpolation function gives for them.',
 ['inputs'],'all wrapper calls','The wrapper is not built here at all.',
 ['Interpolation.hpp'],[('mexFunction','../../matlab/bspline.cpp')],['mexFunction'])
os.chdir(os.path.dirname(os.path.abspath(__file__)))
with open('properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
