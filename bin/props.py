"""What each check runs, and what its evidence says about itself."""
FN_REAL = ["all of src/Functions, src/Basis, src/GSpline.cpp, src/Interpolator.cpp, src/FunctionalAnalysis, src/Collocation, compiled from /repo's working tree"]
ALLOC = "the allocator (operator new/delete, malloc family) is the simulator's: real memory; exhaustion, contents and placement decided by the seed; no exhaustion inside Eigen's sparse factorisation and sparse growth, which are not failure safe themselves"
USER = "user-supplied function or basis written by the harness; the seed decides which call into it throws"
RANDOM = "std::random_device and std::rand: every value decided by the seed"
ASSUME = ["g++ -O1, x86-64, one floating-point mode", "values are compared with a long-double reference within a bound computed from the rounding a correct implementation may accumulate; points at junctions, outside a domain or beyond 1e12 are not judged"]
DISTINCT = "; distinct: by the whole choice sequence"

SOLVER = 'the external solver: a stand-in behind the ifopt interface whose outcome, callbacks, order and exceptions the seed decides; Problem, Composite and the component base classes are re-implemented after the ifopt 2.1 interface'
OPT_REAL = FN_REAL + ["src/Optimization (path functions, problem components, option table)"]

SCHED = "the thread scheduler: one thread runs at a time, the seed decides at which memory access it is preempted; mutexes, rwlocks, call_once and static initialisation are the simulator's"
TALLOC = "malloc: one arena per thread at fixed addresses, freed blocks poisoned and not reused"
THR_ASSUME = ["clang -O1, x86-64; accesses inside uninstrumented libraries (libstdc++, libm) are atomic steps, bulk copies are made in pieces", "sequentially consistent interleavings of the compiled code: reordering by the processor is not simulated", "results may differ by 1e-9 relative from the solo run"]
PY_REAL = FN_REAL + ["bindings/bindings.cpp, python/gsplines, CPython and pybind11"]

PROPS = {
    "C01": dict(target="sim", level="exploration", quick_s=40, thorough_s=900,
        rule="a run is a seeded history of 3-17 steps over a pool of functions (all operators, all value categories, copies, moves, in-place updates, derivatives up to total order 5), in half of the runs with allocation failures and throwing user functions inside steps; non-trivial: at least one operation produced a function that was compared with the reference model" + DISTINCT,
        feature="(operation, value categories, node kinds of the operands) triples reached",
        real=FN_REAL, stub=[ALLOC, USER], assumptions=ASSUME, must_reach=["alloc-fail", "user-function-throws", "incompatible-operands"]),
    "C02": dict(target="sim", level="fault_enumeration", quick_s=45, thorough_s=900,
        rule="a run is a short seeded program on functions, splines, bases, interpolators, costs or collocation operators, run first without faults and then again with every allocation of every operation failing in turn (once, or from there on) and every call into user code throwing in turn, each failure followed by a comparison of all operands with the reference and by a retry; non-trivial: at least one failure fired" + DISTINCT,
        feature="(operation, operand kinds) combinations whose failure points were enumerated",
        real=FN_REAL, stub=[ALLOC, USER], assumptions=ASSUME + ["no exhaustion inside Eigen's sparse factorisation"], must_reach=["alloc-fail", "alloc-fail-sticky", "user-function-throws", "refused-operands"]),
    "C03": dict(target="sim", level="fault_enumeration", quick_s=40, thorough_s=900,
        rule="a run is a seeded program with failures (one per step, or every failure point of every step), executed five times with the same choices in one process; the blocks held after each repetition are counted; non-trivial: all five repetitions ran to the end" + DISTINCT,
        feature="(operation, operand kinds) combinations that failed",
        real=FN_REAL, stub=[ALLOC, USER], assumptions=["a leak is growth at every repetition after the first two; one-time caches are not leaks"], must_reach=["alloc-fail", "user-function-throws"]),
    "C04": dict(target="sim", level="exploration", quick_s=40, thorough_s=900,
        rule="a run is a seeded sequence of 2-17 requests (interpolation, coefficients, sensitivity) on up to three long-lived interpolators over four kinds of basis, including refused, exactly singular and failing requests; every answer is put into the defining equations in extended precision; non-trivial: at least one answer was judged" + DISTINCT,
        feature="(request kind, kind of bad data, intervals, codomain, basis) combinations",
        real=FN_REAL, stub=[ALLOC, USER], assumptions=ASSUME, must_reach=["alloc-fail", "singular-request", "refused-operands", "user-function-throws"]),
    "C05": dict(target="sim", level="exploration", quick_s=40, thorough_s=900,
        rule="a run is a seeded sequence of 2-13 evaluations of cost and gradient on up to three long-lived cost objects, including refused, singular and failing ones; each result is compared with an extended-precision solve and quadrature; non-trivial: at least one result was judged" + DISTINCT,
        feature="(request kind, weights, intervals, codomain, basis) combinations",
        real=FN_REAL, stub=[ALLOC, USER], assumptions=ASSUME + ["gradients of the exponential basis for orders the library declares unavailable may be refused"], must_reach=["alloc-fail", "singular-request", "refused-operands"]),
    "C06": dict(target="sim", level="exploration", quick_s=40, thorough_s=900,
        rule="a run is a seeded sequence of 2-25 requests (evaluations, derivative blocks, spline-derivative, continuity and energy matrices) on up to six bases, their copies and moved versions and bases inside splines, including refused and failing ones; each answer is compared with the definition and with a fresh basis; non-trivial: at least one answer was judged" + DISTINCT,
        feature="(request kind, order, intervals, codomain, basis) combinations",
        real=FN_REAL, stub=[ALLOC], assumptions=ASSUME, must_reach=["alloc-fail", "refused-operands"]),
    "C11": dict(target="sim", level="exploration", quick_s=40, thorough_s=900,
        rule="a run is a seeded history over a pool of generalized and collocation splines (arithmetic, products, powers, time scaling, derivatives, conversions, copies, moves, in-place assignments), with refused and failing steps; every live spline is compared with the reference after each step; non-trivial: at least one operation was judged" + DISTINCT,
        feature="(operation, operand kinds, shapes) combinations",
        real=FN_REAL, stub=[ALLOC, USER], assumptions=ASSUME, must_reach=["alloc-fail", "refused-operands"]),
    "C12": dict(target="sim", level="exploration", quick_s=40, thorough_s=900,
        rule="a run is a seeded program executed four times in one process with the same choices while fresh memory holds zeros, NaNs, large rubbish or plausible numbers, blocks are placed differently, and unrelated programs ran before; all returned values are compared between the executions; non-trivial: values were compared" + DISTINCT,
        feature="(operation, operand kinds) combinations",
        real=FN_REAL, stub=[ALLOC, USER], assumptions=["values may differ by 1e-6 relative: summation order depends on alignment", "stack contents are not varied separately"], must_reach=["fresh-memory-nan", "fresh-memory-rubbish", "blocks-moved", "unrelated-activity"]),
    "C13": dict(target="sim", level="exploration", quick_s=30, thorough_s=600,
        rule="a run asks for 1-4 random splines while the random source follows one of eight policies (random, all lowest, all highest, alternating, ...), fails, or memory runs out; non-trivial: a spline was returned and judged" + DISTINCT,
        feature="(number of intervals, basis, source policy) combinations",
        real=FN_REAL, stub=[ALLOC, RANDOM], assumptions=ASSUME + ["domains between 0.05 and 30 long"], must_reach=["random-source-fails", "alloc-fail"]),
    "C09": dict(target="sim", level="exploration", quick_s=40, thorough_s=900,
        rule="a run is a seeded sequence of 1-6 calls of the path functions and of optimal_sobolev_norm while the solver makes seeded callbacks and then ends with any status, any final iterate or an exception, half of the runs with allocation failures anywhere in the call; non-trivial: the answer to at least one solver outcome was judged" + DISTINCT,
        feature="(path kind, waypoints, solver status, kind of outcome, answer) combinations",
        real=OPT_REAL, stub=[SOLVER, ALLOC], assumptions=ASSUME + ["interpolation residuals are judged relative to the size of the coefficients"], must_reach=["alloc-fail", "solver-fails", "solver-throws", "solver-option-throws", "unusable-iterate", "refused-operands"]),
    "C15": dict(target="sim", level="exploration", quick_s=40, thorough_s=900,
        rule="a run is a seeded interleaving of solves, option changes and solver callbacks (cost, gradient, constraint, constraint gradient, set) on up to three problems alive at once and on the problems the path functions hand to the solver, with unusable iterates and failing callbacks; every answer is compared with an extended-precision computation for the variables set last, every solve's options with a reference table; non-trivial: at least one callback answer was judged" + DISTINCT,
        feature="(callback, path kind, waypoints, outcome) combinations",
        real=OPT_REAL, stub=[SOLVER, ALLOC], assumptions=ASSUME, must_reach=["alloc-fail", "callback-fails", "unusable-iterate"]),
    "C16": dict(target="sim", level="exploration", quick_s=40, thorough_s=900,
        rule="a run is a seeded history of 6-14 steps over a pool of up to six collocation operators (built, updated in place with accepted, refused and failing data, copied, combined, replaced, applied); after each step every operator is compared with its pointwise definition in extended precision and with one built afresh; non-trivial: at least one in-place update was accepted" + DISTINCT,
        feature="(step, kinds and shapes of the pool) combinations",
        real=FN_REAL, stub=[ALLOC, USER], assumptions=ASSUME + ["the sign convention of a continuity error is not judged"], must_reach=["alloc-fail", "refused-operands", "user-function-throws"]),
    "C07": dict(target="thr", level="exploration", quick_s=45, thorough_s=900,
        rule="a run is a seeded program of 2-3 threads with 1-3 operations each, every thread on objects of its own (made beforehand, some as copies of one original); it is run thread by thread alone, then one thread after the other, and then under 1-24 seeded schedules that switch at chosen memory accesses, aimed at places several threads touch; non-trivial: at least one thread was preempted inside an operation" + DISTINCT,
        feature="(operation preempted, operation resumed, position) triples and schedule shapes",
        real=FN_REAL + ["real threads; the library compiled with a callback at every load, store and branch"], stub=[SCHED, TALLOC],
        assumptions=THR_ASSUME, must_reach=["preemption", "thread-stalled"]),
    "C08": dict(target="thr", level="exploration", quick_s=45, thorough_s=900,
        rule="a run is a seeded program of 2-3 threads with 1-3 read-only operations each on shared functions, splines and bases; it is run thread by thread alone, then one thread after the other, and then under 1-24 seeded schedules that switch at chosen memory accesses, aimed at places several threads touch; non-trivial: at least one thread was preempted inside an operation" + DISTINCT,
        feature="(operation preempted, operation resumed, position) triples and schedule shapes",
        real=FN_REAL + ["real threads; the library compiled with a callback at every load, store and branch"], stub=[SCHED, TALLOC],
        assumptions=THR_ASSUME + ["continuity_matrix and gspline_derivative_matrix of a shared basis object are not called: they return a reference to a buffer of the basis and are documented by their signature as single-user"], must_reach=["preemption", "thread-stalled"]),
    "C10": dict(target="py", level="exploration", quick_s=40, thorough_s=900,
        rule="a run stores one or two splines or bases as plain records, damages the stored record in 0-2 places (or tears the write), reads it back and repeats; an intact record must come back exactly, a damaged one must be refused or be reproduced field by field by a self-consistent object; non-trivial: at least one record was read back" + DISTINCT,
        feature="(record kind, kinds and places of damage, answer) combinations",
        real=PY_REAL, stub=["storage: an in-memory store whose damage the seed decides"], assumptions=["unknown extra fields of a record are ignored", "interval lengths and domain may differ by 1%"], must_reach=["field-lost", "field-truncated", "field-mistyped", "torn-write"]),
    "C14": dict(target="py", level="exploration", quick_s=40, thorough_s=900,
        rule="a run is a seeded sequence of calls through the Python module that return arrays, interleaved with releases of the objects, collections and re-reads of every array obtained so far; memory released by the library is overwritten at once; non-trivial: at least one array was re-read after a later call or release" + DISTINCT,
        feature="(call, kinds of arrays alive) combinations",
        real=PY_REAL, stub=["malloc and free of the extension module: released blocks are overwritten at once and not used again"], assumptions=["only arrays returned by calls are judged, not arrays passed into Python callbacks during a call"], must_reach=["object-released", "collection"]),
}
