#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Parallel element-wise evaluation equals sequential evaluation",
 "Every parallel element-wise function returns a vector of the input's length whose i-th element is bit-for-bit what the sequential function gives for the i-th input element, for any number of threads and any interleaving. Each input element is evaluated exactly once, the input is left unchanged, and no two threads touch the same memory without synchronisation.",
 ["schedules", "inputs", "configurations"],
 "for every team size granted by the OpenMP runtime, every assignment of iterations to threads, every interleaving of their memory accesses, every vector type and length (including 0, 1, fewer elements than threads, and lengths not divisible by the team)",
 "The test suite never calls the parallel functions; one run under real OpenMP samples one schedule at one team size.",
 ["src/algebra/parallel.h"],
 [("work-sharing loops that write one distinct result slot per iteration", "src/algebra/parallel.h")],
 observe=["returned vector", "argument vector after the call", "calls made to the user function"])

prop("C02", "Calls on independent data never interfere, whatever ran before or alongside",
 "A library call made on data no other thread is using returns bit-for-bit the same value and the same error status as the same call made alone in a fresh process, no matter which other library calls ran earlier in the same thread or run concurrently in other threads. Such calls share no mutable state (no data race), touch only memory that belongs to them, leave the thread's floating-point environment and stream formatting as they found it, and never depend on uninitialised memory, the clock or an ambient random source.",
 ["schedules", "histories", "inputs"],
 "for every set of caller threads, every sequence of calls in each, and every interleaving of their memory accesses, over all modules of the library",
 "Tests call each function on one thread in one order; hidden caches, static locals, stale buffers and races only show under another history or interleaving.",
 ["src/core", "src/algebra", "src/autodiff", "src/complex", "src/polynomial", "src/interpolation", "src/calculus", "src/optimization", "src/statistics", "src/pseudorandom", "src/signal"],
 [("header-only functions without global mutable state", "src/**"), ("thread-local error indicator", "src/core/error.h")],
 observe=["return values", "errno", "floating point control state", "heap accesses"])

prop("C03", "Each random generator's stream is isolated and reproducible",
 "The sequence of words, samples, shuffles and Monte Carlo results obtained through one generator object depends only on how that generator was created and on the operations performed with it. Using any other generator, in the same thread before or between the operations or concurrently in other threads, never changes it, two generators created and used identically give identical sequences, and a sampler object draws from the very generator it was given.",
 ["schedules", "histories", "configurations"],
 "for every interleaving of operations on several generators in one or many threads, over all generator algorithms, all samplers and all Monte Carlo estimators",
 "The pseudorandom test file is empty and no test uses two generators together; a sampler that keeps a value between calls looks correct when only one generator exists.",
 ["src/pseudorandom/prng.h", "src/pseudorandom/pseudorandom.h", "src/pseudorandom/sampling.h", "src/pseudorandom/montecarlo.h"],
 [("generator state lives in the generator object", "src/pseudorandom/prng.h"), ("samplers take the generator by reference", "src/pseudorandom/sampling.h")],
 state=[("PRNG object", "function, last word, parameters", "src/pseudorandom/prng.h")])

prop("C04", "Generators follow their documented recurrences across save, restore and reseed",
 "Each built-in generator (linear congruential, xoshiro256++, splitmix64, wyrand, middle-square) emits exactly the words its documented recurrence gives for its seed and parameters in 64-bit arithmetic, starting from any state (the splitmix64 generator iterates the splitmix64 function on its own output). Copying a generator, saving its function, last word and parameters and rebuilding it from them after a crash, skipping words, or re-seeding it at any point continues exactly the corresponding stream; re-seeding a generator that was created from a seed restarts the stream the (non-zero) new seed gives.",
 ["histories", "crash_points", "inputs"],
 "for every seed, every sequence of draw / skip / copy / re-seed / parameter-change operations and every crash point at which only the saved state survives",
 "No test draws from a generator and compares with a reference, and none restores a saved one.",
 ["src/pseudorandom/prng.h", "src/pseudorandom/pseudorandom.h", "src/core/bit_op.h"],
 [("generator step functions", "src/pseudorandom/pseudorandom.h"), ("factory functions, seed(), discard(), accessors", "src/pseudorandom/prng.h")],
 state=[("x, param", "the complete durable state of a generator", "src/pseudorandom/prng.h")])

prop("C05", "Samplers stay in their support for any stream of random words",
 "Whatever words the generator delivers, including repeated zeros, all ones, alternating or stuck values, every distribution sampler consumes a bounded number of them and returns a finite value inside the support of its distribution, or a not-a-number result with the error reported. Once the stream delivers ordinary words again, the sampler returns ordinary samples at once, each the documented transform of the words it consumed.",
 ["fault_sequences", "inputs", "histories"],
 "for every sequence of 64-bit words returned by the generator, with degenerate bursts of bounded length at any position, and all valid distribution parameters",
 "Tests draw a handful of samples from one healthy generator; the edge words (exact 0 or 1 uniforms) occur about once in 2^30 draws.",
 ["src/pseudorandom/sampling.h"],
 [("uniform transform", "src/pseudorandom/sampling.h rand_uniform"), ("inverse-transform and polar samplers", "src/pseudorandom/sampling.h")],
 observe=["returned samples", "number of words consumed", "errno"])

prop("C06", "Monte Carlo estimates are exactly what their sample history implies",
 "A Monte Carlo or quasi-Monte Carlo estimator asked for N samples evaluates the integrand exactly N times, only at points of the requested region generated from the words it drew (or the deterministic low-discrepancy sequence), and returns volume times the mean, or the (signed) fraction of points between the axis and the graph times the bounding volume, of exactly those evaluations up to rounding. A Monte Carlo sample of a function of random variables draws every variable once per point, in order, and returns exactly the function values.",
 ["histories", "fault_sequences", "inputs"],
 "for every generator stream (healthy or degenerate), every integrand behaviour, region and sample count",
 "No test exercises these estimators with an observed history; statistical agreement on one smooth integrand cannot see an off-by-one in the sample count or a wrong sign region.",
 ["src/pseudorandom/montecarlo.h", "src/pseudorandom/quasirandom.h"],
 [("estimator loops", "src/pseudorandom/montecarlo.h"), ("Weyl sequences", "src/pseudorandom/quasirandom.h")])

prop("C07", "Accept-reject and Metropolis samplers obey their acceptance rule",
 "A rejection-based sampler returns only a proposed point that satisfied its acceptance condition, tries at most the allowed number of proposals, and otherwise reports non-convergence with a not-a-number result. A Metropolis walk performs exactly the requested number of steps, moves to a proposal only with the Metropolis acceptance rule for the uniform it drew, and so started inside the support never ends at a point of zero density.",
 ["fault_sequences", "histories", "inputs"],
 "for every generator stream including degenerate words, every density callback behaviour and every limit",
 "No test calls these samplers; the boundary draws that decide acceptance at equality have probability about 2^-30.",
 ["src/pseudorandom/sampling.h"],
 [("rand_trycatch, rand_rejectsamp", "src/pseudorandom/sampling.h"), ("metropolis", "src/pseudorandom/sampling.h")])

prop("C08", "Reading data from a stream ends and keeps exactly the valid lines",
 "Reading a data column from an input stream always terminates: at the terminator line, at end of input, or when the stream fails, however the bytes arrive. It returns, in order and once each, exactly the values of the parseable non-empty complete or final lines delivered before that point, skips unparseable lines without losing neighbours, consumes nothing beyond the terminator line, and is independent of how the bytes were chunked.",
 ["fault_sequences", "inputs", "crash_points"],
 "for every input text, every chunking of reads, every position of end of file, stream error or throwing read, every set of unparseable lines and every terminator",
 "Nothing in the test suite reads a stream; EOF without terminator, a failed device or a bad line at a chunk boundary are never produced.",
 ["src/utility.h"],
 [("line loop with terminator and parse-error recovery", "src/utility.h readln")],
 observe=["returned vector", "stream position and state"])

prop("C09", "Printing to a failing sink never corrupts the object or hides the failure",
 "Printing any printable object (vector, matrix, complex, phasor, quaternion, dual numbers, polynomial, ratio, histogram, linear model, ODE solution, error, and the print helpers) writes exactly its string conversion: on a sink that fails after any number of bytes, the accepted bytes are a prefix of that text and the stream reports the failure. The printed object, and the stream's own formatting settings, are unchanged, nothing reaches any other stream, and printing again to a healthy sink gives the complete text.",
 ["fault_sequences", "inputs"],
 "for every printable type and value and every byte position, short write or exception at which the sink fails",
 "Tests print only to a healthy standard output and never compare the text.",
 ["src/algebra/vec.h", "src/algebra/mat.h", "src/complex", "src/autodiff", "src/polynomial/polynomial.h", "src/statistics/regression.h", "src/calculus/ode.h", "src/core/ratio.h", "src/statistics/histogram.h", "src/utility.h"],
 [("to_string and operator<<", "each printable class"), ("print, fprint, println, fprintln", "src/utility.h")])

prop("C10", "Memory exhaustion at any point is reported and harms nothing",
 "If a memory allocation fails at any point inside a library call, the call fails with the standard out-of-memory exception (unless it still returns exactly the undisturbed result), frees everything it had allocated, and leaves its input arguments and all unrelated objects unchanged. An object that the call was changing stays usable: it can be read, changed again and destroyed. Repeating the same call once memory is available gives exactly the result of an undisturbed call.",
 ["fault_sequences", "crash_points", "inputs"],
 "for every allocating operation of the library and every allocation inside it (first, any, or several in a row) failing",
 "No test makes an allocation fail.",
 ["src/algebra/vec.h", "src/algebra/mat.h", "src/algebra/algebra.h", "src/polynomial/polynomial.h", "src/interpolation/splines.h", "src/statistics/histogram.h", "src/calculus/ode.h", "src/signal/fft.h", "src/autodiff"],
 [("container members own all memory (RAII)", "src/algebra/vec.h, src/algebra/mat.h")])

prop("C11", "An exception thrown by user code passes through every algorithm cleanly",
 "If a user-supplied function throws at any of its evaluations, the sequential algorithm that was calling it stops evaluating it and that same exception reaches the caller unchanged. Nothing leaks, inputs keep their values, and running the algorithm again with a healthy function gives exactly the result of a run that was never disturbed.",
 ["fault_sequences", "crash_points", "inputs"],
 "for every algorithm that takes a function (integration, differentiation, root finding, optimisation, ODE, automatic differentiation, sampling, Monte Carlo, element-wise application) and every evaluation index at which it throws",
 "No test passes a throwing function.",
 ["src/calculus", "src/optimization", "src/autodiff/autodiff.h", "src/core/dataset.h", "src/pseudorandom", "src/statistics", "src/interpolation"],
 [("no catch-all around callbacks, RAII everywhere", "src/**")])

prop("C12", "Iterative algorithms stop within their budget whatever the function does",
 "Every iterative algorithm that takes a user function (root finding, minimisation, maximisation, adaptive or fixed-order integration, ODE solving, differentiation, rejection sampling) returns after at most its stated iteration limit, up to a fixed small number of evaluations per iteration, even if the function returns not-a-number, infinite, constant, random or inconsistent values at any evaluation. When a root finder exhausts the limit without meeting its stopping condition it says so with a not-a-number result and an error.",
 ["fault_sequences", "inputs", "histories"],
 "for every sequence of values returned by the callback, including values that change between evaluations at the same point, and every iteration limit and tolerance",
 "Tests use smooth, well-behaved functions that converge in a few steps.",
 ["src/optimization/roots.h", "src/optimization/extrema.h", "src/optimization/multi_roots.h", "src/optimization/multi_extrema.h", "src/calculus/integral.h", "src/calculus/ode.h", "src/pseudorandom/sampling.h"],
 [("iteration counters and OPTIMIZATION_*_ITER limits", "src/optimization/roots.h, src/core/constants.h")])

prop("C13", "A root finder never reports a root its evaluations do not support",
 "When a root finder (for one equation or a system of any fixed or variable size) returns a number without signalling an error, the values it observed support that number: the function was seen to be within tolerance of zero there (or the number is the method's own next step from such a point), or to change sign across a bracket no wider than twice the tolerance around it. Not-a-number evaluations never count as support, a search that fails returns not-a-number with an error, and an initial bracket without a sign change is refused with an error, while one with a sign change of a continuous finite function is resolved.",
 ["fault_sequences", "histories", "inputs"],
 "for every function of x, including ones with not-a-number, infinite or perturbed values at arbitrary points, every bracket and starting point, tolerance and limit",
 "Root-finding tests use functions that are finite everywhere on the bracket.",
 ["src/optimization/roots.h"],
 [("stopping conditions and bracket updates", "src/optimization/roots.h")])

prop("C14", "Errors are reported to exactly the caller that caused them",
 "A call whose arguments violate its documented domain reports the error: by the thread's error indicator together with a not-a-number or otherwise documented result in the default configuration, and by an exception carrying the error code in the exception-throwing configurations (which in exceptions-only mode leaves the indicator untouched); a call whose arguments lie inside it reports none. The report is seen by the failing caller only: a successful call in any other thread neither sets nor clears an indicator, and a successful call never clears one already set.",
 ["schedules", "histories", "configurations", "inputs"],
 "for every mix of failing and succeeding calls in any number of threads and every interleaving, in each of the three error-handling configurations",
 "Tests check returned NaN values on one thread in the default configuration only.",
 ["src/core/error.h", "src/core/real_analysis.h", "src/algebra/algebra.h", "src/statistics", "src/optimization", "src/pseudorandom"],
 [("error macro", "src/core/error.h")],
 observe=["errno", "math_exception"])

prop("C15", "Histogram contents depend only on the set of points accepted",
 "A histogram fed point by point counts every point inside its range exactly once in the bin containing it and ignores every other value, including not-a-number and infinities, so the bin counts always sum to the number of points. Count, minimum, maximum, mean and sum of squares match those of the accepted points (up to rounding) after every insertion, for any order of delivery, and equal those of a histogram built at once from the same data. Its text form lists every bin in order with its position (middle or lower extreme) and its count or fraction.",
 ["histories", "fault_sequences", "inputs"],
 "for every stream of points delivered in any order with loss, duplication, bursts and corrupted (not-a-number, infinite, out-of-range, boundary) values",
 "No test touches histograms.",
 ["src/statistics/histogram.h"],
 [("insert with running Welford statistics", "src/statistics/histogram.h"), ("bin index", "src/statistics/histogram.h")],
 state=[("bin_counts, N, value_min/max, run_average, run_tss", "accumulated state", "src/statistics/histogram.h")])

prop("C16", "Shuffling permutes and never loses elements, for any random stream",
 "Shuffling a collection always leaves a permutation of the original elements, draws exactly two words per round for the requested (or default) number of rounds, and exchanges exactly the elements those words select. This holds for any stream of random words and any size including one element; an empty collection is refused with an error and left empty; an exception thrown while copying an element loses none of the others.",
 ["fault_sequences", "histories", "inputs"],
 "for every generator stream, collection type, size and round count",
 "No test shuffles anything.",
 ["src/pseudorandom/prng.h"],
 [("shuffle", "src/pseudorandom/prng.h")])

prop("C17", "ODE trajectories are complete, consistent and restartable anywhere",
 "Every fixed-step ODE solver returns the full trajectory: equally many times and states, starting at the initial condition, times strictly increasing, t0 + i h up to rounding, and ending exactly at the final time. Each recorded state is the documented single step of the recorded state (or states) before it, so restarting from any recorded point, e.g. after a crash that kept only that point, reproduces the rest of the trajectory up to rounding; derivative evaluations happen only inside the time interval of the step.",
 ["crash_points", "histories", "inputs"],
 "for every solver, step size (including ones that do not divide the interval), interval, initial state, dimension and every crash point at which only the recorded prefix survives",
 "The calculus test compares a few end values with an exact solution at one step size.",
 ["src/calculus/ode.h"],
 [("solver loops and single-step functions", "src/calculus/ode.h")],
 state=[("ode_solution", "recorded times and states: the durable state", "src/calculus/ode.h")])

prop("C18", "Constant objects can be read by any number of threads at once",
 "Any number of threads may concurrently read one and the same constant object (vector, matrix, polynomial, spline, histogram, complex, phasor, quaternion, dual or multidual number, ODE trajectory, ratio, generator, or any data set passed to an algorithm by constant reference) without data races. Each reader gets exactly what it would get alone, and the object is bit-for-bit unchanged.",
 ["schedules", "inputs"],
 "for every object, every number of reader threads, every choice of read-only operations and every interleaving of their memory accesses",
 "No test shares an object between threads; a hidden cache or scratch buffer behind a read-only operation is invisible single-threaded.",
 ["src/algebra/vec.h", "src/algebra/mat.h", "src/polynomial/polynomial.h", "src/interpolation/splines.h", "src/statistics", "src/complex", "src/autodiff", "src/signal/fft.h"],
 [("const member functions without mutable members", "src/**")])

prop("C19", "User functions may call the library: algorithms are re-entrant",
 "An algorithm that evaluates a user-supplied function gives bit-for-bit the same result, error status and number of evaluations whatever library calls that function makes during any of its evaluations, including calls of the very same algorithm on other data, several levels deep. Such an inner call gives exactly what it gives when made on its own.",
 ["schedules", "histories", "inputs"],
 "for every algorithm that takes a function, every evaluation at which the function uses the library, every operation it makes there, and every nesting of such calls",
 "Tests pass plain arithmetic functions; a scratch buffer or a saved value shared by nested calls of one thread is correct for every test that does not nest, in any number of threads.",
 ["src/calculus", "src/optimization", "src/autodiff", "src/pseudorandom", "src/interpolation", "src/statistics", "src/algebra", "src/core/dataset.h"],
 [("all working storage of an algorithm is local to the call", "src/**")],
 observe=["return values", "errno", "number of evaluations"])

prop("C20", "Vectors, matrices, polynomials and numbers are independent values",
 "Vectors, matrices and polynomials (of fixed or variable size), complex numbers, phasors, quaternions and dual numbers behave as independent values over any history of operations: an operation changes only the object it is applied to and gives its mathematical result in every form (compound or binary operator, member or free function, number on either side, read or written through elements or iterators), also when an operand is the object itself, when objects are empty, constructed or converted from one another, copied, moved, swapped, resized (elements keep their position, new ones are zero) or of mismatched size, and after an operation that ran out of memory. Comparison agrees with the values, the roots of a quadratic polynomial are roots, derivatives and integrals of polynomials (as polynomials, at a point or over an interval) are exact up to rounding, and a rotation is the same by quaternion, product of quaternions or matrix.",
 ["histories", "inputs", "fault_sequences"],
 "for every sequence of operations on a pool of objects, every choice of operands including the object itself, and every allocation that may fail in it",
 "Tests apply one operation to fresh, distinct operands; a result that uses an already updated operand, an element misplaced by a change of size or a copy that shares storage appears only with particular operands or after particular earlier operations.",
 ["src/algebra/vec.h", "src/algebra/mat.h", "src/algebra/algebra.h", "src/polynomial/polynomial.h", "src/complex/complex.h", "src/complex/phasor.h", "src/complex/quat.h", "src/autodiff/dual.h", "src/autodiff/dual2.h", "src/autodiff/multidual.h"],
 [("operands are read before the object is modified", "src/autodiff/dual.h, src/complex/complex.h"), ("each object owns its storage", "src/algebra/mat.h, src/algebra/vec.h, src/polynomial/polynomial.h"), ("sizes are checked before elements are used", "src/algebra/algebra.h")],
 observe=["elements and sizes of every object"])

prop("C21", "Linear algebra results do not depend on what their destinations held",
 "Over any history of calls that reuse matrices and vectors as destinations, holding the results of earlier calls, of other sizes, or left by calls that ran out of memory: LU and Cholesky factors are triangular and multiply back to the matrix, solutions satisfy their system, inverses invert, determinants, products, transposes, Hermitian conjugates, sums and linear combinations are those of the operands, and an eigenpair satisfies its equation or the failure is reported. This holds for every form of a call (by value, into a destination, in place), for real and complex elements and for fixed and variable sizes, and no call changes an operand it takes as constant. (Matrices for which elimination without pivoting is stable.)",
 ["histories", "inputs", "fault_sequences"],
 "for every sequence of calls on shared destination objects, every previous contents and size of a destination, and every allocation that may fail",
 "Tests call each routine once with fresh destinations of the right size; elements a routine forgets to overwrite, or a form of a call that differs from the others, never show there.",
 ["src/algebra/algebra.h", "src/algebra/mat.h", "src/algebra/vec.h"],
 [("destinations are resized and fully overwritten", "src/algebra/algebra.h"), ("in-place, destination and value forms agree", "src/algebra/algebra.h, src/algebra/mat.h"), ("eigensolvers check convergence", "src/algebra/algebra.h")],
 observe=["elements and sizes of results and operands", "errno"])

prop("C22", "An optimiser never reports an extremum its evaluations do not support",
 "When a minimiser or maximiser returns a point without signalling an error, the values it observed support it. Golden section: the point lies in the given interval, within the tolerance of the best value seen, and at the extremum if there is only one (an end of the interval included). Newton and bisection: the derivative was seen to vanish there within tolerance, or to change sign around it, and the second derivative there is not of the wrong sign and not a not-a-number. Gradient methods: the search starts from the given point, the gradient was seen to be no longer than the requested tolerance one step before the point, and the steps go downhill for minima and uphill for maxima, default arguments included. A search that fails, or whose function or gradient turns out not to be a number where it matters, returns not-a-number with an error; an invalid interval or step is refused; a function with exactly one extremum of the right kind is not given up on.",
 ["inputs", "histories", "fault_sequences"],
 "for every function, including ones with kinks, plateaus, several extrema or regions where it or its derivatives are not a number, every interval, starting point, step, tolerance and iteration limit",
 "Tests minimise a few smooth functions with default arguments; a tolerance that is ignored, a maximiser that descends or a faulty evaluation taken for an extremum does not show there.",
 ["src/optimization/extrema.h", "src/optimization/multi_extrema.h"],
 [("stopping conditions and second-derivative tests", "src/optimization/extrema.h"), ("gradient steps, tolerance and iteration limit", "src/optimization/multi_extrema.h")],
 observe=["returned points", "errno", "evaluations of the user function"])

prop("C23", "Numerical integrals and derivatives are exactly the documented rule",
 "For any user function, even one whose values jump arbitrarily from point to point or are infinite or not a number at some of them, a quadrature or differentiation formula evaluates the function only at the points of the rule it is named after and returns the weighted sum of the values seen there: midpoint, trapezoid and Simpson sums (an odd number of Simpson steps is rounded up), Romberg extrapolation to an order or to a tolerance, Gauss rules with given points and weights, Gauss-Legendre, Laguerre and Hermite rules of any number of points offered, integrals to infinity by steps, and forward, backward, central, Ridders and second difference formulas. A value that is not a number at a point of the rule is never hidden, reversing the interval changes the sign, invalid orders and mismatched points and weights are refused with an error, and a call interrupted by an exception of the function leaves nothing behind.",
 ["inputs", "fault_sequences", "histories"],
 "for every function, interval (reversed, tiny, huge or far from the origin), number of steps or points, order, tolerance, and every evaluation at which the function misbehaves",
 "Tests integrate a few smooth functions with default step counts, for which a wrong point or weight, a rule wrong for particular numbers of points or a skipped faulty value is within the tolerance or not exercised.",
 ["src/calculus/integral.h", "src/calculus/deriv.h", "src/calculus/gauss.h", "src/polynomial/orthogonal.h"],
 [("points and weights of each rule", "src/calculus/integral.h, src/calculus/gauss.h"), ("roots and weights of the orthogonal families", "src/polynomial/orthogonal.h"), ("finite difference formulas", "src/calculus/deriv.h")],
 observe=["return values", "errno", "points at which the user function is evaluated"])

prop("C24", "Fitted models and interpolants describe exactly their latest data",
 "Over any history of fits, a linear model, a spline or an interpolating polynomial describes the data it was given last and nothing else. A linear model holds the least squares line of those data in every form (plain, with one uncertainty, with an uncertainty per point, with uncertainties of both coordinates), with the covariance matrix, uncertainties, error, chi-squared, degrees of freedom and p-value that belong to it, and equals a new model fitted to the same data; data that must be refused (mismatched, too few, all at one abscissa, with a null uncertainty) leave it without results and with an error reported, not with those of an earlier fit. The free regression functions agree with it. A spline passes through its nodes, is the natural cubic spline for any spacing, and its derivative is the derivative of that spline; copying or refitting one leaves the others alone, and if memory runs out it keeps describing its former data. Interpolating polynomials evaluate the function once at each node and nowhere else, pass through the values seen, never hide one that is not a number, and refuse repeated abscissas.",
 ["histories", "inputs", "fault_sequences"],
 "for every sequence of fits, refits, copies and refused data on the same objects, every number and spacing of points, every allocation that may fail and every evaluation at which the function throws, misbehaves or makes fits of its own",
 "Tests fit one fresh model to a few well behaved points, check the intercept and slope, and use equally spaced nodes; results left over from an earlier fit, wrong second coefficients and spacing errors do not show there.",
 ["src/statistics/regression.h", "src/interpolation/splines.h", "src/interpolation/polynomial.h", "src/core/dataset.h"],
 [("every field is set by every fit", "src/statistics/regression.h"), ("tridiagonal system of the natural spline", "src/interpolation/splines.h"), ("piece selection in evaluation and derivative", "src/interpolation/splines.h"), ("nodes and samples", "src/interpolation/polynomial.h")],
 observe=["fields of the models", "values and derivatives of splines and polynomials", "errno", "evaluations of the user function"])

prop("C25", "Automatic derivatives are exactly those of the program that ran",
 "For a user function written with arithmetic and elementary functions, the automatic derivative, second derivative, gradient, divergence, Jacobian, curl, directional derivative, Laplacian, Sturm-Liouville (Poisson bracket) operator and the dual, second-order dual and multidual numbers they are made of give, up to rounding, the value and the derivatives of exactly the operations the function performed at that point, in fixed or variable number of variables and in the direct or function-object form. This holds for every program of operations, also one that branches on the point, computes derivatives of its own on the way, or is evaluated again after an earlier evaluation threw or ran out of memory. The function is evaluated exactly once (once per variable for the Laplacian), an exception it throws reaches the caller unchanged, and the curl of a function outside three dimensions is refused with an error.",
 ["inputs", "histories", "fault_sequences"],
 "for every composition of the supported operations, every point and number of variables, every operation at which the function throws or memory runs out, and every nesting of derivatives",
 "Tests differentiate a handful of one-operation functions at fixed points; a wrong higher derivative or mixed form of one operation shows only inside a composition, and state kept between evaluations only after a failure or in a nested derivative.",
 ["src/autodiff/autodiff.h", "src/autodiff/dual.h", "src/autodiff/dual_functions.h", "src/autodiff/dual2.h", "src/autodiff/dual2_functions.h", "src/autodiff/multidual.h", "src/autodiff/multidual_functions.h"],
 [("derivative rules of the operators", "src/autodiff/dual.h, src/autodiff/dual2.h, src/autodiff/multidual.h"), ("derivative rules of the functions", "src/autodiff/dual_functions.h, src/autodiff/dual2_functions.h, src/autodiff/multidual_functions.h"), ("seeding of variables and extraction of results", "src/autodiff/autodiff.h")],
 observe=["values and derivatives returned", "evaluations and operations of the user function", "errno", "exceptions"])

NA = [
 ("N01", "Elementary and special functions are accurate", "Every elementary and special function of a real argument is within its documented error of the mathematical value on its whole domain, and reports arguments outside it.", ["src/core/real_analysis.h", "src/core/special.h"]),
 ("N02", "Linear algebra is accurate for every well-conditioned matrix", "The error of inverses, determinants, decompositions, solvers and eigenvalue routines is bounded by the condition number of the matrix, whatever its structure.", ["src/algebra/algebra.h", "src/algebra/mat.h", "src/algebra/vec.h"]),
 ("N05", "Discrete Fourier transform and its inverse cancel", "Transforming and inverse-transforming any data returns the data up to rounding, and the transform is linear.", ["src/signal/fft.h"]),
 ("N06", "The orthogonal families satisfy their identities", "The orthogonal families of polynomials satisfy their recurrences and orthogonality.", ["src/polynomial"]),
 ("N07", "Distributions and descriptive statistics match their formulas", "Probability densities, moments, correlations, test statistics and regressions equal their textbook definitions up to rounding.", ["src/statistics"]),
 ("N08", "Quadrature and ODE methods have their stated order", "Numerical integrals and ODE solutions converge to the exact value at the stated order as the step shrinks.", ["src/calculus"]),
 ("N09", "Complex functions and ratios obey their identities", "Functions of complex numbers and ratios satisfy their identities up to rounding.", ["src/complex", "src/core/ratio.h"]),
 ("N10", "Geometric transforms and distances satisfy their axioms", "Rotation, projection and other transformation matrices act as documented, and distances are symmetric, non-negative and satisfy the triangle inequality.", ["src/algebra/transform.h", "src/algebra/distance.h"]),
]
for id, t, s, f in NA:
    prop(id, t, s, ["inputs"], "for every valid input",
         "Tests sample a few inputs.", f, [("the functions themselves", ", ".join(f))])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            fh.write(json.dumps(p, ensure_ascii=False) + "\n")
