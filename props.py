"""Configuration of every check: harness sources, budgets, evidence text."""
DEF = {"default": {}}
REAL_ALL = ["all theoretica code (compiled from /repo/src)", "libstdc++ and libm", "real OS threads, thread-local storage and errno"]
STUB_SCHED = ["thread scheduler (seeded, one thread at a time)", "OpenMP runtime (GOMP_* entry points)", "pthread create/join/mutex/condition/once", "global allocator (arena with redzones)", "clocks and system randomness"]
STUB_WORDS = STUB_SCHED + ["random word source (scripted, behind the PRNG function seam)"]
ASSUME = [
    "sampling: a clean batch is evidence, not proof",
    "memory accesses inside the precompiled C++ and C libraries are not scheduling points and not race-checked",
    "sequentially consistent memory; races are reported by happens-before, weak-memory outcomes are not executed",
    "x86-64, gcc -O1 code generation (no inlining, so that one library function is one piece of code for all callers)",
]
SAMPLED = "Seeded sampling of executions, exactly repeatable from the seed; a clean batch is evidence, not proof. "
PROPS = {}


def prop(id, sources, runs, wall, technique, note, rule, must_fire, stub=STUB_SCHED, variants=DEF, real=REAL_ALL, assumptions=ASSUME, **kw):
    PROPS[id] = dict(sources=sources, variants=variants, runs={"quick": runs[0], "thorough": runs[1]}, wall={"quick": wall[0], "thorough": wall[1]},
                     technique=technique, note=SAMPLED + note, rule=rule, must_fire=must_fire, real=real, stub=stub, assumptions=assumptions, **kw)


prop("C01", ["c01.cpp"], (12000, 400000), (100, 1500),
     "seeded interleavings of OpenMP teams, with a sequential run of the same code as reference and happens-before race detection",
     "Every memory access of the instrumented library is a possible context switch under a simulated OpenMP runtime; trusts the simulated runtime to be a legal OpenMP implementation.",
     "Seeded plans: 1-3 caller threads each call 1-4 parallel functions on vectors of 7 types and of length 0 to 20000 under a team of 1-12 threads (possibly granted fewer), with preemptions every 3 to 2000 memory accesses on average.",
     ["parallel_calls", "large_vectors", "empty_or_single_vectors", "fewer_elements_than_threads", "reduced_team_configured", "callback_evaluations"])
prop("C03", ["c03.cpp"], (30000, 600000), (100, 1500),
     "seeded interleavings of operations on several generators in several threads, each stream compared with the same history run alone in a pristine process",
     "The reference is the library itself, run in isolation, so only interference is decided here (values: C04, C05, C06).",
     "Seeded plans: 2-6 generators of all algorithms, operations (words, 14 samplers, shuffles, Monte Carlo estimates, Metropolis) interleaved in 1-4 threads, generators copied, destroyed and re-created at the same address, handed between threads.",
     ["generator_operations", "handed_to_another_thread", "generator_memory_reused", "identical_twins", "copies_made", "moved_to_other_memory", "crash_and_restore", "copies_used_alongside"])
prop("C04", ["c04.cpp"], (40000, 1000000), (100, 1500),
     "seeded histories of draw, skip, copy, reseed and crash-and-restore against an independent reference model of every generator",
     "Oracle: recurrences re-implemented from their documentation.",
     "Seeded plans of 1-40 operations per generator from arbitrary seeds and states, with crashes after which only function, last word and parameters survive.",
     ["words_checked", "crash_and_restore", "copies", "reseeds", "discards", "arbitrary_states", "direct_recurrence_calls", "invalid_parameters"])
prop("C05", ["c05.cpp"], (30000, 1000000), (100, 1500),
     "seeded fault scripts of the random word source (zeros, ones, stuck, alternating, boundary words) with support, budget and transform checks",
     "Oracle: long double evaluation of the documented transform of the words actually delivered.",
     "Seeded plans: sampler calls under word scripts mixing healthy and degenerate bursts at any position, for all samplers and valid or invalid parameters.",
     ["sampler_calls", "faulty_words_consumed", "errors_reported", "healthy_calls_after_faults", "invalid_parameters", "rejected_pairs"], stub=STUB_WORDS)
prop("C06", ["c06.cpp"], (30000, 800000), (100, 1500),
     "seeded word streams and integrand behaviours; the estimate is recomputed from the recorded sample history",
     "Oracle: long double recomputation from the recorded words and evaluations.",
     "Seeded plans: estimators over healthy and degenerate word streams, integrands with non-finite values, nested estimates, sample counts 1 to a few hundred.",
     ["estimates", "integrand_evaluations", "faulty_words_consumed", "non_finite_integrand_values", "hits_counted"], stub=STUB_WORDS)

prop("C07", ["c07.cpp"], (40000, 1200000), (100, 1500),
     "seeded word streams and hostile densities; every acceptance decision is re-decided from the recorded words and density values",
     "Oracle: replay of the documented acceptance rule over the recorded history.",
     "Seeded plans: rejection sampling and Metropolis walks over 8 density families with NaN, infinite and zero regions, healthy and degenerate words, limits of 1 to a few hundred tries, walks sharing a generator.",
     ["sampler_calls", "faulty_words_consumed", "proposals_rejected", "limits_exhausted", "non_finite_density_values", "zero_density_proposals", "metropolis_steps", "shared_generator_walks", "undefined_quantiles"], stub=STUB_WORDS)
prop("C08", ["c08.cpp"], (60000, 1500000), (110, 1500),
     "seeded delivery of input in chunks with end of input, read errors and resumption injected at arbitrary positions, against a line-by-line reference",
     "Oracle: strtod over the lines actually delivered.",
     "Seeded plans: texts of numbers, junk and terminators delivered in chunks of 1-64 bytes; streams that end, fail, throw and recover at any byte.",
     ["reads", "values_returned", "unparseable_lines", "chunks_delivered", "ended_by_end_of_input", "read_errors_injected", "ended_by_terminator", "partial_last_lines", "reads_on_failed_stream", "resumed_after_end_of_input", "exceptions_propagated", "standard_output_failures"],
     stub=STUB_SCHED + ["input and output streams (scripted stream buffers)"])
prop("C09", ["c09.cpp"], (40000, 1000000), (110, 1500),
     "seeded output sinks that refuse, write short or throw at an arbitrary byte, under unusual stream formats; output compared with a fault-free print",
     "The reference output is the library's own print to a healthy stream, so accepted bytes must be a prefix of it.",
     "Seeded plans: every printable type printed to sinks with room for 0 to all of its bytes, stream formats left unusual by other code, and failed streams; two builds (with and without exceptions).",
     ["prints", "sink_refusals", "short_writes", "sink_exceptions", "prints_to_failed_stream", "unusual_stream_formats", "padded_prints", "print_helper_calls", "prints_to_standard_output", "healthy_prints"],
     stub=STUB_SCHED + ["output streams (scripted stream buffers)"],
     variants={"default": {}, "exceptions": {"defines": ["-DTHEORETICA_THROW_EXCEPTIONS"]}})
prop("C15", ["c15.cpp"], (60000, 1500000), (110, 1500),
     "seeded streams of deliveries to a histogram (NaN, infinities, boundary values, duplicates, reorderings, crash and restore) against an executable model",
     "Oracle: a list of the accepted values with exact counts and long double statistics.",
     "Seeded plans: up to a few thousand deliveries over ranges of any sign and width, conserved counts and statistics compared after each burst.",
     ["insertions", "not_a_number_delivered", "infinities_delivered", "out_of_range_delivered", "boundary_values", "duplicates", "crash_and_restore", "reordered_deliveries", "texts", "built_at_once", "bursts"])
prop("C16", ["c16.cpp"], (60000, 2000000), (100, 1500),
     "seeded word faults and element-copy failures during shuffles; conservation of the collection checked after every shuffle",
     "Oracle: the multiset of elements before the shuffle; the sequence of exchanges implied by the delivered words.",
     "Seeded plans: collections of 0 to 60 elements of plain, throwing and proxy element types, 0 to many rounds, stuck and boundary words.",
     ["shuffles", "rounds", "faulty_words_consumed", "default_rounds", "empty_collections", "single_elements", "elements_exchanged_with_themselves", "copies_that_threw", "collections_with_equal_elements"], stub=STUB_WORDS)
prop("C17", ["c17.cpp"], (80000, 2000000), (120, 1500),
     "seeded simulated-time histories of the ODE solvers with crashes in the derivative, restarts from recorded points and nested solutions, against long double steps of the documented methods",
     "Oracle: each recorded step recomputed from the recorded points; simulated time is the integration variable.",
     "Seeded plans: all steppers and solvers over systems of 1-6 equations, step sizes that do and do not divide the interval, invalid arguments, restarts from any recorded point, solutions in segments, nested solutions in the derivative.",
     ["solutions", "steps_checked", "derivative_evaluations", "shortened_last_steps", "restarts_from_a_recorded_point", "solutions_in_segments", "crashes_in_the_derivative", "user_steppers", "invalid_arguments", "multistep_steps", "default_step_sizes", "long_trajectories", "nested_solutions"],
     stub=STUB_SCHED + ["simulated time of the integration variable"])
prop("C12", ["c12.cpp"], (80000, 2000000), (120, 1500),
     "seeded adversarial functions (not-a-number, infinite, constant, random, inconsistent, growing, switching behaviour at any evaluation) with evaluation budgets checked as the run proceeds",
     "Oracle: the documented iteration limit times a fixed number of evaluations; the recorded values decide whether a search was entitled to a result.",
     "Seeded plans: 1-3 threads run 1-6 searches, integrals, derivatives, ODE solutions, samplings and interpolations each; the function follows a script of behaviours that change after 1-150 evaluations.",
     ["calls", "evaluations", "not_a_number_evaluations", "infinite_evaluations", "inconsistent_evaluations", "constant_evaluations", "changes_of_behaviour", "limits_exhausted", "numbers_returned", "gradient_searches", "integrals", "ode_solutions", "rejection_samplings"], stub=STUB_WORDS)
prop("C13", ["c13.cpp"], (80000, 2500000), (120, 1500),
     "seeded functions with faulty regions (not-a-number, infinite, discontinuous, flat, wrong derivatives, nested searches); every returned root is judged against the recorded evaluations",
     "Oracle: the recorded evaluation history of the search.",
     "Seeded plans: every root finder over 13 families of functions and 6 kinds of fault, tolerances from 1e-14 to 0.1, limits from 0 to 300 iterations, searches nested in the function of another.",
     ["calls", "evaluations", "numbers_returned", "brackets_refused", "gave_up_with_an_error", "not_a_number_evaluations", "infinite_evaluations", "wrong_derivatives", "bracketing_calls", "brackets_without_sign_change", "roots_listed", "nested_searches", "systems_of_equations", "exact_zeros_evaluated"])

REG = ["ctx.cpp", "ops_core.cpp", "ops_alg.cpp", "ops_num.cpp", "ops_calc.cpp", "ops_stat.cpp", "ops_obj.cpp", "ops_err.cpp"]
prop("C02", ["c02.cpp"] + REG, (24000, 800000), (110, 1500),
     "seeded histories and interleavings of library calls in 1-4 threads, each call compared with the same call alone in a fresh process; heap, stack and global red zones, dirty and recycled memory, happens-before race detection",
     "The reference is the library itself in isolation, so only interference, stray accesses and hidden inputs are decided here.",
     "Seeded plans: 1-4 threads of 1-6 operations out of a registry that covers every module, with siblings that differ in one input number, freed memory reused or not, both starting values of the error indicator, other heap contents, clock and schedule in the reference run.",
     ["operations", "library_call_blocks", "calls_that_reported_an_error", "blocks_reusing_freed_memory", "siblings_differing_in_one_number", "operations_beside_other_threads"],
     variants={"default": {"share": 0.65}, "zones": {"zones": True, "share": 0.35}})
prop("C10", ["c10.cpp"] + REG, (40000, 1200000), (110, 1500),
     "seeded allocation failures (single, in a row, and for good) at arbitrary allocations inside every operation of the registry, followed by leak, input, and retry checks",
     "Reference: the undisturbed call on the same inputs.",
     "Seeded plans: 1-3 threads of 1-3 operations; each is run undisturbed, then with its k-th allocation failing for several k, then again with memory available.",
     ["operations", "library_call_blocks", "allocation_failures_injected", "out_of_memory_reported", "memory_gone_for_good", "retries_with_memory_back", "half_changed_objects_used_again", "operations_in_other_threads"],
     stub=STUB_SCHED + ["failing allocations"])
prop("C11", ["c11.cpp"] + REG, (24000, 800000), (110, 1500),
     "seeded exceptions thrown by the user function at an arbitrary evaluation of every algorithm that takes one, followed by propagation, leak, input and re-run checks",
     "Reference: the undisturbed run on the same inputs.",
     "Seeded plans: 1-3 threads of 1-3 algorithm runs; the user function throws one of six exception types at the first, last or any evaluation.",
     ["operations", "algorithm_call_blocks", "undisturbed_evaluations", "exceptions_thrown_by_user_code", "thrown_at_the_first_evaluation", "thrown_at_the_last_evaluation", "runs_after_an_exception", "operations_in_other_threads"])
prop("C19", ["c19.cpp"] + REG, (24000, 800000), (110, 1500),
     "seeded library calls made by the user function of an algorithm at arbitrary evaluations, up to two levels deep, with the undisturbed algorithm and the inner call on its own as references",
     "Reference: the library itself without nesting, so only interference between nested calls is decided here.",
     "Seeded plans: 1-3 threads of 1-3 algorithm runs; at the first, last or any evaluation the function makes another operation of the registry, half of the time the same operation on other data, 30% of the time with a third operation inside that one.",
     ["operations", "algorithm_call_blocks", "undisturbed_evaluations", "operations_made_inside_a_function", "inner_operations_of_the_same_kind", "operations_two_levels_deep", "inner_at_the_first_evaluation", "inner_at_the_last_evaluation", "inner_operations_reporting_errors", "operations_in_other_threads"])
prop("C20", ["c20.cpp"], (60000, 4000000), (60, 1500),
     "seeded histories of operations on pools of vectors, matrices, polynomials and numbers in interleaved threads, with memory failing at arbitrary allocations, every object compared with its own reference value after every operation",
     "Reference: element by element models in double and long double arithmetic; operands are kept where one operation is well conditioned.",
     "Seeded plans: 1-3 threads of 1-4 sessions of 2-40 operations on 4 objects of one of 13 types, or of rotations and conversions between the types; a quarter of the operations take the object itself as operand; two builds (column-first and row-first storage).",
     ["sessions", "operations", "operations_on_the_object_itself", "allocation_failures_injected", "copies", "moves", "changes_of_size", "operations_on_empty_objects", "mismatched_sizes", "mixed_types", "number_operations", "comparisons", "quadratic_equations", "rotations", "conversions"],
     variants={"default": {"share": 0.7}, "row_first": {"defines": ["-DTHEORETICA_ROW_FIRST"], "share": 0.3}})
prop("C21", ["c21.cpp"], (24000, 1600000), (90, 1500),
     "seeded histories of linear algebra calls that reuse their destinations, in interleaved threads, with memory failing at arbitrary allocations; the defining identity of each result checked in long double",
     "Matrices are diagonally dominant, triangular, symmetric or permutations, so that elimination without pivoting is stable; eigensolvers run on real symmetric matrices.",
     "Seeded plans: 1-3 threads of 1-4 sessions of 2-20 calls; sizes 1-6, rarely up to 33; real and complex, dynamic and fixed-size matrices; two builds (column-first and row-first storage).",
     ["sessions", "calls", "allocation_failures_injected", "lu_factorisations", "cholesky_factorisations", "systems_solved", "triangular_systems", "inverses", "determinants", "transformations", "products", "transpositions", "combinations", "norms_and_products_of_vectors", "eigenpairs", "eigenpairs_not_found", "complex_sessions", "fixed_size_sessions", "destinations_with_old_contents"],
     variants={"default": {"share": 0.7}, "row_first": {"defines": ["-DTHEORETICA_ROW_FIRST"], "share": 0.3}})
prop("C22", ["c22.cpp"], (60000, 2000000), (100, 1500),
     "seeded functions with kinks, several extrema and faulty regions (not-a-number, infinite, wrong derivatives, nested searches); every returned extremum is judged against the recorded evaluations",
     "Oracle: the recorded evaluation history of the search and the seeded function itself.",
     "Seeded plans: every optimiser over 11 functions for golden section, 13 derivatives for Newton and bisection and 6 scalar fields of 2 and 3 variables, with 1-3 threads of 1-6 searches; tolerances 1e-8 to 0.1, limits from 0 to 50000 iterations.",
     ["calls", "evaluations", "points_returned", "intervals_refused", "gave_up_with_an_error", "not_a_number_evaluations", "infinite_evaluations", "wrong_second_derivatives", "golden_section_searches", "functions_with_one_extremum", "functions_with_many_extrema", "extrema_at_an_end", "newton_searches", "bisection_searches", "extrema_of_the_other_kind", "gradient_searches", "line_searches", "convex_functions", "nested_searches", "scaled_gradients", "tiny_steps"])
prop("C23", ["c23.cpp"], (80000, 4000000), (100, 1500),
     "a user function that answers each point of the documented rule with a seeded arbitrary value or fault (not-a-number, infinite, exception) and rejects any other point; the result compared with the weighted sum in long double",
     "Oracle: points and weights of each rule computed independently in long double (Gauss rules from the Sturm sequence of their recurrence).",
     "Seeded plans: 1-3 threads of 1-6 integrals or derivatives; 1 to 4100 steps, Romberg orders 1-17, Gauss rules of 1-18 points, tolerances 1e-10 to 0.1, intervals reversed, scaled by 1e-5 to 1e5 or shifted by up to 1e5.",
     ["calls", "evaluations", "not_a_number_points", "infinite_points", "reversed_intervals", "invalid_calls", "composite_rules", "odd_numbers_of_steps", "romberg_rules", "romberg_to_a_tolerance", "romberg_to_the_last_level", "gauss_rules", "tabulated_rules", "computed_weights", "improper_integrals", "gave_up_with_an_error", "derivative_formulas", "interrupted_by_an_exception", "best_available_algorithm"])
prop("C24", ["c24.cpp"], (30000, 2000000), (75, 1500),
     "seeded histories of fits, copies and refused data on pools of models, splines and polynomials, with memory failing at arbitrary allocations, functions that throw or return not-a-number and fits nested in them; every object compared with an independent solution for its latest data",
     "Oracle: weighted least squares, errors-in-variables and natural spline solutions in long double, Lagrange's formula, and a new object fitted to the same data.",
     "Seeded plans: 1-3 threads of 1-4 sessions of 2-16 calls on 3 objects; 2 to 300 points in vec or std::vector, spacings up to 1:25, polynomials of order 0-8.",
     ["sessions", "calls", "allocation_failures_injected", "fits", "objects_fitted_again", "refused_data", "copies", "weighted_fits", "fits_with_both_uncertainties", "lines_through_the_origin", "single_coefficients", "large_datasets", "splines", "unevenly_spaced_splines", "evaluations_of_splines", "evaluations_at_a_node", "evaluations_outside", "kept_after_a_failure", "polynomials_through_points", "polynomials_on_a_grid", "polynomials_on_chebyshev_nodes", "not_a_number_samples", "interrupted_by_an_exception", "fits_inside_the_function", "curves", "whole_numbers", "level_data_with_both_uncertainties", "nearly_the_same_data"])
prop("C25", ["c25.cpp"], (50000, 2500000), (60, 1500),
     "seeded programs of arithmetic and elementary functions, whose operations may depend on the point, differentiated in every form by interleaved threads, with exceptions and allocation failures at chosen operations and derivatives computed inside the function; every derivative compared with an independent forward differentiation of the program that ran, and the evaluations counted",
     "Oracle: the recorded program differentiated to second order in long double by the rules of calculus, independent of the library's dual numbers.",
     "Seeded plans: 1-3 threads of programs of up to 14 operations in 1 to 6 variables, fixed or variable in number, direct and function-object forms.",
     ["derivatives", "evaluations", "program_operations", "exceptions_injected", "allocation_failures_injected", "nested_derivatives", "variable_numbers_of_variables", "refused_calls", "function_objects", "second_derivatives", "operations_chosen_by_the_point", "constants_accumulated"])
prop("C18", ["c18.cpp"] + REG, (24000, 800000), (110, 1500),
     "seeded interleavings of 2-4 threads that run the same read-only operations on the same objects, with happens-before race detection and a reader alone as reference",
     "Only reads through instrumented library code are race-checked.",
     "Seeded plans: every operation of the registry, its inputs shared by 2-4 reader threads preempted every 4 to 600 memory accesses on average.",
     ["operations", "concurrent_reads", "shared_objects", "reader_threads"])
prop("C14", ["c14.cpp"] + REG, (36000, 1200000), (110, 1500),
     "seeded mixes of failing and succeeding calls over interleaved threads, in the three error-handling configurations, each call made with a clear and with an occupied error indicator and compared with the same call alone in its process",
     "Oracle: a table of failing calls with the documented error code and result, a table of valid calls at the border of the domain, and the calls alone in a process.",
     "Seeded plans: 1-4 threads of 1-5 operations, three builds (default, exceptions, exceptions only), mostly operations made of calls outside their domain.",
     ["operations", "call_blocks", "failing_calls", "valid_calls_at_the_border", "operations_in_other_threads", "errors_reported", "exceptions_caught", "earlier_reports_kept"],
     variants={"default": {}, "exceptions": {"defines": ["-DTHEORETICA_THROW_EXCEPTIONS"]}, "only_exceptions": {"defines": ["-DTHEORETICA_ONLY_EXCEPTIONS"]}})
