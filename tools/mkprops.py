"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "Exact transport is optimal for every worker count and thread interleaving",
     "For any two nonnegative histograms of equal total mass and any finite cost matrix, the exact solver, when its iteration limit is ample, returns a nonnegative plan whose marginals are the requested ones and whose cost is the minimum, reports success, and returns dual potentials that certify the cost. This holds for every number of worker threads the caller asks for and for every interleaving of those threads.",
     ["schedules", "inputs", "configurations"],
     "every interleaving of the worker threads at shared memory accesses, every thread count 1..many (also more threads than arcs), every cost matrix and pair of histograms including ties, zero weights, constant and rectangular costs",
     "tests solve a few instances with one or two threads on whatever schedule the machine happens to produce; a pivot that depends on the interleaving, or a stale per-thread best arc, needs a particular order of accesses",
     ["ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h", "ot/lp/network_simplex_simple_omp.h", "ot/lp/full_bipartitegraph.h", "ot/lp/full_bipartitegraph_omp.h", "ot/lp/emd_wrap.pyx", "ot/lp/_network_simplex.py"],
     [("block search pivot rule shared by worker threads", "ot/lp/network_simplex_simple_omp.h:findEnteringArc"), ("spanning tree, flow and potential update after each pivot", "ot/lp/network_simplex_simple.h"), ("mapping of network flow back to a plan, dropped zero-weight nodes", "ot/lp/EMD_wrapper.cpp")],
     ["ot.emd / ot.emd2 return value and log (plan, cost, u, v, warning, result_code)"],
     [("thread team", "size of the pool cached at first use and used by every pivot search", "ot/lp/network_simplex_simple_omp.h")])

prop("C02", "Exact transport ignores bad warm starts and is honest about iteration limits",
     "Whatever dual potentials an exact solve is started from (good, stale from another problem, wildly scaled) and through whichever entry it is called (dense, sparse, coordinates, several right-hand sides), a solve that reports success is feasible, optimal and equal in cost to the cold-started solve. A solve stopped by its iteration limit returns within that limit and says so by a warning and in its log; success is never reported for a non-optimal result.",
     ["inputs", "histories", "fault_sequences"],
     "all starting potentials, all iteration limits from zero to ample, all entry points and all cost matrices and histograms",
     "the tests warm-start from potentials of the same or a nearby problem and cut iterations at one or two fixed values; the quantifier is over every starting point and every cut",
     ["ot/lp/_network_simplex.py", "ot/lp/emd_wrap.pyx", "ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h", "ot/lp/sparse_bipartitegraph.h"],
     [("warm-start tree construction from potentials", "ot/lp/network_simplex_simple.h, ot/lp/EMD_wrapper.cpp"), ("result codes turned into warnings", "ot/lp/emd_wrap.pyx:check_result"), ("dual estimation for dropped nodes", "ot/lp/_network_simplex.py:estimate_dual_null_weights")],
     ["plan, cost, u, v, warning, result_code", "warnings issued"])

prop("C03", "Running out of memory in the compiled solver is an ordinary exception",
     "If any single memory allocation made by the compiled exact-transport solver fails, the call raises MemoryError in the caller: the process survives and the arguments are intact. The next call with the same arguments returns the same result as if nothing had happened.",
     ["crash_points", "fault_sequences", "inputs"],
     "every allocation made during every solve, for dense, sparse, coordinate-based and multi-threaded solves",
     "no test makes an allocation fail; an uncaught failure ends the whole interpreter instead of the call",
     ["ot/lp/emd_wrap.pyx", "ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h", "ot/lp/network_simplex_simple_omp.h", "ot/partial/partial_cython.pyx"],
     [("translation of C++ exceptions at the Cython boundary", "ot/lp/emd_wrap.pyx"), ("ownership of solver memory by containers", "ot/lp/network_simplex_simple.h")],
     ["exception raised, process status, result of a later call"])

prop("C04", "Concurrent callers get the results they would get alone",
     "When several threads call the library at the same time, each call returns what it returns when it runs alone, whatever the interleaving and also when the threads share read-only inputs. Sources of randomness that the caller did not pin with a seed are excepted.",
     ["schedules", "programs"],
     "every interleaving of 2..4 threads at source-line granularity over every public operation, same or different operations, shared or separate inputs",
     "the test-suite is single-threaded; a race on module-level state (caches, shared random streams, temporarily changed settings) needs a preemption inside one call",
     ["ot/backend.py", "ot/utils.py", "ot/lp", "ot/gromov", "ot/bregman", "ot/sliced", "ot/da.py"],
     [("one lazily created backend object per array library, shared by all callers", "ot/backend.py:get_backend"), ("no other module-level mutable state", "ot/**")],
     ["return value or exception of each call"])

prop("C05", "Results do not depend on what the process executed before",
     "A call's result is a function of its arguments (and of the random state, where it uses one): it is the same as in a fresh process whatever calls came before it, including the same call on other values, calls that failed or were interrupted, and in-place changes of arrays passed or returned earlier. A result already returned never changes because of later calls.",
     ["histories", "programs", "fault_sequences"],
     "all sequences of earlier calls, failures, interruptions and caller mutations before the call observed",
     "each test calls a function once or twice in a fixed order; stale caches, aliased buffers and state left by a failed call show only after particular histories",
     ["ot/backend.py", "ot/utils.py", "ot/lp/_network_simplex.py", "ot/bregman", "ot/gromov", "ot/optim.py", "ot/unbalanced", "ot/da.py"],
     [("functions keep no state between calls; results own their memory", "ot/**")],
     ["return value, exception and warnings of the observed call"])

prop("C06", "Arrays passed by the caller are never modified, not even temporarily",
     "No call changes the contents, shape, layout or flags of any array, tensor or container the caller passed to it: not in the result, not while it runs, and not when it fails or is interrupted. This holds for every array library, memory layout, view, read-only and gradient-tracking input.",
     ["inputs", "crash_points", "schedules"],
     "every public operation, every instant of its execution, every interruption point, every layout (C, Fortran, strided view, read-only, aliased) and numpy or torch",
     "tests occasionally compare one input after one successful call on contiguous numpy arrays; a temporary change followed by a restore, or one that occurs only for a view, another array library or on the error path, is invisible to them",
     ["ot/backend.py", "ot/lp", "ot/bregman", "ot/gromov", "ot/unbalanced", "ot/gmm.py", "ot/da.py", "ot/partial", "ot/utils.py", "ot/sliced"],
     [("defensive copies before in-place updates", "ot/**"), ("backend copy/to_numpy semantics", "ot/backend.py")],
     ["bytes of every array reachable from the arguments"])

prop("C07", "An interrupted or failing call leaves nothing behind",
     "If a call is cut short at any point (keyboard interrupt, memory error, failing user callback, warnings turned into errors, broken standard output), the exception reaches the caller unchanged, unless the library handles the failure and still returns the result of an undisturbed call; keyboard interrupts always reach the caller. Afterwards process-wide settings are as before, the arguments are intact, and repeating the call gives the result of an undisturbed call.",
     ["crash_points", "fault_sequences"],
     "every line of library code as interruption point, each kind of failure, every public operation",
     "tests check a handful of argument errors; none interrupts a running solver or looks at process state afterwards",
     ["ot/utils.py", "ot/lp", "ot/da.py", "ot/bregman", "ot/gromov", "ot/optim.py", "ot/backend.py"],
     [("settings changed only inside context managers or try/finally", "ot/da.py, ot/lp/solver_circle.py, ot/utils.py"), ("exception handlers catch only what they can handle", "ot/lp/dmmot.py, ot/utils.py")],
     ["exception type, numpy error state, warning filters, streams, environment, array-library modes, arguments, rerun result"])

prop("C08", "A seed fixes the result, and private seeds leave global random streams alone",
     "A randomised call that is given a seed returns the same result whenever it is called with that seed, whatever the state of any random stream and whatever ran before. It neither reads nor advances nor reseeds the process-wide random streams; calls that use no randomness leave them untouched too, and different seeds give different draws.",
     ["histories", "inputs", "configurations"],
     "all seeds, all prior states of the global and per-array-library random streams, all randomised public operations, numpy and torch, integer seeds and generator objects",
     "tests call twice in a row with one seed; whether the state of other streams matters, or is destroyed, is not looked at",
     ["ot/utils.py", "ot/backend.py", "ot/sliced/_utils.py", "ot/gromov/_quantized.py", "ot/gromov/_utils.py", "ot/gromov/_semirelaxed.py", "ot/gromov/_estimators.py", "ot/lowrank.py", "ot/datasets.py", "ot/stochastic.py", "ot/dr.py"],
     [("local generator built from the seed argument", "ot/utils.py:check_random_state"), ("per-array-library generator", "ot/backend.py:seed")],
     ["results and the state of numpy, random and torch global streams before and after"])

prop("C09", "Stopping a solver and resuming it from its own output equals not stopping",
     "Where a solver accepts a starting point and returns one, cutting it at any iteration and restarting it from what it returned reaches the same solution as an uninterrupted solve: the same iterate where the method has no other state, and the same converged solution otherwise. Restarting from an already converged state keeps that solution.",
     ["crash_points", "histories", "inputs"],
     "every cut position and every number of consecutive restarts, for every restartable solver and option combination",
     "tests warm-start once from a converged result; a restart from a partial state exercises the exported and imported state at every value it can have",
     ["ot/bregman/_sinkhorn.py", "ot/unbalanced", "ot/optim.py", "ot/gromov", "ot/lp/_barycenter_solvers.py", "ot/bregman/_barycenter.py", "ot/partial"],
     [("warm-start scalings exported in the log and accepted as argument", "ot/bregman/_sinkhorn.py"), ("initial plan argument", "ot/gromov/*.py, ot/optim.py")],
     ["plan, scalings/potentials, value after resumption"])

prop("C10", "Whenever an iterative solver is stopped, its result is usable and consistent",
     "Stopped after any number of iterations, an iterative solver returns finite arrays of the documented shape that satisfy the constraints it maintains at every step: plans are nonnegative, solvers whose every iterate is feasible return exact marginals, barycenters are nonnegative. The values it reports are those of the plan it returns, conditional-gradient losses never increase, and solvers that descend by alternating exact steps never raise the objective they document.",
     ["crash_points", "inputs"],
     "every iteration limit from the smallest to convergence, every solver method and option combination",
     "tests run to convergence with default limits; the state of a solver at an arbitrary stop is what users with a budget get",
     ["ot/optim.py", "ot/bregman", "ot/gromov", "ot/unbalanced", "ot/partial", "ot/lp", "ot/solvers.py", "ot/batch", "ot/coot.py", "ot/factored.py", "ot/lowrank.py"],
     [("feasible iterates in conditional gradient", "ot/optim.py"), ("marginal update as the last step of an iteration", "ot/bregman/_sinkhorn.py")],
     ["plan, value fields, log loss sequence"])

prop("C11", "Solvers stop within their budget and say truthfully whether they converged",
     "An iterative solver performs at most the number of iterations it was allowed, also on pathological inputs, and so always returns. A solver that offers a convergence warning issues it exactly when it stopped without reaching its tolerance, unless asked not to warn, and the iteration counts and error histories it logs are the true ones.",
     ["inputs", "crash_points", "configurations"],
     "every iteration limit and tolerance, every solver, and adversarial inputs on which the method cannot converge",
     "tests check that one non-converging call warns; false silence at other limits, off-by-one budgets and endless loops on special inputs are outside their samples",
     ["ot/bregman", "ot/unbalanced", "ot/optim.py", "ot/gromov", "ot/lp", "ot/batch", "ot/sliced", "ot/lowrank.py"],
     [("for/else warning at exhaustion of the iteration loop", "ot/bregman/_sinkhorn.py"), ("bounded loops in line search", "ot/optim.py")],
     ["warnings issued, log niter/err, number of evaluations seen by instrumented callbacks"])

prop("C12", "Numerical breakdown inside a scaling solver never leaks NaN or a false success",
     "If the arithmetic of an entropic scaling solver (balanced, stabilized, unbalanced, translation-invariant, partial, kernel low-rank, barycenter) breaks down at some iteration (overflow, underflow to zero, NaN), the solver stops, warns, and returns the last finite iterate instead of NaN or infinite entries. Log-domain methods do not break down at all on finite costs, however small the regularisation, and stabilisation never changes the iterates it stabilises.",
     ["fault_sequences", "inputs"],
     "a breakdown injected into any intermediate quantity at any iteration, and inputs with extreme regularisation and cost scales",
     "tests use one or two small regularisation values; the breakdown handling depends on which quantity fails at which iteration",
     ["ot/bregman/_sinkhorn.py", "ot/unbalanced/_sinkhorn.py", "ot/bregman/_barycenter.py"],
     [("breakdown test and roll-back to previous scalings", "ot/bregman/_sinkhorn.py, ot/unbalanced/_sinkhorn.py")],
     ["returned plan, warnings"])

prop("C13", "Problems solved in one batch do not influence each other",
     "Solving several problems in one call gives for each of them the same result as solving it alone, in any order and any batch size, also when other members are badly scaled or converge much later. In batched, exact, one-dimensional and closed-form operations this holds even when other members contain infinite or NaN entries; histograms that share one Sinkhorn run share its stopping and breakdown handling.",
     ["inputs", "fault_sequences", "configurations"],
     "all batch sizes and orders, every position of a disturbed member, every kind of disturbance",
     "tests compare a homogeneous batch with a loop once; cross-talk through shared normalisation, shared stopping rules or broadcasting needs heterogeneous or poisoned members",
     ["ot/batch/_linear.py", "ot/batch/_quadratic.py", "ot/batch/_utils.py", "ot/bregman/_sinkhorn.py", "ot/lp/_network_simplex.py", "ot/unbalanced/_sinkhorn.py", "ot/sliced", "ot/lp/solver_1d.py", "ot/gmm.py"],
     [("per-problem reductions along the non-batch axes", "ot/batch/_utils.py"), ("per-column scalings", "ot/bregman/_sinkhorn.py")],
     ["per-problem plan and value"])

prop("C14", "Lazy and chunked evaluation gives the dense answer for any chunk size",
     "Operations that evaluate large arrays piece by piece return the same result as the dense computation for every chunk size, order of access and subset of entries requested. If evaluating one piece fails, the failure reaches the caller and a later attempt succeeds.",
     ["configurations", "histories", "fault_sequences"],
     "every chunk size from one to beyond the array, every slicing order, every piece as failure point",
     "tests use one or two chunk sizes that divide the size or not; boundary chunks and repeated or failed partial reads are a matter of schedule",
     ["ot/utils.py", "ot/bregman/_empirical.py", "ot/bregman/_geomloss.py", "ot/lp/_network_simplex.py", "ot/solvers.py", "ot/lowrank.py"],
     [("block-wise reduction of a lazily evaluated array", "ot/utils.py:LazyTensor, reduce_lazytensor"), ("coordinate-based cost evaluation inside the exact solver", "ot/lp/emd_wrap.pyx")],
     ["values, potentials, plan entries"])

prop("C15", "A fitted estimator reflects only its parameters and its last successful fit",
     "Whatever sequence of constructing, fitting, refitting on other data, transforming, copying, changing parameters and failed or interrupted fits was applied to a domain-adaptation estimator or data scaler, after a successful fit it behaves exactly as a new estimator with the same parameters fitted once on the same data. Fitting never changes its parameters, reading parameters and setting them back changes nothing, and transforming never changes the fit.",
     ["histories", "crash_points"],
     "all sequences of estimator operations, every interruption point of a fit, every estimator class",
     "tests fit each estimator once per test; state carried from one fit into the next shows only in a sequence",
     ["ot/da.py", "ot/utils.py"],
     [("fitted attributes recomputed by fit", "ot/da.py"), ("parameter access by introspection", "ot/utils.py:BaseEstimator")],
     ["coupling, transforms, labels, get_params"])

prop("C16", "Asking for logs, progress output, warnings or gradients never changes the result",
     "Turning verbose output, logging or warnings on or off, changing the clock, or having a slow, full or closed standard output that does not raise, never changes the numerical result of a call. The gradient mode of a solver only decides what is differentiated: the plan and the values are the same in every mode. Without a request for output nothing is written to standard output or standard error.",
     ["configurations", "fault_sequences", "programs"],
     "every combination of the diagnostic options of every public operation, with output streams and clocks that misbehave",
     "tests pass verbose and log to run those lines, without comparing results across all combinations and without looking at what is printed otherwise",
     ["ot/bregman", "ot/optim.py", "ot/gromov", "ot/unbalanced", "ot/lp", "ot/utils.py", "ot/da.py", "ot/dr.py", "ot/sliced"],
     [("diagnostic code separate from the iteration", "ot/**")],
     ["results under each option, captured output streams"])

prop("C17", "Missing optional packages degrade the library, never break it",
     "Whichever of the optional packages are missing, incomplete or raise ImportError while being imported, importing the library succeeds and every operation that does not need them gives the same result as when they are present. An operation that needs a missing package fails with an error that says so (or warns about the substitute it uses); nothing is computed with a substitute silently, and a method that is asked for by name uses its package when it is there.",
     ["configurations", "fault_sequences"],
     "every subset of the optional packages, each absent or raising on import",
     "the tests run in one environment in which a fixed set of packages is installed",
     ["ot/__init__.py", "ot/backend.py", "ot/utils.py", "ot/lp/cvx.py", "ot/gromov/_quantized.py", "ot/gromov/__init__.py", "ot/bregman/_geomloss.py", "ot/bregman/__init__.py", "ot/mapping.py", "ot/dr.py"],
     [("guarded imports and feature flags", "ot/backend.py, ot/lp/cvx.py, ot/gromov/_quantized.py, ot/bregman/_geomloss.py")],
     ["import status, results, error messages"])

prop("C18", "Stochastic solvers reach the regularised optimum under any fair sampling order",
     "For every order in which samples may be drawn that visits all of them again and again, the stochastic regularised solvers move towards the solution of the problem they state: their gradients are unbiased, their averages are the averages of the iterates, and their potentials approach those of the deterministic solver within a bounded number of passes. The result depends on the random source only through the indices drawn.",
     ["schedules", "inputs"],
     "every sampling schedule (uniform, cyclic, adversarially permuted within each pass), batch size and problem",
     "tests sample one random sequence with one seed and a loose tolerance",
     ["ot/stochastic.py"],
     [("table of stored per-sample gradients and their running average", "ot/stochastic.py:sag_entropic_transport"), ("iterate averaging", "ot/stochastic.py:averaged_sgd_entropic_transport"), ("block dual gradient", "ot/stochastic.py:batch_grad_dual")],
     ["potentials and plan after a number of passes"])

prop("C19", "Result objects give consistent answers in any order of access",
     "The fields of a result object (value and its parts, plan, potentials, marginals, sparse and lazy views) agree with each other and with the input problem, are the same in whatever order and how often they are read, and stay the same after a failed or interrupted read. A field that is not available says so instead of returning something else.",
     ["histories", "crash_points", "configurations"],
     "all orders of field accesses, interruption of any access, every solver family behind the unified interface",
     "tests read a couple of fields once each in a fixed order",
     ["ot/utils.py", "ot/solvers.py"],
     [("computed properties of the result object", "ot/utils.py:OTResult"), ("assembly of fields by the unified solvers", "ot/solvers.py")],
     ["all public fields of the result"])

# ---- pure functions of their arguments: stated, not claimed (see DESIGN.md)
NA = {}


def na(id, title, statement, text, why, files, mech, reason):
    prop(id, title, statement, ["inputs"], text, why, files, mech, ["return values"])
    NA[id] = reason


na("C20", "All array libraries compute the same numbers",
   "The same call with the same data gives the same numbers, up to rounding, whichever supported array library holds the data. Results come back in the caller's array library, precision and device.",
   "all inputs and all supported array libraries", "tests compare libraries on fixed samples", ["ot/backend.py"], [("uniform array interface", "ot/backend.py")],
   "a pure function of its input: no schedule, clock, I/O or fault takes part in it, so a simulator has nothing to decide; only two of the array libraries are installed. Differential testing over inputs would be another technique")
na("C21", "Closed-form distances agree with the general solver",
   "One-dimensional, circular, Gaussian, Bures-Wasserstein and linear-map closed forms give the value the general formulation has. Sliced distances are averages of one-dimensional ones over the directions used.",
   "all inputs of the closed forms", "tests compare on a few samples", ["ot/lp/solver_1d.py", "ot/lp/solver_circle.py", "ot/gaussian.py", "ot/sliced"], [("sorting and quantile formulas", "ot/lp/solver_1d.py")],
   "a mathematical identity of pure functions: no nondeterminism to simulate")
na("C22", "Differentiable outputs carry the right gradients",
   "Values computed from gradient-tracking inputs have the gradient of the mathematical value with respect to weights, positions, costs and regularisation. Graph-based layers and minibatch use give the same gradients.",
   "all inputs and differentiable operations", "tests check a few derivatives by finite differences", ["ot/backend.py", "ot/lp/_network_simplex.py", "ot/solvers.py"], [("explicitly set gradients", "ot/backend.py:set_gradients")],
   "a pure function of its input (a derivative), decided by numerical differentiation over inputs; scheduling and faults do not enter")
na("C23", "Optimal transport values behave like the distances they are",
   "Transport values from metric costs are symmetric, vanish on equal arguments, are nonnegative, satisfy the triangle inequality and scale with the cost. Gromov-type values are invariant under isometries and permutations of either side.",
   "all inputs", "tests sample a few pairs", ["ot/lp", "ot/gromov", "ot/sliced"], [("definition of the solved problem", "ot/lp, ot/gromov")],
   "an algebraic law over inputs only; there is no schedule, time, I/O or fault for it to depend on")
na("C24", "Regularised and unbalanced solvers minimise the objective they document",
   "At convergence every regularised, unbalanced, partial, weak or smooth solver satisfies the optimality conditions of its documented objective.",
   "all inputs, regularisers and penalties", "tests compare against another solver on a few samples", ["ot/bregman", "ot/unbalanced", "ot/smooth.py", "ot/weak.py", "ot/partial", "ot/regpath.py"], [("fixed-point or gradient iterations", "ot/bregman, ot/unbalanced")],
   "a statement about the limit of a pure deterministic iteration over inputs; what depends on where the iteration is cut or disturbed is claimed separately (C09-C12)")

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P), "properties")
