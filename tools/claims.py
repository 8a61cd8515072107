"""Technique and assurance note of every claimed property."""
DST = "deterministic simulation with fault injection: "
TRUST = " Seeded search, not exhaustive: absence of a violation covers the runs of the evidence file only. Trusts numpy, scipy, CPython's line events and fork."
CLAIMS = {
    "C01": (DST + "the compiled solver's OpenMP team simulated as fibers, switched at memory accesses by a seeded scheduler; oracle: dual certificate and an independent linear program",
            "The real solver sources are rebuilt with access hooks and run under a simulated worker team; every plan, value and pair of potentials is certified. Sequentially consistent interleavings only; instances up to 70 points." + TRUST),
    "C02": (DST + "seeded chains of warm starts (optimal, stale, cut, noise) and solves cut at seeded or bisected iteration limits; oracle: dual certificate, independent linear program, reported status",
            "Every exact entry point (dense, several right-hand sides, sparse, coordinates, threads) is run on the real solver sources with noise-filled memory, from seeded starting potentials and cut at seeded iteration limits." + TRUST),
    "C03": (DST + "the seeded n-th allocation (or every one from it on) of the compiled solver fails; oracle: MemoryError in the caller, arguments intact, no allocation kept, the repeated call equal to the undisturbed one",
            "operator new of the rebuilt solver is simulated and fails at seeded or at all positions, below every exact entry point and every public operation that reaches the solver. Failures of numpy's and CPython's own allocations are not simulated." + TRUST),
    "C04": (DST + "seeded scheduling of concurrent callers at every source line or instruction of ot; oracle: each caller's result alone",
            "Two to four callers run as simulated threads under one seeded scheduler that decides every switch; results, outputs and shared state are compared with each caller running alone. Switches inside a compiled call are not simulated (they hold the interpreter lock except in the exact solver, which C01 covers)." + TRUST),
    "C05": (DST + "seeded search over call histories with interrupted, failing and malformed calls; oracle: the same call in a fresh process",
            "Every public operation (about 150 call shapes) is observed after a random history of up to five events and compared with the same call in a freshly forked process; results returned earlier are re-examined afterwards." + TRUST),
    "C06": (DST + "seeded search over calls, memory layouts and injected interruptions; invariant: argument bytes unchanged before every executed line and afterwards",
            "Every public operation is run on several memory layouts and as torch tensors; all arrays reachable from the arguments are compared before every source line, at return and after an injected interruption. Modification inside one compiled call that is undone before the next Python line is not seen." + TRUST),
    "C07": (DST + "interruptions (KeyboardInterrupt, MemoryError) injected at a seeded source line; invariant: global state, arguments and later calls unaffected",
            "Every public operation is interrupted at a seeded executed line inside ot; process-wide state is compared before and after, the interruption must reach the caller, and the repeated call must agree with an undisturbed process." + TRUST),
    "C08": (DST + "seeded search over states of the random streams and interleaved draws; oracle: the same call from another state, and untouched stream states",
            "Every randomised or deterministic public operation is executed in two forked processes with different stream states and histories." + TRUST),
    "C09": (DST + "solvers stopped at seeded iteration limits and restarted from the state they hand out, over chains of up to several stops and both ways of saving; oracle: the uninterrupted run of the same solver",
            "Every solver that hands out a state and accepts one is cut into seeded pieces and compared with the run that never stopped (iterates, stop rule and final result); dictionary learning and gradient solvers are resumed through their init arguments." + TRUST),
    "C10": (DST + "every iterative solver stopped at seeded iteration limits, numpy and torch; invariant: finite, feasible results whose reported values, scalings and loss histories are those recomputed from the returned plan",
            "The stop is the injected fault: an iteration limit drawn between 1 and convergence for every iterative public solver; constraints and values are recomputed by formulas of the harness. For solvers without a documented invariant only finiteness and shape are judged." + TRUST),
    "C11": (DST + "solvers cut at seeded iteration budgets and tolerances, repeated with more, equal and fewer iterations, or run on adversarial data under a step limit; oracle: the solver's own longer, exact and shorter runs, and errors recomputed from the iterates",
            "A warning (or its absence) is compared with the recorded errors, the reported iteration count is replayed as a budget, and every public operation runs on spoilt data with a limit on executed source lines. Solvers whose log belongs to an inner solver are only checked for termination and warn=False." + TRUST),
    "C12": (DST + "numerical faults (NaN, infinity, zero, overflow) injected into seeded kernel products of the running solvers, and extreme regularisations; oracle: last finite iterate of the undisturbed run, log-domain reference iterations",
            "The products of every scaling solver are intercepted at the array backend and spoilt at seeded calls; results must be finite, agree with the undisturbed run stopped before the fault and come with a warning. References in the log domain judge iterates, absorption and claimed convergence. Only products routed through the backend's dot can be spoilt." + TRUST),
    "C13": (DST + "seeded batches whose members are permuted, removed, copied, rescaled or replaced by NaN, infinite, huge or vanishing data; oracle: the member solved alone, and by the single-problem function",
            "Thirty-odd operations on batches (batched linear and quadratic solvers, several right-hand sides or histograms, one-dimensional, circular, Gaussian, sliced, simplex projections) in numpy and torch." + TRUST),
    "C14": (DST + "seeded splits of the same computation into pieces, piecewise reads in seeded order, a seeded piece failing and being repeated; oracle: the dense single-block computation",
            "Lazy plans, streamed Sinkhorn, batched transforms, sliced plans and sparse costs are evaluated under seeded chunk sizes and read orders in numpy and torch and compared with the dense result. Integer indices that keep their dimension are accepted." + TRUST),
    "C15": (DST + "seeded histories of estimator operations with fits interrupted at seeded source lines and fits on unusable data; oracle: a new estimator with the same parameters fitted once on the same data",
            "Twelve estimator classes (domain adaptation and the data scaler), numpy and torch, other sizes, dimensions and precisions between fits, parameter changes, copies and pickles. What an estimator answers between a failed fit and the next successful one is not judged." + TRUST),
    "C16": (DST + "clocks that stop, jump or run backwards, output streams that drop, refuse or delay, and seeded combinations of verbose, log, warn, warning filters and print options; oracle: the same call without diagnostics",
            "Every public operation with diagnostic options is compared across seeded combinations, including what reaches file descriptors 1 and 2. Third-party optimisers that print by themselves (wda, ewca, Brenier) are left out, and so is the warnings filter that turns warnings into errors." + TRUST),
    "C17": (DST + "optional packages made absent, broken on import, partly missing, outdated or failing when called, in seeded combinations before ot is imported; oracle: the same operations in an undamaged process image",
            "Fourteen optional packages and about 180 operations. jax, tensorflow and cupy are only ever absent or broken, so their backends are not exercised; damage that raises something other than ImportError is out of scope." + TRUST),
    "C18": (DST + "the sampling schedule of the stochastic solvers decided by the simulator (uniform, cyclic, reversed, permuted within passes, blocks, palindromes, uneven); oracle: a reference model of each algorithm driven by the recorded draws, and the optimum of the stated problem",
            "The random source of the stochastic solvers is replaced by seeded fair schedules; the recorded draws drive a small reference model, gradients are compared with finite differences, and the objective must have approached its optimum after a bounded number of passes. Schedules that are fair only in the limit are not simulated." + TRUST),
    "C19": (DST + "seeded orders of field reads on result objects with reads that are interrupted; oracle: the fields recomputed from the plan and the input problem, and the same reads in another order",
            "The result objects of every family behind solve, solve_gromov and solve_sample in numpy and torch. Values of methods that define them otherwise (sample approximations) are only checked for stability." + TRUST),
}
