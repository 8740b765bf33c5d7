"""Fills vf/groups.json (rules, must-reach monitors, budgets) and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = json.load(open(os.path.join(ROOT, "vf", "groups.json")))

META = {
"C01": ("Random sequences of lengths 1..~300 scanned with exact non-commutative monoids (strings, permutations, 2x2 integer matrices, affine maps, sets), interval-tracking operators and float matrices, both directions; a case counts if its length is > 1.",
        ["op", "scan", "scan_default"]),
"C02": ("Random finite-state problems (tables random/permutation/walk; costs dyadic/tied/real/negative/huge/sparse; mixed dtypes; horizons from 1) solved by the real code and judged against element-wise backward induction and brute force; counts if more than one control or state matters.",
        ["seqBackwardPass", "seqForwardPass", "fsc_seq_backwardpass", "fsc_seq_forwardpass", "batch_solution", "cost"]),
"C03": ("Random finite-state problems incl. tied optima and horizons 1,2,2^k,2^k+-1 solved by every parallel pass, judged against independent dynamic programming; counts if horizon and tables are not trivial.",
        ["parBackwardPass", "parForwardPass", "parFwdBwdPass", "parFwdBwdPass2", "fsc_par_backwardpass", "fsc_par_forwardpass", "fsc_par_fwdbwdpass", "tied_optimum"]),
"C04": ("Random hidden Markov models (dense, zero-probability, left-right, tied, peaked) with observation sequences drawn from them; decoders judged by the path probability and value tables of an independent max-sum recursion.",
        ["ref_viterbi", "ref_viterbi_log", "seqViterbi", "parBwdFwdViterbi", "parBwdFwdBwdViterbi", "viterbi_par_fwbw", "viterbi_par_fwbwfw", "viterbi_seqpar_fwbw", "tied"]),
"C05": ("Random convex tracking problems (cross terms, control maps, varying reference size, singular/unstable dynamics, omitted or constant data), judged by Schur-complement dynamic programming, dense minimization, adjoint gradients and the written-out objective.",
        ["seqBackwardPass", "batchSolution", "seqTransformedBackwardPass", "cost", "checkAndExpand"]),
"C06": ("Random convex tracking problems at horizons 1..~130 with bounded open-loop amplification; parallel passes against independent dynamic programming and roll-out.",
        ["parBackwardPass", "parForwardPass", "parFwdBwdPass", "parFwdBwdPass2", "T!=2^k"]),
"C07": ("Random canonical tracking problems for fixed tensor shapes and parallelism limits, float64 and float32, chained with arbitrary gains; tensor passes against independent dynamic programming.",
        ["lqt_seq_backwardpass", "lqt_par_backwardpass", "par_fw", "par_fwbw", "lqt_cost", "dtype:float32"]),
"C08": ("Random general problems converted, solved in canonical form and converted back; coefficients compared at every step after transfer.",
        ["lqt_gen_to_canon", "lqt_canon_to_gen", "lqt_np_to_tf_gen", "lqt_np_to_tf"]),
"C09": ("Random time-invariant regulators (singular, integrator, unstable dynamics) at all small iteration counts; judged by independent Riccati recursion and residual of the algebraic equation.",
        ["lqrDare", "lqrDouble", "lqrIter", "parBackwardPass", "parForwardPass"]),
"C10": ("Random tracking problems condensed with every kind of block length (1, dividing, non-dividing, longer than the horizon); expanded solutions against the uncondensed optimum.",
        ["condense", "convertUX", "padded", "divides"]),
"C11": ("Random time-varying and constant continuous problems; solvers at two or more step sizes against a Hamiltonian Magnus integrator (order of convergence and error level), plus batches, sub-intervals and held functions.",
        ["CLQT.seqBackwardPass", "CLQT.seqForwardPass", "CLQT.seqFwdBwdPass", "CLQR.seqBackwardPass exact", "clqt_seq_backwardpass", "steps"]),
"C12": ("Random continuous problems and block/step splits; block-parallel passes against the true solution with the convergence order of the step, and against each other.",
        ["CLQT.parBackwardPass", "CLQT.parForwardPass", "CLQT.parFwdBwdPass", "clqt_par_backwardpass", "clqt_par_fwdbwdpass"]),
"C13": ("Random continuous problems, block/step splits and iteration counts 0..blocks+2; iterates against a textbook parareal assembled from the sequential solver.",
        ["backwardPass", "forwardPass", "fwdBwdPass", "pclqt_backwardpass", "pclqt_fwdbwdpass", "full iteration"]),
"C14": ("Random conditional value tables, grids, drift/cost functions and block/step counts; recursions re-executed in float64 scalar code, direct shooting against linear-quadratic dynamic programming and roll-outs.",
        ["combine_V", "combine_V_interp", "symmetric", "upwind", "tensor symmetric", "tensor upwind", "tf par_bw_pass", "directShootingValueFunction", "direct_shooting_block_V"]),
"C15": ("Random smooth nonlinear systems and the unicycle; several successive iterations from consistent and inconsistent nominals against the exact minimizer of the linearized problem.",
        ["iterate 0", "iterate 1", "iterate 2", "linearize", "nlqt_iterate_seq", "nlqt_iterate_par_1", "nlqt_iterate_par_2", "reached a fixed point"]),
"C16": ("Random constrained programs (quadratic and non-quadratic, batched and not); iterates against an independently solved KKT system, converged points against residuals evaluated in float64.",
        ["lqe_solve", "local_eq", "local_eq_fast", "bfgs_eq_bt", "tf local_eq_fast batched", "newton converged"]),
"C17": ("Random linear systems (singular, unstable, integer typed, companion) and steps against a block matrix exponential evaluated by a different route; integrator call forms against the tableau.",
        ["lti_disc", "lti_disc_u", "rk4 f(x,t,param)", "tf rk4"]),
"C18": ("Random states, grids, horizons, seeds and texts through every model builder; derivatives by central differences, data against its documentation.",
        ["Fx", "Fu", "getLQT", "getFSC", "nonlinear_model_f", "velocity_model", "upwind_model", "getNthOrderPi", "indexToText"]),
"C19": ("Random interleavings of solver calls on shared problems with snapshots of all caller data before and after every call, and edits of returned or supplied data between calls.",
        ["operations", "edits"]),
"C20": ("Random problems in every legal mixture of lists, constants and omissions, and the same problems with one length or shape corrupted.",
        ["refusals", "solved", "checkAndExpand"]),
"C22": ("The scripts themselves on random command lines, with recorders at the benchmark functions (made-up results, or passing through to the real ones); calls, exit status and every written file judged against the options.",
        ["script", "benchmarks", "refusals"]),
"C23": ("Random data through every routine in every execution mode: direct, inside a caller's traced graph with changing data and shapes, inside a graph loop, eagerly, with other containers; JAX routines compiled, vectorized and uncompiled.",
        ["traced callers", "eager calls", "graph loops", "compiled", "vectorized", "other containers"]),
"C21": ("Random problems, sizes, block and step counts through every benchmarked routine, driver and generator; solutions against independent references, reported sizes and errors against recomputed ones.",
        []),
}
ASSUME = {
"C02": ["costs below the 1e20 'infinity' of the min-plus algebra"],
"C03": ["costs below the 1e20 'infinity' of the min-plus algebra"],
"C04": ["probability-domain reference recursion is judged only where it does not underflow"],
"C05": ["problems with value matrices below 1e5"],
"C06": ["bounded open-loop amplification (parallel composition multiplies transition matrices)"],
"C07": ["bounded open-loop amplification"],
"C10": ["condensing is defined for M=0, s=0, Z=I and one reference dimension"],
"C11": ["smooth coefficients; step small enough for the asymptotic order"],
"C12": ["smooth coefficients; step small enough for the asymptotic order"],
"C14": ["value functions below the 1e20 'infinity' of the min-plus algebra"],
}
for k, (rule, must) in META.items():
    if k not in G:
        continue
    G[k]["rule"] = rule
    G[k]["must_reach"] = must
    G[k]["assumptions"] = ASSUME.get(k, [])
    G[k].setdefault("budget_quick", 240)
json.dump(G, open(os.path.join(ROOT, "vf", "groups.json"), "w"), indent=1)

TECH = "runtime monitoring: %s"
T = {
"C01": "operator-call tracing and exact oracle on randomized scans",
"C02": "optimality oracle on recorded solutions of randomized problems",
"C03": "optimality oracle on recorded parallel solutions",
"C04": "path-probability oracle on recorded decodings",
"C05": "optimality and stationarity oracles on recorded solutions",
"C06": "differential oracle on recorded parallel solutions",
"C07": "optimality oracle on recorded tensor solutions",
"C08": "optimality and transfer oracles",
"C09": "Riccati residual and iterate oracles",
"C10": "optimality oracle on expanded condensed solutions",
"C11": "convergence-order monitor against a Hamiltonian reference",
"C12": "convergence-order and differential monitors",
"C13": "iterate-by-iterate oracle against textbook parareal",
"C14": "recursion re-execution oracle, differential and shooting oracles",
"C15": "exact-step oracle on every iteration of the run",
"C16": "KKT oracle on every iterate and final point",
"C17": "exact discretization and tableau oracles",
"C18": "derivative and data-contract monitors",
"C19": "caller-state snapshots around every call of randomized interleavings",
"C20": "refusal and expansion monitors under randomized corruption",
"C22": "call-log and file monitors on recorded script runs",
"C23": "metamorphic oracle across execution modes",
"C21": "result and report oracles on recorded driver runs",
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p not in G:
        continue
    checks.append(dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=TECH % T[p], level="exploration",
                       level_note="Runs the code in /repo on seeded random and boundary workloads and judges every recorded result with an independent oracle; assurance is limited to the executions observed (counted in the evidence). "
                       + ("Assumes: " + "; ".join(ASSUME[p]) + ". " if p in ASSUME else "")
                       + "Trusts numpy/scipy linear algebra used by the oracle."))
na = [dict(property=p, reason="check not built yet") for p in props if p not in G]
json.dump(dict(version=1, setup_cmd="./setup.sh",
               checks=checks, not_applicable=na,
               notes="Pure Python project: every check imports the working tree of /repo directly (PYTHONPATH), so nothing is compiled. See DESIGN.md."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
