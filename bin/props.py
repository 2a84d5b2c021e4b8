# Everything that is said about the properties: text for properties.jsonl, how each is decided, bounds, and what to run.
ENV = "the library is compiled from /repo's working tree with every libc entry point it uses (heap, rand, sigaction, clock, stdio) redirected to the harness"
def anchors(files, mech, state=(), observe=()):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": None}
SOLVE = "src/ecos.c"
PROPS = {}
def P(pid, title, statement, over, text, why, anch, level, note, technique, bounds, parts, rule="", state="", assumptions=(), soft=None):
    PROPS[pid] = dict(title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=anch, level=level, level_note=note, technique=technique,
                      bounds=bounds, parts=parts, rule=rule, state=state, assumptions=[ENV] + list(assumptions), soft=soft or {})
SOFT = {"not solved to full accuracy": 1e-3}
EXH = "stateless exhaustive exploration of the real code over a bounded input space"
HIST = "explicit exploration of all operation histories up to a depth on the real code"

P("C01", "An OPTIMAL answer is certified by the returned point",
  "Whenever the solver answers OPTIMAL, the returned primal-dual point satisfies, on the caller's own data and to the documented tolerances, the equality constraints, the cone constraint of the slack, the dual equations and the dual cone, and the duality gap is closed; OPTIMAL_INACC means the same to the reduced tolerances. This is so for every well-formed problem, including degenerate, redundant, badly posed and infeasible ones.",
  ["inputs"], "every problem: all cone mixes, all coefficient, right-hand side and cost values, full rank or not, feasible or not",
  "The tests check the exit code of a dozen fixed problems and never evaluate the returned point against the problem data.",
  anchors([SOLVE, "src/equil.c", "src/kkt.c", "src/cone.c", "src/expcone.c"], [("termination test", "src/ecos.c checkExitConditions"), ("residuals and statistics", "src/ecos.c computeResiduals, updateStatistics"), ("undoing the scaling", "src/ecos.c backscale, src/equil.c")], observe=["ECOS_solve exit code, x, y, s, z"]),
  "exploration", "Exhaustive within the stated families (every member is solved by the real code and its claim re-checked from scratch in extended precision); says nothing about larger problems or other coefficients.", EXH,
  {"quick": "see evidence: all matrices over {0,1,-1} x all right-hand sides and costs over small alphabets for the listed cone shapes (1-3 variables, cones up to 5 rows, exponential cones)", "thorough": "more shapes and larger alphabets"},
  [dict(driver="claim", defs=["-DMODE=1"])], rule="cases are all members of the listed families; non-trivial: the solver iterated at least once before answering")

P("C02", "Every small LP gets the exact verdict and optimal value",
  "For a linear program the solver's verdict agrees with the truth: it never reports a solution of an infeasible or unbounded program, never declares a strictly feasible one infeasible or a dual-feasible one unbounded, and the cost it reports as optimal is the true optimal value. Programs that are strictly feasible, or infeasible or unbounded in a stable way, are recognised as such.",
  ["inputs"], "all linear programs over the stated coefficient alphabets and dimensions",
  "Verdict errors appear at specific combinations of vanishing rows, columns and costs; the tests hold five LPs.",
  anchors([SOLVE, "src/preproc.c", "src/kkt.c"], [("verdict", "src/ecos.c checkExitConditions"), ("certificates", "src/ecos.c computeResiduals/updateStatistics"), ("transposition for the products with A' and G'", "src/splamm.c transposeSparseMatrix")], observe=["exit code, pcost"]),
  "exploration", "Exhaustive within the stated families against an exact rational-arithmetic reference (vertex and ray enumeration); a rate of up to 1 in 1000 honest weaker answers (INACC, MAXIT, NUMERICS) on well-posed programs is tolerated.", EXH + ", exact rational oracle",
  {"quick": "10 families: n<=3, m<=4, p<=2, entries in {0,1,-1} or {0,1,-1,2}, every multiset of rows, every cost", "thorough": "15 families up to n=3,m=4 / n=2,m=5"},
  [dict(driver="lp")], rule="every multiset of rows x equality rows x costs of each family; non-trivial: at least one interior-point iteration was made", soft=SOFT)

P("C03", "Infeasibility and unboundedness claims come with a valid certificate",
  "Whenever the solver answers that a problem is infeasible or unbounded, the returned vector is a certificate on the caller's own data: multipliers in the dual cone with A'y+G'z=0 and b'y+h'z<0, or a ray in the cone with Ax=0, Gx+s=0 and c'x<0, relative to its size. In particular the claim is never made for a problem that is strictly feasible, respectively has a strictly feasible dual.",
  ["inputs"], "every problem: all cone mixes and data, full rank or not",
  "The tests contain one infeasible and one unbounded problem, and look only at the exit code.",
  anchors([SOLVE, "src/equil.c", "src/kkt.c"], [("certificate tests", "src/ecos.c checkExitConditions"), ("pinfres, dinfres", "src/ecos.c updateStatistics"), ("undoing the scaling", "src/ecos.c backscale")], observe=["exit code, y, z / x, s"]),
  "exploration", "Exhaustive within the stated families; certificates are re-checked in extended precision on the original data.", EXH,
  {"quick": "the families of C01 read for certificates, plus problems constructed infeasible or unbounded", "thorough": "more shapes and larger alphabets"},
  [dict(driver="claim", defs=["-DMODE=2"])], rule="all members of the listed families; non-trivial: the solver answered with an infeasibility or unboundedness claim after at least one iteration")

P("C04", "Strictly feasible second-order cone programs are solved",
  "Every second-order cone program of full rank that has a strictly feasible primal and a strictly feasible dual point is answered OPTIMAL with a correct solution.",
  ["inputs"], "all cone shapes, all constraint matrices over the alphabet, several positions of the strictly feasible pair",
  "Needs every matrix and cone layout, including single-row cones and cones split over variables; the tests hold a handful.",
  anchors([SOLVE, "src/kkt.c", "src/cone.c"], [("search directions and line search", "src/ecos.c, src/cone.c"), ("expanded KKT system", "src/preproc.c createKKT_U, src/kkt.c kkt_update")], observe=["exit code, x, y, s, z"]),
  "exploration", "Exhaustive within the listed shapes; 1 in 1000 honest weaker answers tolerated, a false answer never.", EXH,
  {"quick": "16 shapes, all matrices over {0,1,-1}, 4 equality rows, up to 9 strictly feasible pairs", "thorough": "22 shapes"},
  [dict(driver="conic", defs=["-DMODE=1"])], rule="every matrix over {0,1,-1} of every listed shape x strictly feasible pairs; non-trivial: more than one iteration", soft=SOFT)

P("C05", "Strictly feasible exponential cone programs are solved",
  "Every program with exponential cones (alone or mixed with linear and second-order cones) of full rank that has a strictly feasible primal and a strictly feasible dual point is answered OPTIMAL with a correct solution.",
  ["inputs"], "all cone mixes, all constraint matrices over the alphabet, several positions of the strictly feasible pair",
  "Exponential cones need step-by-step centrality and domain tests whose failure shows only on particular geometry; the tests hold four such problems.",
  anchors([SOLVE, "src/expcone.c", "src/cone.c", "src/kkt.c"], [("barrier derivatives", "src/expcone.c"), ("line search with centrality test", "src/ecos.c expConeLineSearch")], observe=["exit code, x, y, s, z"]),
  "exploration", "Exhaustive within the listed shapes; 1 in 1000 honest weaker answers tolerated, a false answer never.", EXH,
  {"quick": "9 shapes with 1-2 exponential cones, all matrices over {0,1,-1}", "thorough": "14 shapes"},
  [dict(driver="conic", defs=["-DMODE=2"])], rule="every matrix over {0,1,-1} of every listed shape x strictly feasible pairs; non-trivial: more than one iteration", soft=SOFT)

P("C06", "A workspace with any history answers like a fresh one",
  "After any sequence of solves, data updates (whole arrays or single entries) and setting changes on one workspace, a solve gives the same verdict and, to solver accuracy, the same optimal value, certificate and iteration count as a workspace freshly set up with the current data and settings. Nothing from earlier data or earlier solves is visible in the answer.",
  ["histories"], "all sequences of solve / update-all / update-entry / rewrite-in-place / iteration-limit operations up to the depth",
  "The tests contain one update followed by one solve; a stale field needs a particular sequence of data, verdicts and limits to show.",
  anchors([SOLVE, "src/preproc.c", "src/equil.c"], [("initialisation of a solve", "src/ecos.c init"), ("data update", "src/preproc.c ECOS_updateData, ecos_updateDataEntry_*"), ("best iterate kept for a weaker answer", "src/ecos.c saveIterateAsBest/restoreBestIterate")], [("best_*", "best iterate so far", "include/ecos.h pwork"), ("xequil, Aequil, Gequil", "scaling applied to the stored data", "include/ecos.h pwork")], ["every ECOS_solve of the history"]),
  "model_checking", "Every history up to the bound is executed on the real code and every solve in it compared with a fresh workspace. Bitwise equality is not claimed, because the cost vector drifts by rounding when it is scaled and unscaled. updateData is used with all arrays new or all rewritten in place.", HIST + ", differential against a fresh workspace",
  {"quick": "9 operations, depth 6 (5 and a final solve), over the 14-problem zoo (3 same-pattern data sets each); every pair of single-entry updates with 7 kinds of value each (among them the number stored in the scaled workspace); whole updates with 5^5 relative placements of old and new arrays", "thorough": "depth 7"},
  [dict(driver="hist", variant="fine"), dict(driver="place", defs=["-DMODE=1"])], state="digest of the workspace's visible fields and of the data in force after each operation")

P("C07", "Workspaces do not influence each other",
  "Two workspaces, with separate data, used alternately or concurrently in one process, each behave exactly as if they were alone: bit-for-bit the same answers, statistics and restored data.",
  ["schedules"], "all interleavings of the operations of two workspaces, and preemption of one by the other at any point inside setup, solve and cleanup",
  "Every test uses one workspace at a time.",
  anchors([SOLVE, "src/preproc.c", "src/kkt.c", "external/ldl/src/ldl.c", "external/amd/src"], [("all state lives in the workspace", "include/ecos.h pwork"), ("no static scratch", "src/*.c, external/*")], observe=["answers, info and returned data of both"]),
  "model_checking", "All operation-level interleavings and, for the problem pairs listed, a preemption at every basic block of setup+solve+cleanup (1 preemption exhaustively, 2 on a grid). Hardware-level races inside a basic block are not modelled; the SIGINT disposition, which is process-wide by nature, is outside this property.", "preemption-bounded exploration of interleavings of the real code under a controlled scheduler",
  {"quick": "252 operation interleavings per pair of 14 problems; every basic block as single preemption point for 28 pairs; 2 preemptions on a 39x39 grid", "thorough": "all pairs; 119x119 grid"},
  [dict(driver="iso", defs=["-DMODE=1"], suffix="-ops"), dict(driver="iso", variant="fine", defs=["-DMODE=2"], suffix="-preempt")], state="pair of problems, program counters or preemption points, observations so far")

P("C08", "The caller's arrays are given back unchanged",
  "Index arrays and cone dimensions passed by the caller are never written. After cleanup (and, after an update that replaces all arrays, at once for the replaced ones) the caller's matrices and vectors hold the values he put there, up to rounding of the scaling, whatever the verdict and whatever exit the solve took; vectors the caller asked to keep survive cleanup intact.",
  ["inputs", "histories"], "all life cycles (setup, solves, updates, cleanup) x problems, shapes and entry magnitudes",
  "The solver scales the caller's arrays in place and must undo it on every path; no test looks at its input arrays afterwards.",
  anchors([SOLVE, "src/equil.c", "src/preproc.c"], [("scaling and unscaling", "src/equil.c set_equilibration/unset_equilibration"), ("cleanup", "src/preproc.c ECOS_cleanup"), ("hand-over in updates", "src/preproc.c ECOS_updateData")], observe=["the caller's arrays after cleanup and updates"]),
  "exploration", "Exhaustive over the listed life cycles and problems (relative accuracy 1e-11). Not claimed for non-finite entries, nor 1e100 and beyond.", EXH,
  {"quick": "13 life cycles x (zoo x 3, all small shapes with empty rows/columns, hostile and scaled entries in each position); updates with 5^5 relative placements of old and new arrays (apart, adjacent, one number apart)", "thorough": "more shapes and zoo variants"},
  [dict(driver="mem", defs=["-DMODE=2"]), dict(driver="bbmem", defs=["-DMODE=2"]), dict(driver="place", defs=["-DMODE=2"])], rule="problem x life cycle; non-trivial: at least one solve was made")

P("C09", "No invalid memory access, no leak, no use of fresh memory contents",
  "For every well-formed call sequence, including extreme shapes, absent matrices and hostile numbers, the library touches only memory it owns or was given, frees every block it allocated exactly once (nothing is leaked even when setup refuses the dimensions), and its results do not depend on what freshly allocated memory happened to contain.",
  ["inputs", "histories"], "all life cycles x shapes (any combination of empty dimensions and cones) x numbers including infinities and NaN",
  "The tests never run under a checker and use well-shaped problems only.",
  anchors(["src/preproc.c", SOLVE, "src/kkt.c", "src/splamm.c", "external/amd/src", "external/ldl/src/ldl.c"], [("allocation and release", "src/preproc.c ECOS_setup/ECOS_cleanup"), ("index computations", "src/preproc.c createKKT_U, src/kkt.c")], observe=["heap guards, AddressSanitizer, live block count, results under different fill bytes"]),
  "exploration", "Exhaustive over the listed space on the real code with a guarded heap and three fill patterns, and again compiled with AddressSanitizer and UBSan. Running out of memory is not covered (the library does not claim to survive it).", EXH + " under a guarded heap and sanitizers",
  {"quick": "13 life cycles x (zoo, small shapes, hostile numbers), 3 heap fills; the same under ASan+UBSan", "thorough": "all small shapes"},
  [dict(driver="mem", defs=["-DMODE=1"]), dict(driver="mem", variant="asan", defs=["-DMODE=1"], suffix="-asan"), dict(driver="bbmem", defs=["-DMODE=1"]), dict(driver="bbmem", variant="asan", defs=["-DMODE=1"], suffix="-asan")], rule="problem x life cycle x heap fill; non-trivial: at least one solve was made")

P("C10", "SIGINT at any moment stops a solve promptly and cleanly",
  "With the interrupt handler compiled in, a SIGINT arriving at any moment of a solve ends it within one iteration with the SIGINT code or a justified answer; the previous signal disposition is back in force afterwards, whatever it was, and the workspace can be solved again with the same result as if nothing had happened. Signals outside a solve go to the caller's own handler.",
  ["schedules", "fault_sequences"], "delivery at every basic block of every solve, for each previous disposition",
  "A test would have to hit one of thousands of moments inside a millisecond.",
  anchors(["src/ctrlc.c", SOLVE], [("handler installation and restoring", "src/ctrlc.c init_ctrlc/remove_ctrlc"), ("polling", "src/ecos.c ECOS_solve via check_ctrlc")], [("int_detected", "an interrupt has been seen", "src/ctrlc.c")], ["exit code, iterations, process disposition, next solve"]),
  "model_checking", "Every delivery point at basic-block granularity for every zoo problem; the kernel's part is modelled by the harness (disposition table, delivery on demand).", "exhaustive fault injection at every basic block of the real code",
  {"quick": "14 problems x every basic block (user handler), grid for SIG_IGN/SIG_DFL; every other block with an iteration limit of 0, 1, 3 and one less than needed", "thorough": "3 data variants each, finer grids, every block with each limit"},
  [dict(driver="sigint", variant="fine")], state="problem, exit code, iteration count at delivery and at return")

P("C11", "Iteration limits and verbosity do not change what is computed",
  "For every limit k the solver stops after at most k iterations; a limit at or above the number it needs changes nothing, and below it the answer is MAXIT or a justified reduced-accuracy verdict about the best point found. The verbosity setting changes nothing but the output.",
  ["configurations", "inputs"], "every limit from 0 to beyond the needed number, both verbosity levels, every problem of the family",
  "Tests run with one fixed limit.",
  anchors([SOLVE], [("main loop", "src/ecos.c ECOS_solve"), ("best iterate", "src/ecos.c compareStatistics/saveIterateAsBest/restoreBestIterate")], observe=["exit code, iter, x, y, s, z, printed output"]),
  "exploration", "Exhaustive over limits for every member of the families.", EXH,
  {"quick": "zoo x 3 and small conic and LP families x every limit", "thorough": "larger families"},
  [dict(driver="limits")], rule="problem x limit x verbosity; non-trivial: the limit cut the solve short")

P("C12", "The reported statistics describe the returned point",
  "After every solve the statistics are true statements about the returned point: primal and dual cost, gap, residuals (relative, on the caller's data), infeasibility indicators and iteration count, and the solve time is the time that passed.",
  ["inputs"], "every problem, verdict and exit",
  "The tests never compare the statistics with the point.",
  anchors([SOLVE, "src/timer.c"], [("statistics", "src/ecos.c updateStatistics, backscale"), ("timing", "src/timer.c tic/toc")], observe=["info after ECOS_solve"]),
  "exploration", "Exhaustive over the families, recomputed in extended precision on the original data; the clock is virtual.", EXH,
  {"quick": "zoo, conic families and LP families x exits", "thorough": "larger families"},
  [dict(driver="stats")], rule="problem x iteration limit; non-trivial: at least one iteration")

P("C13", "Equivalent descriptions of a problem give equivalent answers",
  "The verdict and the optimal value do not depend on how the same problem is written down: order of variables, of linear rows, of cones or of equality rows, order of entries inside a column, explicitly stored zeros, positive scaling of rows or of the cost, or absent instead of empty matrices.",
  ["inputs", "configurations"], "all permutations and the listed rewritings of every problem",
  "Tests use one description per problem.",
  anchors(["src/preproc.c", "src/splamm.c", "src/equil.c", "external/amd/src"], [("KKT assembly", "src/preproc.c createKKT_U"), ("fill-reducing ordering", "external/amd"), ("equilibration", "src/equil.c")], observe=["exit code, pcost, x"]),
  "exploration", "All permutations and rewritings of each base problem, differential against the base description.", EXH + ", metamorphic",
  {"quick": "zoo x 3 and a conic family: all variable/row/cone permutations, all per-column entry orders, zero patterns", "thorough": "larger base family"},
  [dict(driver="equiv")], rule="base problem x rewriting; non-trivial: the rewriting changed an array", soft={"accuracy differs between descriptions": 2e-3})

P("C14", "Branch and bound finds the true optimum of mixed-integer programs",
  "For a mixed-integer program with boolean and integer variables, the branch-and-bound solver returns an integer-feasible point whose cost is optimal up to the configured gaps, and reports infeasibility exactly when no integer point is feasible and unboundedness exactly when the cost can decrease for ever.",
  ["inputs"], "all small mixed-integer programs over the stated alphabets",
  "Seven fixed problems; branching order, rounding and bound bookkeeping go wrong only on particular trees.",
  anchors(["ecos_bb/ecos_bb.c", "ecos_bb/ecos_bb_preproc.c"], [("tree search", "ecos_bb/ecos_bb.c ECOS_BB_solve, branch, get_bounds"), ("bound rows", "ecos_bb/ecos_bb_preproc.c socp_to_ecos_bb")], observe=["exit code, x, cost"]),
  "exploration", "Exhaustive within the families against enumeration of all integer points with an exact or independently solved continuous part.", EXH + ", brute-force oracle",
  {"quick": "15 families of integer and mixed LPs (1-3 variables, 1-2 general rows, optional equality row, boolean/integer/continuous mixes), rows that miss integer points by 0.001 or 0.008, second-order and exponential cone programs in 2-3 variables: 205k problems", "thorough": "6 more families, up to 4 variables"},
  [dict(driver="bbopt")], rule="all members of the families; non-trivial: the root relaxation was fractional (branching happened)", soft={"search given up": 5e-4})

P("C15", "Every branching strategy and every random choice is correct",
  "All branching strategies and node selection rules, with any outcome of the random choices, end in the same verdict and an optimal answer; settings change the route, not the result.",
  ["configurations", "schedules"], "all combinations of branching strategy and node selection, and all sequences of random draws up to the bound",
  "Tests use the default settings; random draws are fixed by the C library.",
  anchors(["ecos_bb/ecos_bb.c"], [("branching strategies", "ecos_bb/ecos_bb.c get_branch_var and helpers"), ("node selection", "ecos_bb/ecos_bb.c get_next_node")], observe=["exit code, x, cost"]),
  "model_checking", "All strategy combinations x every random choice tree on the real code, for the stated problems.", "exhaustive exploration of all nondeterministic choices of the real code",
  {"quick": "7 branching configurations (most infeasible, strong, pseudocost, reliability with eta 0, 1 and 6, random) x 3 node selections; every sequence of the first 7 random draws (2 alternatives, 2 integer variables) or 3 draws (6 alternatives, 3 variables)", "thorough": "10 and 5 draws"},
  [dict(driver="bbtree", defs=["-DMODE=1"])], state="problem, configuration and digest of the node table after the run", soft={"search given up": 5e-4})

P("C16", "Node limits are respected and partial answers are honest",
  "With any node limit the search stops within it; an answer OPTIMAL or INFEASIBLE is then still true, and an answer that reports a feasible but unproven point carries a point that is feasible and whose cost is the reported one, with valid bounds on the optimum.",
  ["configurations", "inputs"], "every node limit from 0 to beyond the size of the full tree",
  "Tests run with the default limit only.",
  anchors(["ecos_bb/ecos_bb.c"], [("main loop", "ecos_bb/ecos_bb.c ECOS_BB_solve"), ("verdict", "ecos_bb/ecos_bb.c get_ret_code")], observe=["exit code, x, iter"]),
  "exploration", "Exhaustive over limits for every member of the families.", EXH, {"quick": "every limit 0, 1, .. up to 2 beyond the full tree (at most 24), 5 branching strategies x 3 node selections", "thorough": "limits up to 250, and the whole quick family of C14 with reliability branching"}, [dict(driver="bbtree", defs=["-DMODE=2"])], rule="problem x limit; non-trivial: the limit cut the search short")

P("C17", "A mixed-integer workspace with any history answers like a fresh one",
  "After any sequence of solves (complete, cut short by a limit, interrupted), updates of entries of the cost and right-hand side, and changes of settings, a mixed-integer solve gives the answer a fresh workspace with the current data gives; the caller's matrices, right-hand side and index lists are untouched and cleanup gives back the memory.",
  ["histories"], "all sequences of operations up to the depth",
  "No test updates a mixed-integer problem.",
  anchors(["ecos_bb/ecos_bb.c", "ecos_bb/ecos_bb_preproc.c"], [("updates", "ecos_bb/ecos_bb.c updateDataEntry_h/c, ECOS_BB_solve initialisation"), ("bounds of integer variables", "ecos_bb/ecos_bb.c")], observe=["exit code, x, cost of every solve"]),
  "model_checking", "Every history up to the bound is executed on the real code and compared with a fresh workspace.", HIST, {"quick": "7 operations (solve, solve with 2 nodes, solve interrupted half-way, update of h, update of c, change of strategy and selection, limit raised beyond the one at setup), depth 4 + final solve, 9 problems with 3 data sets each", "thorough": "depth 5"}, [dict(driver="bbhist", variant="fine")], state="problem, data set and settings in force, digest of the node table and bound after each solve")

P("C18", "Which variables are integer is taken as the caller said",
  "The lists of boolean and integer variables may name any variables in any order; the result is the same as for the sorted lists and for the problem with its variables renumbered.",
  ["inputs"], "all assignments of kinds to variables, all orders of the lists",
  "Tests list variables in increasing order, booleans only or integers only.",
  anchors(["ecos_bb/ecos_bb_preproc.c", "ecos_bb/ecos_bb.c"], [("bound rows", "ecos_bb/ecos_bb_preproc.c socp_to_ecos_bb"), ("row to variable map", "ecos_bb/ecos_bb.c set_prob")], observe=["exit code, x"]),
  "exploration", "Exhaustive over kinds and orders for the stated problems.", EXH, {"quick": "n=2..4 boxed variables, 0-2 general rows or a ball, every assignment of kinds (including none), every order of both lists", "thorough": "larger alphabets, n=5"}, [dict(driver="bblist")], rule="problem x kinds x list orders; non-trivial: a list not in increasing order, or an integer variable before a boolean one", soft={"search given up": 5e-4})

P("C19", "Fill-reducing ordering always yields a valid permutation",
  "For every sparse pattern, in whatever form it is stored, the ordering routine returns a permutation of all indices, orders forests without fill, reports statistics that are exact for the matrix and upper bounds for the true factor, also with the smallest workspace and with dense rows; malformed input is rejected with the documented status; nothing is written out of bounds and all memory is released.",
  ["inputs", "configurations"], "all patterns up to the stated order, all control settings, both index widths",
  "Exercised only through solver problems with a few similar patterns.",
  anchors(["external/amd/src"], [("ordering", "external/amd/src/amd_2.c"), ("validation", "external/amd/src/amd_valid.c"), ("post-ordering", "external/amd/src/amd_postorder.c")], observe=["permutation, status, info"]),
  "exploration", "Every symmetric pattern up to the order, and every (also non-symmetric, jumbled) pattern of smaller order, is run.", EXH, {"quick": "all 2.1 million graphs up to order 7 (order 6 and below: 6 storage forms x 6 control settings), all directed patterns up to order 4, 5 base graphs x 0..n dense rows x 3 positions for orders 15-30, all malformed inputs over a small range; both index widths", "thorough": "all storage forms and controls at order 7, dense rows up to order 60"}, [dict(driver="amdord"), dict(driver="amdord", variant="int", suffix="_int")], rule="pattern x controls; non-trivial: at least one off-diagonal entry")

P("C20", "Sparse factorisation and triangular solves equal the dense computation",
  "For every symmetric sparse matrix the symbolic analysis gives the exact fill and elimination tree, the factors reproduce the matrix, dynamic regularisation replaces exactly the pivots of the wrong sign or too small by the documented value (never one of a quasi-definite matrix), and the triangular and diagonal solves are backward stable.",
  ["inputs"], "all patterns of small order, all sign vectors, small value alphabets",
  "Only used inside the solver, where refinement hides errors.",
  anchors(["external/ldl/src/ldl.c"] , [("symbolic and numeric factorisation", "external/ldl/src/ldl.c"), ("solves", "external/ldl/src/ldl.c LDL_lsolve, LDL_dsolve, LDL_ltsolve")], observe=["factors, solutions"]),
  "exploration", "Exhaustive over the stated matrices against dense long-double arithmetic.", EXH, {"quick": "all quasi-definite patterns up to order 5 (4 values up to order 3, 3 at order 4, 2 at order 5) x all sign vectors x 2 storage orders; all matrices up to order 3 with 4 off-diagonal and 6 diagonal values x all sign vectors x 3 regularisation settings, missing diagonals included; both index widths", "thorough": "more values at orders 4 and 5, any values up to order 4"}, [dict(driver="ldlfac"), dict(driver="ldlfac", variant="int", suffix="_int")], rule="matrix x right-hand side; non-trivial: an off-diagonal entry is present")

P("C21", "Cone operations agree with their definitions and keep iterates interior",
  "For the linear and second-order cones the Jordan product, its inverse, the scaling and its expanded form satisfy their defining equations for every pair of interior points; every step length allowed keeps both iterates inside their cones and is the longest one that does, up to the cap; and any vector is moved into the cone by the start-up shift.",
  ["inputs"], "all pairs of points on a grid for all cone layouts",
  "The tests never call the cone functions with chosen points.",
  anchors(["src/cone.c", SOLVE, "src/kkt.c"], [("scalings", "src/cone.c updateScalings, scale, unscale"), ("products", "src/cone.c conicProduct, conicDivision"), ("start", "src/cone.c bring2cone"), ("line search", "src/ecos.c lineSearch")], observe=["results of the cone functions"]),
  "exploration", "Exhaustive over the grid against dense long-double arithmetic.", EXH, {"quick": "13 cone layouts (up to 5 rows, with and without exponential cones behind), all ordered pairs of interior grid points, the line search over a grid of direction pairs, all start-up vectors over a grid, 53x53 pairs of distances 2^-k to the boundary", "thorough": "19 layouts, finer grids"}, [dict(driver="conealg")], rule="cone layout x pair of interior points; non-trivial: points differ from the identity direction")

P("C22", "Exponential cone derivatives, membership tests and centrality are right",
  "For every point off the degenerate faces the membership tests agree with the definition of the exponential cone and its dual, for lists of cones too; for every interior point the gradient and Hessian of the dual barrier and both barrier values are those of the documented barrier (plus infinity outside the symmetric cones); the Wright omega function solves its defining equation up to 1e100; and the centrality line search returns the first step of its backtracking sequence that is interior, complementary and central enough.",
  ["inputs"], "a grid over the cone interior and around its boundary, and over the argument range",
  "Wrong derivatives slow convergence without failing a test.",
  anchors(["src/expcone.c", "src/wright_omega.c"], [("derivatives", "src/expcone.c evalExpHessian, evalExpGradient"), ("membership", "src/expcone.c evalExpPrimalFeas, evalExpDualFeas"), ("omega", "src/wright_omega.c")], observe=["function results"]),
  "exploration", "Exhaustive over the grid against long-double definitions, automatic differentiation and the conjugacy of the two barriers.", EXH, {"quick": "omega at 120,000 arguments; 343 interior points x 3 scalings; all pairs of 283 primal and dual points; 1331 grid triples and 560 points at distance 2^-k from the boundary, in lists of up to three cones; 6 cone layouts x 75 pairs x 1024 direction pairs for the line search", "thorough": "finer grids, 8 layouts, 4096 direction pairs"}, [dict(driver="expalg")], rule="grid points; non-trivial: interior points")

P("C23", "Sparse matrix primitives equal the dense computation",
  "Transposition with its entry map, copying, products with and without accumulation, with the transpose and without the diagonal, the symmetric permutation with its entry map, and the vector operations give, for every sparse matrix including ones with empty rows, columns, stored zeros or no entries, exactly what the dense definition gives, and write nothing else.",
  ["inputs"], "all small matrices over an alphabet, all patterns",
  "Edge shapes never occur in the test problems.",
  anchors(["src/splamm.c", "src/spla.c"], [("matrix-matrix", "src/splamm.c"), ("matrix-vector and vectors", "src/spla.c")], observe=["results"]),
  "exploration", "Exhaustive over the stated matrices against dense arithmetic.", EXH, {"quick": "all matrices of all 25 shapes up to 4x4 over 2 to 4 values, 3 storage forms each; all symmetric patterns up to order 5 x all permutations", "thorough": "also 3x4, 4x3, 2x5, 5x2 over 3 values, 3x3 and 1x6 over 4, and all symmetric patterns of order 6 with full diagonal x all permutations"}, [dict(driver="sparse")], rule="matrix x operation; non-trivial: at least one entry")

P("C24", "Scaling of the data is an exact, invertible change of variables",
  "Equilibration divides rows and columns by positive finite factors, the same for all rows of one non-linear cone, which are those of the documented iteration (three passes of Ruiz scaling); its inverse restores the data, at cleanup and at every update of the data; new data are scaled afresh; and a point of the scaled problem is mapped back to the corresponding point of the original problem.",
  ["inputs"], "all small matrices with entries of widely different magnitude, empty rows and columns included",
  "The tests use well-scaled data and check only exit codes.",
  anchors(["src/equil.c", SOLVE], [("scaling", "src/equil.c use_ruiz_equilibration"), ("inverse", "src/equil.c unset_equilibration"), ("mapping back", "src/ecos.c backscale")], observe=["data and factors after setup and cleanup"]),
  "exploration", "Exhaustive over the stated matrices.", EXH, {"quick": "18 shapes (up to 3 variables, 6 rows, all cone types), all matrices over up to 8 magnitudes from 7e-9 to 3e7, with and without stored zeros", "thorough": "28 shapes, larger alphabets"}, [dict(driver="equil")], rule="matrix x cone layout; non-trivial: entries of different magnitude")

P("C25", "The build options change speed or convenience, not answers",
  "The library built with 32-bit or 64-bit indices, with or without the interrupt handler, at any print and profiling level, with or without exponential cones, compiles, links and gives bit-for-bit the same verdicts, points, statistics, printed text (at the same print level) and restored data, for the conic solver and for branch and bound.",
  ["configurations", "inputs"], "eight builds x every problem of the families x life cycles",
  "The test-suite is run on one build.",
  anchors(["include/glblopts.h", "src/ctrlc.c", "external/SuiteSparse_config/SuiteSparse_config.h", "external/ldl/include/ldl.h"], [("index type selection", "include/glblopts.h, SuiteSparse_config.h"), ("interrupt support switch", "include/ctrlc.h")], observe=["full solver result per build"]),
  "exploration", "Exhaustive over the families, the builds linked into one program and compared bit for bit.", EXH + ", differential between builds", {"quick": "four builds (64/32-bit indices x with/without interrupt handler) and, against the default build, four more (print level 0 without profiling, print level 1 with detailed profiling, print level 3, no exponential cones), each of which must also compile and link; every member of the base families (data problems and all small conic programs), 264 sparse problems with 4 to 14 variables, mixed-integer families with 5 strategy settings: life cycle setup, solve, solve, updateData, solve, entry updates, solve, cleanup; all numbers of work space, node table and statistics, fill-reducing ordering, printed text (verbose, iteration limits 1 and 3), restored data and leaked blocks compared bit for bit", "thorough": "larger base and mixed-integer families, 15 strategy settings, sparse problems up to 24 variables"}, [dict(driver="builds", variants=["base", "int", "noctrlc", "intnoctrlc"], prefix={"base": "base_", "int": "int_", "noctrlc": "noctrlc_", "intnoctrlc": "intnoctrlc_"}, wrap="wrap.c", defs=["-DMODE=0"]), dict(driver="builds", suffix="_sw", variants=["base", "quiet", "final", "loud", "noexp"], prefix={"base": "base_", "quiet": "quiet_", "final": "final_", "loud": "loud_", "noexp": "noexp_"}, wrap="wrap.c", defs=["-DMODE=1"])], rule="problem x build; non-trivial: at least one iteration")

P("C26", "Search directions solve the stated linear system",
  "At every iteration of every solve the assembled, permuted and regularised system is the one defined by the problem data and the Nesterov-Todd scaling (Hessian of the dual barrier for exponential cones) of the current iterate; its three right-hand sides are the ones of the predictor-corrector method; it is solved to the stated accuracy and refinement never makes it worse; and the step taken shrinks all residuals by exactly the factor that step length and centering say.",
  ["inputs"], "every linear system of every solve of every problem of the families",
  "Wrong directions are masked by step-length control and more iterations: the solver still converges, or reports a weaker verdict.",
  anchors(["src/kkt.c", "src/preproc.c", SOLVE, "src/cone.c"], [("assembly", "src/preproc.c createKKT_U"), ("scaling update", "src/kkt.c kkt_update, kkt_init"), ("solve with refinement", "src/kkt.c kkt_solve"), ("right-hand sides", "src/ecos.c RHS_affine, RHS_combined, init"), ("step", "src/ecos.c ECOS_solve")], observe=["KKT matrix, right-hand sides and solutions at every call, iterate before and after every step"]),
  "exploration", "Exhaustive over the families; matrix, right-hand sides, solution and step are recomputed densely in extended precision from the scaled data and the iterate. Accuracy is decided while the iterate is at a relative distance above 1e-5 from the boundary of its non-linear cones; beyond it only the right-hand sides and the step are compared, with tolerances that grow with the conditioning.", EXH + " with an observer at every call of the linear algebra",
  {"quick": "8 shapes with several cones (second-order up to 9 rows, 3 exponential cones, up to 2 equality rows) x 96 sparsity/value patterns x 9 pairs of primal and dual points; all data problems, all 3^(mn) matrices of 15 strictly feasible shapes and all data of 11 arbitrary shapes; refinement limits 9, 4, 2, 0 and two step-length factors on the data problems; every call (about 5.5 million) checked", "thorough": "512 patterns, 20 strict shapes"},
  [dict(driver="kktsys", hooks=["kkt_factor", "kkt_solve"])], rule="problem and settings; non-trivial: more than the two initial systems were solved")

P("C27", "SIGINT during branch and bound never produces a false answer",
  "A SIGINT at any moment of a mixed-integer solve ends it promptly; the answer then is the interrupt code or a true statement (a feasible point with its cost, or a proven verdict), the previous signal disposition is restored and a later solve is unaffected.",
  ["schedules", "fault_sequences"], "delivery at every basic block of the search and on a grid of basic blocks inside its relaxations",
  "A test would have to hit one of thousands of moments.",
  anchors(["ecos_bb/ecos_bb.c", "src/ctrlc.c", SOLVE], [("handling of node verdicts", "ecos_bb/ecos_bb.c get_bounds"), ("interrupt polling", "src/ecos.c, src/ctrlc.c")], observe=["exit code, x, disposition, next solve"]),
  "model_checking", "Every delivery point at basic-block granularity for the listed problems.", "exhaustive fault injection at every basic block of the real code", {"quick": "8 problems x 2 strategies and one node limit; every basic block of the search outside relaxations and within 20 blocks of each hand-over of the disposition, every 401st block inside relaxations; previous disposition user handler (all points), SIG_IGN and SIG_DFL (grid)", "thorough": "5 strategies and three node limits, 400 blocks around hand-overs, every 23rd block"}, [dict(driver="bbsig", variant="fine")], state="problem, strategy, exit code, digest of the node table")

P("C28", "Stably infeasible and unbounded conic programs are recognised",
  "Every conic program (linear, second-order, exponential cones) that is infeasible or unbounded in a stable way, with full rank and a strictly feasible other side, is answered with that verdict and a valid certificate.",
  ["inputs"], "all cone shapes, all constraint matrices over the alphabet, several certificates",
  "One infeasible and one unbounded problem are tested.",
  anchors([SOLVE, "src/kkt.c", "src/expcone.c"], [("embedding and certificate tests", "src/ecos.c checkExitConditions")], observe=["exit code, certificate"]),
  "exploration", "Exhaustive within the listed shapes; 1 in 1000 honest weaker answers tolerated, a false answer never.", EXH,
  {"quick": "10 shapes, all matrices over {0,1,-1} in the free rows, both verdicts", "thorough": "16 shapes"},
  [dict(driver="conic", defs=["-DMODE=3"])], rule="every matrix of every shape x certificate; non-trivial: more than one iteration", soft=SOFT)

P("C29", "The tolerances asked for are the tolerances delivered",
  "Whatever the caller's tolerances (feasibility, absolute and relative gap, and the three reduced ones), the solver stops at the first iterate that meets them and not before: an OPTIMAL, infeasible or unbounded verdict comes with a point whose recomputed residuals, gap and certificate figures are within the tolerances, the _INACC verdicts with one within the reduced tolerances, no iterate that meets them is iterated further, and no solve that ends without a verdict returns a point that meets the reduced tolerances. A caller who sets none gets the documented defaults.",
  ["inputs", "configurations"], "every problem of the families x a grid of tolerance settings x every iteration limit, every iterate of every solve observed",
  "The tests use the default tolerances and look at the exit code only.",
  anchors([SOLVE, "include/ecos.h"], [("exit tests", "src/ecos.c checkExitConditions"), ("figures", "src/ecos.c computeResiduals, updateStatistics"), ("main loop", "src/ecos.c ECOS_solve")], observe=["iterate at every call of kkt_factor, exit code, returned point"]),
  "exploration", "Exhaustive over problems, settings and limits; every figure is recomputed in extended precision from the caller's data, a test is decided only where rounding cannot turn it.", EXH + " with an observer at every iteration",
  {"quick": "base families (data problems, all small conic programs with strictly feasible pairs, all arbitrary small ones); 73 settings (4 feasibility x 4 absolute x 4 relative tolerances from 1 to 1e-11, 8 combinations of reduced ones, none set), iteration limits 0 to 13; for enumerated matrices every second setting and limit", "thorough": "larger base families, all settings and limits: about 10^8 solves"},
  [dict(driver="tol", hooks=["kkt_factor"])], rule="problem x settings x limit; non-trivial: more than one iterate seen")

P("C30", "Numerical settings change the route, not the verdict",
  "Within their sensible ranges the step-length factor, the regularisation parameters, the number of refinement steps, the line-search parameters of exponential cones and the iteration limit change only the path: every claim stays certified, strictly feasible problems are still answered OPTIMAL with the same cost, and the data problems get the same verdict.",
  ["inputs", "configurations"], "every problem of the families x every setting of the grids",
  "The tests never change a setting.",
  anchors([SOLVE, "src/kkt.c", "external/ldl/src/ldl.c"], [("settings", "include/ecos.h settings"), ("line search", "src/ecos.c expConeLineSearch, lineSearch"), ("regularisation and refinement", "src/kkt.c, src/preproc.c, external/ldl/src/ldl.c ldl_numeric2")], observe=["exit code and returned point per setting"]),
  "exploration", "Exhaustive over problems and settings; claims are checked on the caller's data; 1 in 1000 honest weaker answers tolerated, a false answer never.", EXH,
  {"quick": "larger base families; gamma 0.8..0.995, delta 1e-9..1e-6, eps 1e-15..1e-11, nitref 1..30, max_bk_iter 30..300, bk_scale 0.5..0.95, centrality 0.5..10, maxit 60..1000 (35 settings; for arbitrary matrices every third), all pairs of extreme settings on the data problems; gamma 0.9/0.995 x delta 1e-12/1e-10 x nitref 0/1 on the arbitrary matrices; max_bk_iter 1..15 x bk_scale 0.8..0.99 on problems with exponential cones, where every code comes with an iterate inside the cones", "thorough": "still larger base families, all settings"},
  [dict(driver="route")], rule="problem x settings; non-trivial: at least one iteration", soft={"no full answer to a strictly feasible problem": 1e-3})

P("C31", "Every algorithmic build switch gives a correct solver",
  "The documented compile-time choices of algorithm - dense instead of expanded second-order cones (CONEMODE), no equilibration (EQUILIBRATE 0), alternating or identity instead of Ruiz equilibration - each give a library that compiles, keeps the verdicts true and certified, solves strictly feasible programs to the true optimum, gives the caller's arrays back and touches only its own memory.",
  ["configurations", "inputs"], "five builds x the program families of the single-build properties",
  "The tests are run on the default build only; the other branches of the preprocessor are never compiled.",
  anchors(["include/cone.h", "include/ecos.h", "src/equil.c", "src/cone.c", "src/kkt.c", "src/preproc.c", SOLVE], [("cone representation switch", "include/cone.h CONEMODE"), ("equilibration switches", "include/ecos.h EQUILIBRATE, RUIZ_EQUIL, ALTERNATING_EQUIL")], observe=["exit code, returned point, caller's arrays, heap"]),
  "exploration", "Exhaustive over the families of C01, C02, C04, C05, C08, C09 and C28, per build; a copy of the working tree with the switch changed is compiled.", EXH + " per build",
  {"quick": "dense cones: families of C01, C04, C05, C28, C08 and (with address sanitizer) C09; no equilibration, alternating equilibration: C02, C04, C05, C08; identity equilibration: C02", "thorough": "the thorough families of those properties"},
  [dict(driver=d, suffix="_%s%d" % (b, k), variant=b, defs=["-DMODE=%d" % k]) for b, ds in (("cone1", (("conic", 1), ("conic", 2), ("conic", 3), ("claim", 1), ("mem", 2))), ("cone1asan", (("mem", 1),)), ("noequil", (("conic", 1), ("conic", 2), ("lp", 1), ("mem", 2))), ("altequil", (("conic", 1), ("conic", 2), ("lp", 1), ("mem", 2))), ("oneequil", (("lp", 1),))) for d, k in ds],
  rule="as for the properties named; non-trivial likewise", soft=SOFT)

P("C32", "Branch and bound delivers the gaps and the integrality asked for",
  "Whatever absolute gap, relative gap and integer tolerance the caller sets, with every branching strategy and node selection, an OPTIMAL answer is integral to that tolerance, feasible, costs no less than the cheapest point that is integral to that tolerance and exceeds the true optimum by no more than the larger of the two gaps; the reported bounds enclose the optimum, INFEASIBLE and UNBOUNDED are still true, and the search stops as soon as one of the gaps is closed. A caller who sets none gets the documented defaults.",
  ["inputs", "configurations"], "every program of the families x every combination of the three tolerances",
  "The tests use the default tolerances only.",
  anchors(["ecos_bb/ecos_bb.c", "include/ecos_bb.h"], [("stopping test", "ecos_bb/ecos_bb.c should_continue, get_ret_code"), ("rounding with a tolerance", "include/ecos_bb.h pfloat_ceil, pfloat_floor, float_eqls"), ("settings", "include/ecos_bb.h settings_bb")], observe=["exit code, x, cost, global_L, global_U, number of nodes"]),
  "exploration", "Exhaustive over programs and tolerance grids; the reference enumerates all integer points, and for wide tolerances solves the enlarged boxes exactly.", EXH + ", brute-force oracle",
  {"quick": "the small families of C15-C17 (linear, second-order, exponential; 1979 programs) x abs_tol_gap 0..2 x rel_tol_gap 0..0.9 x integer_tol 1e-6..0.3125 (64 combinations, and none set), strategy and selection rotating; 768 further programs on which the default gaps and the integer tolerance decide; each search is repeated one node shorter", "thorough": "finer grids (180 combinations), and 8 combinations on the families of C14"},
  [dict(driver="bbtol")], rule="program x tolerances; non-trivial: at least one branching", soft={"search given up": 5e-4})

P("C33", "Size and structure do not change the answer",
  "A program made large from a small one - many copies side by side or with their variables interleaved, one infeasible or unbounded block among many good ones, cones with repeated or zero rows, chains of equal variables, repeated rows, dense rows and columns, any two of these in a row - gets the verdict and the optimal value its construction implies, with a valid certificate; and so do networks, distances, entropies, sums of exponentials and knapsacks of growing size, whose answers are known by another algorithm.",
  ["inputs"], "all base problems x all constructions x a range of sizes up to several hundred rows",
  "The tests hold a handful of programs of fixed size; dense rows, deep elimination trees, cones of hundreds of rows and permuted patterns of growing size occur in none or one of them.",
  anchors([SOLVE, "src/preproc.c", "src/kkt.c", "src/cone.c", "src/splamm.c", "external/amd/src", "external/ldl/src/ldl.c", "ecos_bb/ecos_bb.c"], [("assembly of the system", "src/preproc.c createKKT_U"), ("fill-reducing ordering, dense rows", "external/amd/src/amd_2.c"), ("factorisation", "external/ldl/src/ldl.c"), ("second-order cones of any dimension", "src/cone.c, src/kkt.c")], observe=["exit code and returned point, checked on the large problem; optimal value against the small one or another algorithm"]),
  "exploration", "Exhaustive over base problems, constructions and the listed sizes; claims are checked in extended precision on the large problem itself. Up to 1 in 1000 honest weaker answers tolerated, a false answer never.", EXH + ", metamorphic and independent oracles",
  {"quick": "base families of C13 (data problems, all small strictly feasible programs) x 9 constructions x sizes 2, 7, 50, 150, and all 81 ordered pairs of constructions at size 4/5; grids up to 6x6 (shortest path, unreachable node, largest flow), distances, polygons, entropies, sums of exponentials up to n=140, knapsacks up to 9 items, 27 data patterns each; a part of it under AddressSanitizer and UBSan", "thorough": "larger base families, sizes 1 to 300, pairs at two sizes, all 729 triples on the data problems, grids up to 9x9, n up to 233, knapsacks up to 12 items, 125 patterns"},
  [dict(driver="size"), dict(driver="size", variant="asan", defs=["-DMODE=2"], suffix="-asan")], rule="base problem x construction x size; non-trivial: every one", soft={"accuracy differs with the size": 1e-3})

P("C34", "What is printed is what was computed",
  "With output on, a solve prints one headed table with one line per iterate, numbered without gaps, whose costs, gap, residuals, kappa/tau, mu, step, centring and refinement counts are those of that iterate; it prints exactly one verdict, the one returned, with the residuals and gaps of the returned point; an announced return to an earlier iterate names the iterate whose figures are then returned; the run time is setup plus solve. Branch and bound prints one line per node with the bounds of that moment, the last one being those returned. With output off, and in setup and cleanup, nothing is printed.",
  ["inputs", "fault_sequences", "histories"], "every problem of the families x every iteration limit x every fault at every call x output on, off, on again",
  "No test reads the output; most messages belong to exits no test reaches (interrupts, failed factorisations, spoilt directions, dead ends).",
  anchors([SOLVE, "ecos_bb/ecos_bb.c"], [("progress table", "src/ecos.c printProgress"), ("verdicts", "src/ecos.c checkExitConditions, ECOS_solve"), ("search table", "ecos_bb/ecos_bb.c print_progress, ECOS_BB_solve")], observe=["the bytes written; the iterate at that moment; the returned code, point and statistics"]),
  "exploration", "Exhaustive over problems, limits and (fault, call) pairs; every line is compared, when it is written, with figures recomputed in extended precision from the caller's data and the iterate of that moment, to the digits shown.", EXH + ", fault injection, independent recomputation",
  {"quick": "base families of C13 (22,800 problems) x limits 0..8 (data problems: 0..30), the output switched off and on between solves on one workspace; for the data problems and every third other one a failed factorisation or an interrupt at every factorisation, and a direction negated, blown up, zeroed, NaN or overflowing at every system solved; each of these also with the iteration limit just before, at and just after; data that are NaN or infinite; the small integer programs x 4 strategies x node limits 1..8", "thorough": "larger base families (over 270,000 problems) and the integer programs of C14"},
  [dict(driver="print", hooks=["kkt_factor", "kkt_solve"])], rule="problem x limit x fault; non-trivial: something printed")

P("C35", "A mixed-integer answer is one whole solution",
  "Whenever a mixed-integer solve returns a point (OPTIMAL, a node limit or an interrupt with an incumbent), x, y, z, s, tau, kappa and the statistics returned belong to one and the same solution: the slack is that of the caller's rows and of whole bounds on the integer variables, the equalities, cones and dual equations hold, slack and multipliers are complementary and the multipliers prove that no point within those bounds costs less; pcost, dcost, gap and kappa/tau are those of that point, the upper bound is its cost, and the relaxation's workspace holds the same solution.",
  ["inputs", "histories"], "every mixed-integer program of the families x strategy x selection x node limit x re-solve after an update",
  "The tests compare the cost and the rounded x of a few programs; none looks at the multipliers, the slack or the statistics of the answer.",
  anchors(["ecos_bb/ecos_bb.c", "ecos_bb/ecos_bb_preproc.c"], [("keeping the incumbent", "ecos_bb/ecos_bb.c store_solution, get_bounds, ECOS_BB_solve"), ("handing it over", "ecos_bb/ecos_bb.c load_solution"), ("rows of the bounds", "ecos_bb/ecos_bb_preproc.c socp_to_ecos_bb")], observe=["x, y, z, s, tau, kap, info, global_U; the same fields of ecos_prob"]),
  "exploration", "Exhaustive over programs, settings and node limits; every relation is recomputed in extended precision from the caller's data.", EXH + ", independent recomputation",
  {"quick": "the smallest families of C14 (all 5 strategies x 3 selections x node limits 1..8 or none) and a quarter of the next larger ones (2 strategies, limits 1..3); without a limit, the program is solved again after a change of a cost and of a right-hand side", "thorough": "all of these families, and every 24th program of the larger ones of C14"},
  [dict(driver="bbwhole")], rule="program x strategy x selection x limit x solve; non-trivial: a point was returned")
