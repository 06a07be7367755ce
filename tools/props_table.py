# executed by gen_meta.py
prop("S01", "Every compatible model satisfies the SDP relaxation",
     "For any causal scenario, the moments computed from any classical or "
     "quantum model of that scenario satisfy everything the semidefinite "
     "relaxation asserts: entries of the moment matrix declared equal are "
     "equal, entries declared zero or one are zero or one, and all equalities, "
     "default bounds, values fixed from the model's own distribution and "
     "linearised polynomial constraints hold. Hence no attainable distribution "
     "is ever excluded by construction.",
     ["inputs", "configurations"],
     "all DAGs with observed nodes, classical and quantum sources and "
     "intermediate latents; all cardinalities, inflation levels, party orders "
     "and generating sets; all compatible models",
     "the tests compare a few moment matrices and infeasibility verdicts of "
     "fixed scenarios with stored numbers; none evaluates a relaxation on an "
     "independent causal model, and solver-based ones do not run without a "
     "licence",
     [SDP, NPA, QT, MC, MU, IP],
     [("commutation, canonical form and symmetrisation of products",
       NPA + ", " + QT), ("moment construction and default bounds",
                          SDP + ": generate_relaxation"),
      ("normalisation equalities", SDP + ": _discover_normalization_eqns"),
      ("values and LPI constraints", SDP + ": update_values")],
     "the generated relaxation object: index matrix, moments, equalities, "
     "bounds, known and semiknown values",
     "runtime monitor: real relaxations compared entry by entry with Gram "
     "matrices of explicit random causal models (ground-truth oracle)",
     "Held on the generated scenarios, generating sets and models of this run; "
     "trusts the explicit model evaluator in vlib/models.py.")

prop("S02", "The SDP relaxation has exactly the documented structure",
     "For a scenario, a generating set and an inflation, the moment matrix "
     "identifies two entries exactly when the operator algebra (commutation of "
     "spacelike and classical operators, projectivity, orthogonality, "
     "factorisation of unlinked parts) together with the copy permutations of "
     "the inflation makes them the same moment. It is symmetric, its "
     "zero and unit entries are exactly those the algebra forces, and it "
     "asserts exactly the normalisation equalities implied by outcomes "
     "missing from the generating set.",
     ["inputs", "configurations"],
     "all scenarios, source types, inflation levels and generating sets, "
     "commuting or not",
     "the tests check the structure for a few fixed scenarios; a lost or extra "
     "identification only shows for particular operator words and symmetries",
     [SDP, NPA, QT, IP],
     [("canonical forms and orthogonality", NPA),
      ("moment matrix", SDP + ": _build_momentmatrix"),
      ("symmetries", SDP + ": _apply_inflation_symmetries"),
      ("normalisation", SDP + ": _discover_normalization_eqns")],
     "generated relaxation: index matrix, moments, equalities",
     "runtime monitor: online comparison of the generated relaxation with an "
     "independent reference algebra (partition and equality oracle)",
     "Held on the relaxations generated in this run; trusts vlib/refalg.py.")

prop("S03", "Known values enter the SDP exactly as the distribution dictates",
     "When a distribution or a set of values is given, a moment is fixed "
     "exactly when it is determined by the given values (including products of "
     "independent parts), and is fixed to the correct number. With "
     "linearised polynomial constraints every partially determined moment is "
     "tied to its undetermined part with the right coefficient, and values "
     "that are unknown (NaN) fix nothing.",
     ["inputs", "configurations", "histories"],
     "all scenarios, full or partial distributions, with shared randomness, "
     "zeros, NaN entries, supports problems, direct value dictionaries, with or "
     "without linearised constraints",
     "tests fix a handful of values on two or three scenarios; a wrong "
     "marginal, party order or factor shows only for particular distributions",
     [SDP, MC, MU, IP],
     [("distribution to values", SDP + ": set_distribution, set_values"),
      ("marginals", MC + ": InternalAtomicMonomial.compute_marginal"),
      ("products and semiknown moments", SDP + ": update_values")],
     "known_moments and semiknown_moments after setting values",
     "runtime monitor: assertions on the known and semiknown tables after each "
     "call, against marginals recomputed from the raw distribution",
     "Held on the distributions and scenarios generated in this run.")

prop("L01", "Every compatible model satisfies the LP relaxation",
     "For any causal scenario that the linear programme supports, the "
     "probabilities of every event in the inflation computed from a compatible "
     "model are a feasible point of the programme: all variables identified "
     "are equal, all equalities and inequalities hold and values set from the "
     "model's distribution are reproduced. Hence no attainable distribution is "
     "excluded by construction.",
     ["inputs", "configurations"],
     "all DAGs, classical, quantum and no-signalling sources where models can "
     "be evaluated; all cardinalities, inflation levels, fanout and "
     "non-fanout inflations, options; all models",
     "tests only check counts of variables and infeasibility verdicts of "
     "fixed examples, never the relaxation against an independent model",
     [LP, LMC, IP, LU, NF, UT],
     [("events and canonical form", LP + ": monomials, _to_inflation_orbits"),
      ("equalities and inequalities", LP + ": minimal_equalities, "
       "minimal_inequalities"),
      ("values", LP + ": set_distribution, set_values")],
     "generated LP: variables, equality and inequality tables, known values",
     "runtime monitor: real programmes evaluated at the event probabilities of "
     "explicit random causal models (ground-truth oracle)",
     "Held on the programmes and models of this run.")

prop("L02", "The LP relaxation has exactly the documented structure",
     "The variables are exactly the events of expressible sets of inflation "
     "copies up to copy symmetry and factorisation; the equalities span "
     "exactly the normalisation and no-signalling relations between them; and "
     "the inequalities are exactly the non-negativity of every event of every "
     "maximal expressible set.",
     ["inputs", "configurations"],
     "all scenarios, cardinalities, inflation levels, fanout and non-fanout, "
     "with or without redundant outcomes",
     "a lost orbit identification, equality or inequality only weakens the "
     "relaxation, which fixed verdicts hardly notice",
     [LP, LMC, IP, LU, NF, UT],
     [("variable orbits", LP + ": _raw_monomials_as_lexboolvecs, "
       "inflation_orbits"), ("inequalities", LP + ": minimal_inequalities"),
      ("cliques of compatible operators", UT + ": all_and_maximal_cliques")],
     "generated LP: variables, equality rank, inequality tables",
     "runtime monitor: comparison of the generated tables with an independent "
     "event algebra (orbits, rank and Collins-Gisin expansion oracle)",
     "Held on the programmes generated in this run.")

prop("S05", "The SDP that is solved is the SDP that was specified",
     "Solving a relaxation gives the verdict and the optimal value of exactly "
     "the semidefinite programme made of the moment matrix, the equalities, "
     "the default and user bounds, the extra constraints, the known values, "
     "the linearised polynomial constraints and the objective, in the "
     "requested direction. Primal and dual solving agree, and the returned "
     "values, moment matrix and dual matrix satisfy that programme.",
     ["inputs", "configurations"],
     "all relaxations, values, bounds, extra constraints and objectives, in "
     "every key style; primal and dual forms; relaxed and strict feasibility; "
     "with and without preprocessing of constraints",
     "the solver tests need a licence and cover a few scenarios; a dropped or "
     "mistranslated constraint usually leaves the verdict of those unchanged",
     [SDP, SU, OU, MC],
     [("preparation of the programme", SDP + ": _prepare_solver_arguments"),
      ("preprocessing and modelling", SU + ": solveSDP_MosekFUSION, solve_Fusion"),
      ("user input", SDP + ": set_objective, set_bounds, "
       "set_extra_equalities, set_extra_inequalities")],
     "status, objective_value and solution_object after solve",
     "runtime monitor: results of real solves compared with an independently "
     "assembled programme; residuals of returned solutions",
     "Held on the programmes of this run; the numerical engine behind MOSEK "
     "is replaced (no licence).")

prop("L03", "The LP that is solved is the LP that was specified",
     "Solving a linear relaxation gives the verdict and optimal value of "
     "exactly the programme made of its variables, equalities, inequalities, "
     "known values, linearised constraints, bounds, extra constraints and "
     "objective, in the requested direction. Primal and dual forms and the "
     "dictionary and sparse-matrix interfaces agree, and returned solutions "
     "satisfy the programme.",
     ["inputs", "configurations"],
     "all programmes, values, bounds, extra constraints and objectives, in "
     "every key style and for every solving option",
     "the solver tests need a licence and cover few programmes; a dropped or "
     "mistranslated constraint leaves most verdicts unchanged",
     [LP, LU, OU, LMC],
     [("preparation", LP + ": _prepare_solver_arguments, _prepare_solver_matrices"),
      ("modelling", LU + ": solveLP, solveLP_Mosek, solveLP_sparse"),
      ("user input", LP + ": set_objective, set_bounds, set_extra_equalities, "
       "set_extra_inequalities")],
     "status, objective_value and solution_object after solve",
     "runtime monitor: results of real solves compared with an independently "
     "assembled programme; residuals of returned solutions",
     "Held on the programmes of this run; HiGHS replaces the MOSEK optimiser.")

prop("C01", "Certificates never exclude what the relaxation allows",
     "The certificate obtained when solving at one distribution equals the "
     "optimum there (negative when infeasible), and at every other "
     "distribution tested under the same constraints it is an upper bound of "
     "the optimum, so it is never negative on a distribution that the "
     "relaxation allows, in particular on one that a model attains. All its "
     "presentations (dictionary, cleaned, symbolic, string, evaluated on an "
     "array) are the same polynomial up to the documented normalisation and "
     "rounding.",
     ["inputs", "configurations", "histories"],
     "all scenarios, relaxations, pairs of distributions, objectives and extra "
     "constraints; primal and dual forms; strict and relaxed feasibility",
     "the tests compare certificates of two fixed problems and need a licence; "
     "validity at other distributions is never tested",
     [SDP, LP, SU, LU, UT],
     [("extraction from dual solutions", SU + ": solveSDP_MosekFUSION; " + LU
       + ": solveLP_sparse"),
      ("presentation", SDP + ": certificate_as_dict, string_from_dict, "
       "evaluate_polynomial; " + LP + ": the same; " + UT
       + ": clean_coefficients")],
     "solution_object['dual_certificate'] and the certificate_* methods",
     "runtime monitor: certificates of real solves evaluated at distributions "
     "of explicit models and at points with independently computed optimum",
     "Held on the programmes and distributions of this run, with the "
     "numerical engine behind MOSEK replaced.")

prop("H01", "The solved programme depends on the current specification, not on history",
     "After any sequence of assigning values, setting bounds, constraints and "
     "objectives, solving, resetting and generating relaxations, in any order "
     "and interleaved with other objects of the same problem, the programme "
     "that is solved is the one that a fresh object solves when it is given "
     "only the specification that is in force. Whatever replaces or resets a "
     "part of the specification restores the defaults of that part and leaves "
     "the rest alone. Results of an earlier solve are no longer presented "
     "once the specification has changed.",
     ["histories", "inputs"],
     "all sequences of specification, solve, reset and relaxation calls on one "
     "or more objects",
     "the tests set each thing once on a new object; stale caches, bounds that "
     "are dropped and not restored, or leftovers of an earlier distribution "
     "only show after particular sequences of calls",
     [SDP, LP, IP],
     [("values and bounds", SDP + ": update_values, set_bounds, reset"),
      ("values and bounds of the LP", LP + ": update_values, set_bounds, "
       "reset"),
      ("regeneration", SDP + ": generate_relaxation")],
     "the arguments handed to the solving functions, by a recording stand-in, "
     "after random histories",
     "runtime monitor: recorded call histories replayed as net specification "
     "on fresh objects; programmes handed to the solver compared (differential "
     "trace oracle)",
     "Held on the call sequences generated in this run.")

prop("W01", "Exported semidefinite programmes describe the programme of the object",
     "A relaxation written to a file contains the same programme that the "
     "object would hand to a solver: moment matrix, known and proportional "
     "moments with their signs, objective with its constant, bounds, "
     "equalities and inequalities, for every specification and in each of the "
     "formats. Each file is well formed on its own: every quantity it refers "
     "to is defined in it, and the sizes it declares are those of its "
     "contents. The extension of the file name, or its absence, decides the "
     "format wherever the file is.",
     ["inputs", "configurations"],
     "all relaxations and all combinations of values (negative ones "
     "included), proportional moments, bounds, extra constraints, objectives "
     "and directions; the three formats",
     "the tests look for a few strings in the files of one relaxation; they "
     "never read a file back",
     [SW, SDP],
     [("writers", SW + ": write_to_sdpa, write_to_csv, write_to_mat, "
       "convert_to_human_readable"),
      ("dispatch", SDP + ": write_to_file")],
     "the files that write_to_file produces",
     "runtime monitor: round trip through independent readers; files compared "
     "term by term, and .dat-s files by solving them, with the programme that "
     "the object hands to the solver",
     "Held on the programmes of this run; SDPA files are compared through the "
     "optimum of their objective and of random functionals.")

prop("W02", "Exported linear programmes describe the programme of the object",
     "A linear programme written to a file has the same feasibility and the "
     "same optimum as the programme that the object would hand to a solver, "
     "for every specification and in each of the formats, with full "
     "precision. This includes bounds, variables that can be negative, known "
     "and proportional variables, constants of the objective and constraints "
     "that the known values violate. Standard readers accept the files, and "
     "writing does not change the object or the arguments.",
     ["inputs", "configurations"],
     "all programmes and all combinations of values, bounds, constraints, "
     "objectives and directions; both formats, and the conversion between "
     "them",
     "the tests read back one programme without bounds, and need a licence",
     [LW, LP],
     [("writers", LW + ": write_to_lp, write_to_mps, lp_to_mps, "
       "process_arguments, format_constraint_lp"),
      ("dispatch", LP + ": write_to_file")],
     "the files that write_to_file and the writers produce",
     "runtime monitor: round trip through independent readers and MOSEK's own; "
     "status and optimum compared with an independently assembled programme",
     "Held on the programmes of this run; HiGHS solves both sides.")

prop("S04", "Generating sets contain exactly the documented products",
     "Each specification of a generating set (hierarchy levels, local levels, "
     "physical products, lists of parties) yields exactly the products of "
     "operators that its definition describes, up to operators being equal "
     "under the commutations of the scenario, each once, with no vanishing or "
     "shortened products and within the maximal length. The same set given as "
     "symbols or as arrays produces the same relaxation, in the same order.",
     ["inputs", "configurations"],
     "all scenarios, inflation levels, specifications (any level, per party "
     "or common, capital letters), maximal lengths and encodings",
     "the tests compare the sets of two fixed scenarios; a missing product "
     "only makes the relaxation weaker, and nothing would notice",
     [SDP, IP, UT],
     [("specifications", SDP + ": build_columns, _build_cols_from_specs"),
      ("physical products", IP + ": all_and_maximal_compatible_templates"),
      ("cliques", UT + ": all_and_maximal_cliques"),
      ("names", SDP + ": _interpret_name")],
     "the generating monomials of the relaxation object",
     "runtime monitor: online comparison of the generating sets with an "
     "independent enumeration of the definition, and between encodings",
     "Held on the specifications of this run; trusts vlib/refalg.py; sets of "
     "more than 6000 elements are not compared.")

prop("N01", "Every accepted way of writing a moment denotes the same moment",
     "A moment can be given by its name in any of the accepted notations, by "
     "its symbol, by products of symbols of operators, or by arrays, with the "
     "operators in any equivalent order and with copies relabelled; every "
     "accepted form denotes the moment that the operators denote, and no form "
     "is silently taken for another moment. Distinct moments have distinct "
     "names and symbols. The names chosen for the parties, sources and "
     "latents do not change the problem.",
     ["inputs", "configurations"],
     "all scenarios with arbitrary labels, all moments of their relaxations, "
     "notations, orders and setters; SDP and LP",
     "the tests write a few moments of fixed scenarios named A, B, C; a name "
     "that resolves to another moment silently constrains the wrong variable",
     [SDP, LP, IP, MC, LMC],
     [("names of operators", IP + ": _interpretation_to_name, names_to_ints"),
      ("interpretation", SDP + ", " + LP + ": _sanitise_moment, "
       "_interpret_name, _interpret_atomic_string, _sanitise_dict"),
      ("names of moments", MC + ", " + LMC)],
     "names and symbols of moments and the moments that the setters stored",
     "runtime monitor: values given through all notations compared with an "
     "independent parse by the reference algebra; metamorphic renaming",
     "Held on the scenarios and moments of this run; trusts vlib/refalg.py.")

prop("U01", "Possibilistic problems depend on the support, and are decided correctly",
     "When a problem is posed in terms of supports, only which events are "
     "possible matters, not the numbers given: impossible events have "
     "vanishing moments, possible ones are bounded from below, undefined "
     "events are left free, and so are their marginals. The moments of every "
     "model with the given support, suitably rescaled, satisfy the programme, "
     "and the verdict is that of the programme so defined.",
     ["inputs", "configurations"],
     "all scenarios, SDP and LP, supports of classical and quantum models and "
     "arbitrary supports, undefined events, scales of the values",
     "two tests of fixed supports, both needing a solver licence",
     [SDP, LP],
     [("support bounds", SDP + ", " + LP + ": set_distribution, "
       "set_values, _update_lowerbounds, _prepare_solver_arguments"),
      ("marginals", MC + ", " + LMC + ": compute_marginal")],
     "bounds and values of the moments, verdict of the solver call",
     "runtime monitor: bounds and verdicts compared with references computed "
     "from the support; rescaled moments of explicit models as ground truth",
     "Held on the supports of this run; verdicts through the stand-in conic "
     "solver and HiGHS.")

prop("I01", "The inflated scenario is the one described",
     "For every description of a causal scenario and number of copies of its "
     "sources, the operators, their outcomes and effective settings, the "
     "events of the original scenario, the decoding of effective settings, "
     "the symmetries under relabelling of copies, the splitting of a product "
     "into independent parts and the sets of jointly measurable operators are "
     "exactly those that the description defines. Labels of any size are "
     "kept apart.",
     ["inputs", "configurations"],
     "all scenarios (including hundreds of settings or outcomes), inflation "
     "levels, orders of the parties, kinds of sources and latents",
     "the tests list the operators of a few scenarios with one-digit labels; "
     "everything else in the library is built on these facts",
     [IP, UT, NPA],
     [("operators and events", IP + ": measurements, original_dag_events"),
      ("effective settings", IP + ": rectify_fake_setting"),
      ("symmetries", IP + ": discover_lexorder_symmetries"),
      ("independent parts", IP + ": factorize_monomial_2d"),
      ("joint measurability", IP + ": all_and_maximal_compatible_templates")],
     "public attributes and methods of the scenario object",
     "runtime monitor: facts compared with an enumeration of the description "
     "that shares no code with the library",
     "Held on the scenarios of this run; contexts of scenarios with more than "
     "14 operator templates are not compared.")

prop("O01", "Optimising a parameter returns its largest feasible value",
     "For a family of values depending on one parameter that is feasible at "
     "one end of the interval and not at the other, both methods of "
     "optimisation return the critical parameter up to the precision asked "
     "for; where there is none, they say so instead of returning a number. "
     "The certificate returned with it separates the feasible values of the "
     "family from the rest.",
     ["inputs", "configurations"],
     "SDP and LP relaxations, families (linear or not, partially given, in "
     "any notation), intervals, precisions, methods and options",
     "the few tests of it need a solver licence and fix one family",
     [OU, SDP, LP],
     [("bisection", OU + ": _maximize_via_bisect"),
      ("certificates", OU + ": _maximize_via_dual"),
      ("evaluation of expressions", UT + ": make_numerical")],
     "the parameter and the certificate that are returned",
     "runtime monitor: independent programmes decide feasibility on both "
     "sides of the returned parameter; certificates evaluated along families",
     "Held on the families of this run; the dual method with linearised "
     "polynomial constraints is not checked (its certificates are local).")

prop("D01", "Results depend on the inputs only, and inputs are left alone",
     "The same piece of work (posing a scenario, relaxing it, assigning "
     "values, bounds and constraints, solving, exporting) gives the same "
     "results in every process, whatever the hash seed, the verbosity and the "
     "work done before in the process. Objects given by the caller are not "
     "modified, and what the caller later does with them has no effect.",
     ["inputs", "configurations", "histories"],
     "pieces of work on all scenarios, SDP and LP; hash seeds; previous work; "
     "verbosity; reuse of containers",
     "tests run in one process with one hash seed each and throw their "
     "inputs away",
     [IP, SDP, LP, UT],
     [("the scenario", IP + ": __init__"),
      ("setters", SDP + ", " + LP + ": set_distribution, set_values, "
       "set_bounds, set_objective, set_extra_equalities")],
     "arguments of the solver call, tables of moments, exported files and "
     "arguments given, as canonical texts",
     "runtime monitor: the same work recorded in several processes under "
     "different circumstances and compared; deep snapshots of arguments",
     "Held on the pieces of work and circumstances of this run; numbers are "
     "compared up to rounding, terms of a line of a file in any order.")

prop("M01", "Compiled kernels stay in bounds and agree with the plain code",
     "The compiled kernels never read or write outside of their arrays and "
     "no arithmetic on labels overflows; with and without compilation the "
     "library produces the same scenario, relaxation and programme, for "
     "every scenario.",
     ["inputs", "configurations"],
     "all scenarios, relaxations and random words given to the kernels, "
     "compiled, compiled with checked bounds, and not compiled",
     "an access outside an array in compiled code is silent, and tests run "
     "in one mode only",
     [NPA, NF, QT, IP],
     [("kernels", NPA + ", " + NF), ("call sites", IP + ", " + SDP)],
     "results of kernels and of whole pieces of work; bound errors and "
     "overflow warnings",
     "sanitizer: numba's checked bounds, the library without numba as a "
     "differential oracle, overflow warnings as observations",
     "Held on the pieces of work of this run; the mode NUMBA_DISABLE_JIT is "
     "not supported by the library.")

prop("V01", "Every table of a relaxation shows the same programme",
     "The variables, constraints, bounds, known and proportional values and "
     "the objective of a relaxation are the same whether they are read as "
     "moments, by name or as matrices, at any point of its history, and are "
     "those that a solver is given. The listed factorisation conditions, "
     "atoms and numbers of knowable, partially knowable and unknowable "
     "moments are exactly those of the scenario. Reading a table changes "
     "nothing.",
     ["inputs", "histories", "configurations"],
     "all scenarios, semidefinite and linear relaxations and sequences of "
     "operations, with tables read in between in any order",
     "the tests read few of the tables, once, on unchanged objects",
     [LP, SDP, LMC],
     [("views of linear programmes", LP + ": moment_equalities_by_name, "
       "sparse_semiknown, factorization_conditions"),
      ("tables of semidefinite relaxations", SDP + ": moment_inequalities, "
       "atomic_monomials")],
     "tables of the relaxation objects and the arguments given to the solver",
     "runtime monitor: every table converted to a canonical programme and "
     "compared with the one captured at the call of the solver, after each "
     "operation; factorisations and counts against the reference algebra",
     "Held on the sequences of this run; the table of bounds of a "
     "semidefinite relaxation is not compared for moments whose values were "
     "reset.")

prop("T01", "With one common source, the bounds are the known exact ones",
     "When all observed nodes share one source, the linear relaxation of a "
     "classical source, and the semidefinite one with all products of its "
     "operators, give exactly the optimum over deterministic strategies of "
     "any combination of probabilities, under any values, bounds and "
     "constraints on them; the linear relaxation of a nonclassical source "
     "gives exactly the no-signalling optimum, and verdicts without objective "
     "are exact too. The first level of the semidefinite relaxation gives the "
     "quantum bound of correlations of two binary parties. Its local level "
     "always lies between the classical and the no-signalling optimum.",
     ["inputs", "configurations"],
     "all scenarios with one common source (others may be redundant), "
     "observed nodes caused by others, cardinalities, objectives, values and "
     "constraints",
     "the tests check CHSH-like numbers of one or two scenarios, and need a "
     "licensed solver",
     [LP, SDP, IP, SU, LU],
     [("from the description to the optimum", LP + ": solve; " + SDP +
       ": solve")],
     "optimum and status of solved relaxations",
     "runtime monitor: optima and verdicts against optimisation over "
     "enumerated deterministic strategies, no-signalling behaviours and Gram "
     "matrices",
     "Held on the programmes of this run; nearly degenerate verdicts (margin "
     "below 1e-5, 5e-3 for semidefinite ones) are not judged.")

prop("R01", "Relabelling a scenario relabels what is concluded",
     "Renaming nodes, listing nodes or sources in another order, and "
     "permuting settings or outcomes (with the distribution, values, bounds "
     "and objective permuted alike) leaves a relaxation the same up to these "
     "labels. It has the same moments, the same of them are known, "
     "proportional or bounded with the same numbers, and the verdict and the "
     "optimum are the same (products of operators that do not commute being "
     "taken in the same order).",
     ["inputs", "configurations"],
     "all scenarios, relabellings, generating sets (outcomes that are "
     "eliminated by normalisation keep their place), values and objectives",
     "each test uses one labelling, mostly the alphabetical one with "
     "consecutive settings of equal cardinality",
     [IP, LP, SDP, QT, MU],
     [("names, order and cardinalities", IP + ": __init__"),
      ("values", MU + ": compute_marginal; " + LMC)],
     "moments, bounds, values and solutions of two relaxations",
     "runtime monitor: metamorphic comparison of two real relaxations through "
     "the relabelling of operators, from moments to optimum",
     "Held on the pairs of this run.")
