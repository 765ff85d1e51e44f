B = "bounded: the contract is evaluated on generated inputs of the real code; not proved. "
LEVELS = {i: ("bounded", B) for i in ["C%02d" % k for k in range(1, 27)]}
T = "Proved for all inputs, from the current source; floating point is treated as real arithmetic; trusted: pyvc, z3, contracts of numpy/Cantera. "
LEVELS["C02"] = ("proof", T + "create_drg_matrix against the formula of the property.")
LEVELS["C03"] = ("proof", T + "create_drgep_matrix against the formula of the property.")
LEVELS["C04"] = ("proof", T + "create_pfa_matrix against the formula of the property.")
LEVELS["C11"] = ("proof", T + "calculate_error against the definition of the property.")
LEVELS["C14"] = ("proof", T + "parse_ignition_inputs, parse_psr_inputs and parse_flame_inputs: accepted exactly when well-formed, result equals the given values with documented defaults.")
LEVELS["C05"] = ("proof", T + "trim_drg and trim_pfa against graph reachability (networkx search under contract), and the union over all states in reduce_drg and reduce_pfa.")
LEVELS["C07"] = ("proof", T + "reduce_drg, reduce_pfa and reduce_drgep, modulo the contracts of trim (C01), sample_metrics (C12), calculate_error (C11) and the searches (C05, C06).")
LEVELS["C01"] = ("proof", T + "trim: every species, reaction, efficiency; state, transport, name. Assumed: participants of reactions are species of the model; what Cantera writes for a reaction without efficiencies.")
LEVELS["C25"] = ("proof", T + "run_sa (loop invariant over the species left) and evaluate_species_errors, modulo the contracts of trim (C01), sample_metrics (C12), calculate_error (C11), write (C10).")
LEVELS["C08"] = ("proof", T + "reduce_*, run_* and run_sa never remove targets, retained or safe species, for any number of steps; parse_inputs retains every reactant of the conditions; main hands them on.")
LEVELS["C09"] = ("proof", T + "run_drg, run_drgep, run_pfa and run_sa, loop invariants over thresholds and species; main returns the last result.")
LEVELS["C10"] = ("proof", T + "files written and removed by reduce_*, run_*, run_sa and soln2yaml.write, over a ghost file system.")
LEVELS["C26"] = ("part", "Proved: run_pfa, reduce_pfa, run_drgep. Known finding and bounded: run_drg.")
LEVELS["C06"] = ("proof", T + "mod_dijkstra (partial correctness, loop invariants over queue and successors, any order of the queue), graph_search_drgep, get_importance_coeffs.")
LEVELS["C12"] = ("proof", T + "_run_workers, _run_metric_jobs, _run_sampling_jobs, the six workers, sample_metrics and sample, for any number of cases and processes. The pool is assumed to map in order of the jobs.")
LEVELS["C13"] = ("proof", T + "sample_metrics, sample, read_metrics and _read_saved_data, over arbitrary contents of the saved files.")
LEVELS["C16"] = ("proof", T + "IgnitionSimulation: setup_case, calculate, run_case, process_results; the integrator is an arbitrary sequence of states that may fail at any step.")
LEVELS["C17"] = ("proof", T + "FlameSimulation: calculate, run_case, process_results; the solver is arbitrary.")
LEVELS["C18"] = ("proof", T + "PSRSimulation: calculate, run_case, process_results, modulo the contract of trace_extinction_curve (C20, bounded).")
LEVELS["C19"] = ("proof", T + "_sample_profile, for profiles of any length (loop invariants over points and levels).")
LEVELS["C15"] = ("proof", T + "parse_inputs, main and pymars: settings accepted, defaults, steps called and their arguments, for arbitrary inputs. argparse, the YAML parser and parse_*_inputs (C14) under contract.")
LEVELS["C21"] = ("proof", T + "_core_residual and _core_jacobian: residual and its derivatives as rational functions of ideal-gas properties, any number of species; failures of the state and of kinetics included.")
NOT_APPLICABLE = {}
