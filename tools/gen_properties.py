"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = "src/pymars/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
            mechanism=[dict(name=n, where=S+w) for n, w in mech],
            **({"state": [dict(name=a, meaning=b, where=S+c) for a, b, c in state]} if state else {}),
            observe_at=observe or [], hook_needed=None)))

prop("C01", "Trimming removes exactly what the eliminated species take with them",
 "Given a model and a list of species to eliminate, the reduced model contains exactly the other species, in their original order and with unchanged thermo and transport data, and exactly those reactions, in order and with unchanged rates, in which no eliminated species is a reactant, a product or the sole explicit third body. Collision efficiencies of eliminated species, and only those, disappear from the reactions kept. Transport model, temperature, pressure and the given phase name carry over to the result.",
 ["inputs"], "every model and every list of species to eliminate (also empty, unknown names, third bodies)",
 "Tests trim three example mechanisms with one list each and compare a handful of counts; the statement is over every species, reaction, third body and exclusion list.",
 ["reduce_model.py"], [("species and reaction filters, third-body clean-up", "reduce_model.py:trim")],
 ["species and reaction lists of the returned model"])

prop("C02", "DRG interaction coefficients follow the published formula",
 "For every thermochemical state, the DRG coefficient of species A on species B is the sum over reactions involving B of |net stoichiometric coefficient of A times net rate of progress|, divided by the same sum over all reactions. It is zero on the diagonal and wherever the denominator vanishes, and the state used is exactly the given temperature, pressure and mass fractions.",
 ["inputs"], "every model (any numbers of species and reactions, any stoichiometry and rates, zero rates included) and every state",
 "Tests evaluate three artificial mechanisms at one state each; sums, masks and index ranges can agree there and differ elsewhere.",
 ["drg.py"], [("adjacency matrix", "drg.py:create_drg_matrix")], ["returned adjacency matrix"])

prop("C03", "DRGEP interaction coefficients follow the published formula",
 "For every thermochemical state, the DRGEP coefficient of species A on species B is the absolute value of the sum over reactions involving B of net stoichiometric coefficient of A times net rate of progress, divided by the larger of the total production and total consumption of A. It is zero on the diagonal and wherever the denominator vanishes, and the state used is exactly the given temperature, pressure and mass fractions.",
 ["inputs"], "every model and every state",
 "Tests evaluate a few matrices; the formula must hold for every mechanism, state and pair of species.",
 ["drgep.py"], [("adjacency matrix", "drgep.py:create_drgep_matrix")], ["returned adjacency matrix"])

prop("C04", "PFA interaction coefficients follow the published formula",
 "For every thermochemical state, the PFA coefficient of species A on species B is the sum of first-generation production and consumption fluxes of A through B, each divided by the larger of the total production and consumption of A, plus the second-generation products of these ratios summed over every third species. It is zero on the diagonal, ratios with vanishing denominator count as zero, and the state used is exactly the given temperature, pressure and mass fractions.",
 ["inputs"], "every model and every state",
 "Tests evaluate artificial mechanisms with few species at one state; the two-generation sum over all intermediate species is only sampled.",
 ["pfa.py"], [("adjacency matrix", "pfa.py:create_pfa_matrix")], ["returned adjacency matrix"])

prop("C05", "DRG and PFA keep exactly the species reachable at the threshold",
 "For every coefficient matrix, list of targets and positive threshold, the species kept for one state are exactly the targets and the species that can be reached from a target along edges whose coefficient is at least the threshold, each reported once. The species kept over all sampled states are the union of those kept for each state.",
 ["inputs"], "every matrix, species list, target list and positive threshold; every number of sampled states",
 "Tests search about a dozen small graphs; boundary values (coefficient equal to the threshold), cycles, several targets and several states in combination are not covered.",
 ["drg.py", "pfa.py"], [("graph construction and thresholding", "drg.py:trim_drg, pfa.py:trim_pfa"), ("search", "drg.py:graph_search, pfa.py:graph_search"), ("union over states", "drg.py:reduce_drg, pfa.py:reduce_pfa")],
 ["returned species list; species of the candidate model"])

prop("C06", "DRGEP importance is the largest path product from any target",
 "For every graph with coefficients between zero and one, the overall importance of a species is the maximum, over all targets and all directed paths from a target to it, of the product of the coefficients along the path; it is exactly 1 for targets and 0 for species no path reaches. Over several sampled states the importance is the maximum of the importances of each state, and every species of the model gets a value.",
 ["inputs"], "every weighted graph with weights in [0, 1], every source and target list, every list of matrices",
 "The search is a modified Dijkstra algorithm whose queue order differs from the textbook one; a dozen fixed graphs cannot show that no order of expansion misses a better path.",
 ["drgep.py"], [("maximum-product search", "drgep.py:mod_dijkstra, ss_dijkstra_path_length_modified"), ("maximum over targets", "drgep.py:graph_search_drgep"), ("maximum over states", "drgep.py:get_importance_coeffs")],
 ["returned coefficient dictionaries"])

prop("C07", "Each candidate removes exactly the species below the threshold",
 "At a given threshold, the candidate model of a graph-based method is the original model without exactly those species that the method rates below the threshold and that are not on the retained list, and its reported error is that of this very candidate against the original model under the given conditions and settings. The result of a previous threshold may be returned instead only if it has that same set of species.",
 ["inputs", "histories"], "every matrix set or importance map, threshold, retained list and previous candidate of the same run",
 "Tests compare the outcome for one mechanism and threshold; whether the reuse of the previous candidate is sound depends on every pair of successive thresholds.",
 ["drg.py", "drgep.py", "pfa.py"], [("candidate generation and reuse", "drg.py:reduce_drg, drgep.py:reduce_drgep, pfa.py:reduce_pfa")],
 ["returned candidate: model, file name, error"])

prop("C08", "Targets and retained species are never removed",
 "No reduction method and no sensitivity analysis ever returns, or even tries, a model that lacks a target species, a species on the retained list, or a fuel, oxidizer or reactant species of any given condition.",
 ["inputs", "histories"], "every model, condition set, threshold history and limbo list",
 "Tests run one reduction per method where the protected species are important anyway.",
 ["drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py", "pymars.py"],
 [("exclusion lists", "drg.py:reduce_drg, drgep.py:reduce_drgep, run_drgep, pfa.py:reduce_pfa"), ("limbo filter", "sensitivity_analysis.py:run_sa"), ("automatic retention of mixture species", "pymars.py:parse_inputs"), ("targets passed to the sensitivity analysis", "pymars.py:main")],
 ["species of every candidate and of the final model"])

prop("C09", "The final reduced model meets the error limit and its error is its own",
 "Whenever a reduction returns, the error reported for the returned model does not exceed the error limit and is the error of exactly that model against the original model; among the thresholds tried it is the last one before the first that exceeds the limit. A method that cannot produce an acceptable model ends with an error instead of returning one, and a reduction in which every candidate stays acceptable ends as well.",
 ["inputs", "histories"], "every error limit below 100 %, every sequence of candidate errors along the threshold loop",
 "Tests run one gri30 reduction per method; what happens for other sequences of errors (first candidate rejected, all accepted, accepted after several decreases of the threshold) is a property of the loop for all sequences.",
 ["drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py"],
 [("threshold loop", "drg.py:run_drg, drgep.py:run_drgep, pfa.py:run_pfa"), ("removal loop", "sensitivity_analysis.py:run_sa")],
 ["returned model, error and file"])

prop("C10", "The reported file holds the final model and no other file is disturbed",
 "After a reduction the reported file exists in the requested directory and contains the returned model; the files of all other candidates and the temporary files are gone, and the original model file is never removed. Writing a model replaces a file of the same name completely and honours the given directory and name.",
 ["inputs", "histories"], "every sequence of candidate sizes and errors, every output directory and name",
 "Tests look at one output file in a fresh directory; leftovers and wrong names only show for other candidate histories and paths.",
 ["drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py", "soln2yaml.py"],
 [("writing", "soln2yaml.py:write"), ("clean-up of candidates", "drg.py:run_drg, drgep.py:run_drgep, pfa.py:run_pfa"), ("temporary directories and final write", "sensitivity_analysis.py:run_sa, evaluate_species_errors")],
 ["directory contents after the call"])

prop("C11", "The error of a model is its largest relative metric deviation",
 "The error of a candidate is 100 times the largest value of |original - candidate| / original over all metrics, so zero exactly when all metrics agree; if any metric of the candidate is zero (no ignition, no flame, no extinction curve), the error is 100. The order of arguments matters: deviations are relative to the original model.",
 ["inputs"], "every pair of metric vectors of equal length with positive original metrics",
 "Tests evaluate a few vectors.",
 ["sampling.py"], [("error metric", "sampling.py:calculate_error")], ["returned error"])

prop("C12", "Metrics follow case order, whatever the number of processes",
 "Metrics of a model are the values computed for each autoignition case, then the three values of each stirred-reactor case, then the speed of each flame case, each computed once with the given model, phase, directory and settings, and always in the order of the input. The result does not depend on the number of processes used, nor on the order in which they finish.",
 ["inputs", "schedules"], "every number of cases of each kind, every number of processes",
 "Tests use at most a few cases and two processes.",
 ["sampling.py"], [("workers and merging", "sampling.py:_run_workers, _run_metric_jobs, _run_sampling_jobs, *_worker"), ("assembly", "sampling.py:sample_metrics, sample")],
 ["returned metric vector and sampled data"])

prop("C13", "Saved samples are reused only when they fit, and never invented",
 "Saved metrics and sampled states are reused only if their files exist and their numbers of cases, states and species fit the conditions and the model at hand; otherwise the simulations run anew and, for sampling, their results replace the saved files. What is returned is always either what the files contain or what the simulations produced for these conditions, never a placeholder or a mixture within one kind of simulation, and metrics of candidate models are never read from saved files.",
 ["inputs", "histories"], "every combination of existing, missing and mismatched saved files for the three kinds of simulation",
 "Tests cover a few of the many combinations of files, shapes and kinds.",
 ["sampling.py"], [("reuse in sampling", "sampling.py:sample"), ("reuse of metrics", "sampling.py:sample_metrics, read_metrics")],
 ["returned metrics and states, saved files"])

prop("C14", "Only well-formed conditions are accepted, and nothing in them is altered",
 "A condition is accepted exactly when its required numbers are positive, its kind and composition type are valid, its mixture is given in exactly one of the two permitted ways with positive amounts, and every species named is in the model; any other condition is rejected with an error before a simulation runs. Accepted conditions come back one per input, in order, with every given value unchanged and documented defaults for values left out.",
 ["inputs"], "every list of autoignition, stirred-reactor and flame conditions",
 "Tests try individual malformed inputs; the acceptance condition is over every combination of keys and values, for every case in the list.",
 ["sampling.py"], [("validation", "sampling.py:parse_ignition_inputs, parse_psr_inputs, parse_flame_inputs")],
 ["returned inputs or the raised error"])

prop("C15", "Every setting of the input reaches the reduction unchanged",
 "Every accepted setting of an input file and command line - model, error limit, conditions, method, targets, retained species, phase, sensitivity options, thresholds, directory, process count, minimum flame speed - is used unchanged by the reduction steps it governs; a method runs exactly once, and sensitivity analysis runs exactly when requested, starting from the model and error that the preceding method produced. Inputs with missing or unknown model, error, method, targets, species or conditions are rejected, and a Chemkin model is converted first.",
 ["inputs", "configurations"], "every input dictionary and command line",
 "Tests run a few input dictionaries; a dropped or swapped argument only shows for settings that differ from the defaults.",
 ["pymars.py", "__main__.py"], [("input checks", "pymars.py:parse_inputs"), ("dispatch", "pymars.py:main"), ("command line", "pymars.py:pymars, __main__.py:main")],
 ["arguments received by the reduction steps, raised errors"])

prop("C16", "Ignition delay is the first time of a 400 K rise, or a reported failure",
 "The ignition delay is the time of the first integration step at which the temperature is at least 400 K above its initial value. If there is none within the end time or step limit, or the integrator fails, or the original model does not reach steady state in the steps allowed, the original model raises an error, whereas a candidate model yields a delay of zero. Sampling and metric-only evaluation give the same delay, and the recorded history holds every step in order.",
 ["inputs", "fault_sequences"], "every temperature history, end time, step limit and point of integrator failure",
 "Tests integrate one or two mixtures and inject a failure in one step.",
 ["simulation.py"], [("integration", "simulation.py:IgnitionSimulation.run_case, calculate"), ("post-processing", "simulation.py:IgnitionSimulation.process_results"), ("set-up", "simulation.py:BaseSimulation._setup_gas, IgnitionSimulation.setup_case")],
 ["returned delay, raised error, stored history"])

prop("C17", "A missing flame stops the original model and rejects a candidate",
 "A flame speed is reported only if the solver succeeds and the speed at the unburned side exceeds the minimum flame speed in force, given or default. Otherwise evaluating the original model raises an error and evaluating a candidate yields zero; sampled flame states are genuine points of the solved profile.",
 ["inputs", "fault_sequences"], "every solver outcome and speed, every minimum flame speed, candidate and original model",
 "Tests monkeypatch a few speeds; the boundary and the combination of settings are sampled only.",
 ["simulation.py", "sampling.py"], [("detection and policies", "simulation.py:FlameSimulation._flame_detected, run_case, calculate, process_results"), ("floor passed on", "sampling.py:sample, sample_metrics")],
 ["returned speed, raised error"])

prop("C18", "Stirred-reactor metrics and states belong to the three documented points",
 "The metrics of a stirred-reactor case are the extinction residence time and the temperatures at the logarithmic midpoint and at the point nearest 0.1 s, in this order, and the sampled states are temperature, inlet pressure and mass fractions at extinction, midpoint and 0.1 s. If no extinction curve can be traced, evaluating the original model raises an error and evaluating a candidate yields zeros; every evaluation starts from the inlet state.",
 ["inputs", "fault_sequences"], "every traced curve and every way in which tracing can fail",
 "Tests trace one or two curves and check a few monkeypatched failures.",
 ["simulation.py"], [("metrics, samples and policies", "simulation.py:PSRSimulation")],
 ["returned metric vector and state rows"])

prop("C19", "Sampled states are genuine points at equal fractions of the temperature rise",
 "For every profile, sampling yields twenty states, the i-th being temperature, pressure and composition together of one and the same profile point: the first at which the temperature has risen by at least i/20 of the total rise. No state is left unset, and none mixes values of different points.",
 ["inputs"], "every profile of any length, also steep, short or flat ones",
 "Tests sample one smooth profile.",
 ["simulation.py"], [("profile sampling", "simulation.py:BaseSimulation._sample_profile")], ["returned array of states"])

prop("C20", "Extinction and sample points lie on the traced curve at the right places",
 "When a reactor response curve is returned, every point on it satisfied the steady reactor equations to the solver's tolerance; the extinction point has the smallest residence time of the points found before the curve turns, the other two points are those of the burning branch nearest 0.1 s and nearest the geometric mean of 0.1 s point and extinction. Residence time, temperature and composition of a point belong together, and a curve that never turns ends in an error.",
 ["inputs", "fault_sequences"], "every sequence of solver successes, failures and iterates",
 "Tests trace curves of real mixtures only; other sequences of step failures and turning points never occur there.",
 ["psr_solver.py"], [("continuation and point selection", "psr_solver.py:trace_extinction_curve")], ["returned curve and points, raised error"])

prop("C21", "Reactor residual and Jacobian are those of the steady reactor equations",
 "For every physical state, the residual is the species balance (Y - Y_in) - tau * production rate * molecular weight / density and the scaled enthalpy balance, evaluated at that state and the reactor pressure; unphysical states and failed evaluations give a large residual instead of an exception. The Jacobian is the exact derivative of this residual with respect to mass fractions, temperature and residence time.",
 ["inputs"], "every state (Y, T, tau), mixture and pressure",
 "Tests compare the Jacobian with finite differences at one state to a tolerance.",
 ["psr_solver.py"], [("residual", "psr_solver.py:_core_residual"), ("Jacobian", "psr_solver.py:_core_jacobian"), ("scaling and fallback corrector", "psr_solver.py:trace_extinction_curve, _damped_newton")],
 ["returned residual vector and matrix"])

prop("C22", "Chemkin export keeps every species, reaction and rate in Chemkin units",
 "An exported Chemkin model lists all elements, all species and every reaction in order, with pre-exponential factors in mol, cm, s for the order of the reaction and of the pressure limit concerned, activation energies in cal/mol, all collision efficiencies, falloff, pressure-dependent and Chebyshev data, and the duplicate mark. Thermo and transport files carry every coefficient of every species in the documented columns and units; an unsupported reaction type is refused rather than dropped.",
 ["inputs"], "every model with supported and unsupported reaction types, orders and third bodies",
 "Tests round-trip a few mechanisms that lack most reaction types and orders.",
 ["soln2ck.py"], [("rate strings", "soln2ck.py:build_arrhenius, build_falloff_arrhenius, build_falloff"), ("model, thermo and transport files", "soln2ck.py:write, write_thermo_data, write_transport_data")],
 ["text of the written files; constants of the re-imported model"])

prop("C23", "Model comparison accepts identical models and sees every difference",
 "Comparing a model with itself or with a copy succeeds, whatever its size. Two models that differ in a species name, composition, thermo or transport data, or in any reaction's kind, reactants, products, duplicate mark, rate parameters, falloff data or third-body efficiencies beyond the stated tolerance never compare as equal, wherever in the model the difference is.",
 ["inputs"], "every pair of models and every position and kind of difference",
 "Tests plant single differences at chosen places.",
 ["tools.py"], [("comparison", "tools.py:compare_models")], ["returned truth value"])

prop("C24", "Reductions do not affect each other or their inputs",
 "Running a reduction, a simulation batch or an input check never changes the lists, dictionaries and conditions passed to it, and the outcome of a later call does not depend on earlier calls in the same process other than through saved files.",
 ["histories", "inputs"], "every sequence of calls of the public entry points in one process",
 "Tests run each entry point in isolation; contamination shows only in particular sequences of calls.",
 ["drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py", "reduce_model.py", "sampling.py", "pymars.py"],
 [("default arguments and shared containers", "every function with list defaults, reduce_model.py:ReducedModel"), ("input handling", "pymars.py:parse_inputs, main")],
 ["argument objects and default values before and after the call"])

prop("C25", "Sensitivity analysis removes one species at a time under the error limit",
 "Sensitivity analysis considers exactly the given limbo species that are not protected, or all unprotected ones if none are given; the error attributed to a species is that of the current model without this one species. Each step removes the remaining species whose attributed error is closest to the current error, with errors re-evaluated after each removal in the greedy variant and kept with their species in the initial variant, and the step is kept only if the resulting model is within the limit; at the first step beyond the limit the analysis ends with the last accepted model.",
 ["inputs", "histories"], "every limbo list, every table of errors, both variants",
 "Tests run one small case per variant.",
 ["sensitivity_analysis.py"], [("error table", "sensitivity_analysis.py:evaluate_species_errors"), ("removal loop", "sensitivity_analysis.py:run_sa")],
 ["order of species removed, returned model and error"])

prop("C26", "Limbo species are those between the two thresholds",
 "When an upper threshold is given, the limbo species handed to sensitivity analysis are exactly the species that remain in the reduced model, are not protected, and would be removed at the upper threshold: for DRGEP those with importance below it, for PFA those that no sampled state reaches at it. Without an upper threshold there are none.",
 ["inputs"], "every importance map or matrix set, threshold pair and retained list",
 "Tests check one limbo list of one method.",
 ["drg.py", "drgep.py", "pfa.py"], [("limbo selection", "drgep.py:run_drgep, pfa.py:reduce_pfa, drg.py:reduce_drg")],
 ["limbo species of the returned model"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
