from world import *
from pymars.sampling import InputPSR


def body(b):
    rng = b.rng
    sol = submodel(["H2", "O2", "H", "O", "OH", "H2O", "HO2", "H2O2", "N2", "AR"])
    sol.write_yaml("h2.yaml")
    n = sol.n_species
    b.section("scripted solver")
    for k in range(b.n(300, 3000)):
        if not b.time_left(0.6):
            break
        fail = rng.choice([None, None, None, RuntimeError("no seed"), ct.CanteraError("bad")])

        def rnd():
            y = np.array([rng.random() for _ in range(n)])
            return (rng.uniform(1e-6, 0.5), rng.uniform(900, 2800), y / y.sum())
        pts = {"extinction": rnd(), "near_0.1s": rnd(), "log_mid": rnd()}
        P = rng.choice([1.0, 5.5])
        T = rng.choice([300.0, 500.0])
        case = InputPSR(T, P, reactants={"H2": 2.0, "O2": 1.0, "N2": rng.choice([3.76, 10.0])})
        ref = ct.Solution("h2.yaml")
        ref.TPX = T, P * ct.one_atm, case.reactants
        inlet = ref.T, ref.P, ref.Y.copy()
        calls = []

        def trace(gas, *a, **kw):
            calls.append((gas.T, gas.P, gas.Y.copy(), a, kw))
            gas.TPX = 2500.0, 7e5, {"H2O": 1.0}
            if fail is not None:
                raise fail
            return {"branch": np.array([[p[0], p[1]] for p in pts.values()]), "points": dict(rng.sample(list(pts.items()), 3))}
        want = np.array([pts["extinction"][0], pts["log_mid"][1], pts["near_0.1s"][1]])
        inp = dict(points={a: p[:2] for a, p in pts.items()}, fail=repr(fail), pressure=P)
        b.case(inp)
        with replaced_everywhere(psr_solver.trace_extinction_curve, trace):
            s = simulation.PSRSimulation(1, case, "h2.yaml")
            s.setup_case()
            for call in rng.sample(["calculate", "run_case", "process", "skip", "calculate"], 4):
                calls.clear()
                try:
                    r = {"calculate": s.calculate, "run_case": s.run_case, "process": s.process_results, "skip": lambda: s.process_results(skip_data=True)}[call]()
                    exc = None
                except RuntimeError as e:
                    exc, r = e, None
                except Exception as e:
                    b.violation(f"{call}: unexpected {type(e).__name__}: {e}", **inp)
                    continue
                for c in calls:
                    b.check(close(c[0], inlet[0]) and close(c[1], inlet[1]) and np.allclose(c[2], inlet[2], atol=1e-12), f"{call}: evaluation does not start from the inlet state", got=c[:2], **inp)
                if fail is not None:
                    if call == "calculate":
                        b.check(exc is None and r is not None and np.shape(r) == (3,) and not np.any(r), "metrics of a candidate without extinction curve", got=r, error=repr(exc), **inp)
                    else:
                        b.check(exc is not None, f"{call}: missing extinction curve of the original model was accepted", got=r, **inp)
                    continue
                if not b.check(exc is None, f"{call}: traced curve was rejected", error=repr(exc), **inp):
                    continue
                m = r[0] if call == "process" else r
                b.check(np.shape(m) == (3,) and np.array_equal(m, want), f"{call}: metrics", got=list(np.ravel(m)), expected=list(want), **inp)
                if call == "process":
                    rows = np.array([np.concatenate([[pts[x][1], P * ct.one_atm], pts[x][2]]) for x in ("extinction", "log_mid", "near_0.1s")])
                    b.check(np.shape(r[1]) == rows.shape and np.allclose(r[1], rows, rtol=1e-14, atol=0), "sampled states", got=np.asarray(r[1])[:, :3].tolist(), expected=rows[:, :3].tolist(), **inp)
    b.section("real reactor")
    for k in range(b.n(3, 15)):
        if not b.time_left():
            break
        case = InputPSR(rng.choice([300.0, 400.0]), rng.choice([1.0, 3.0]), equivalence_ratio=rng.choice([0.7, 1.0]), fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "N2": 3.76})
        b.case("real", case)
        inp = dict(case=case)
        s = simulation.PSRSimulation(1, case, "h2.yaml")
        s.setup_case()
        r, e = b.expect("sampling", s.process_results, _inp=inp)
        if e is not None:
            continue
        again, e = b.expect("second evaluation", s.calculate, _inp=inp)
        b.check(e is None and np.allclose(again, r[0], rtol=1e-6), "a second evaluation differs", got=again, first=r[0], **inp)
        ref = ct.Solution("h2.yaml")
        ref.TP = case.temperature, case.pressure * ct.one_atm
        ref.set_equivalence_ratio(case.equivalence_ratio, case.fuel, case.oxidizer)
        hin, Yin = ref.enthalpy_mass, ref.Y.copy()
        rows = np.asarray(r[1])
        for j in range(3):
            ref.TPY = rows[j][0], rows[j][1], rows[j][2:]
            b.check(abs(ref.enthalpy_mass - hin) < 2e-3 * abs(ref.cp_mass * 1000), "enthalpy of a sampled state", state=list(rows[j][:2]), **inp)
        # at extinction the residence time belongs to the state
        ref.TPY = rows[0][0], rows[0][1], rows[0][2:]
        res = (ref.Y - Yin) - r[0][0] * ref.net_production_rates * ref.molecular_weights / ref.density
        b.check(np.max(np.abs(res)) < 1e-5, "species balance at extinction", got=float(np.max(np.abs(res))), **inp)
        b.check(r[0][1] == rows[1][0] and r[0][2] == rows[2][0] and rows[0][0] < rows[1][0] < rows[2][0] + 1e-9, "temperatures of the sampled states", got=(list(r[0]), list(rows[:, 0])), **inp)


if __name__ == "__main__":
    main("C18", body)
