from runs import *


def body(b):
    rng = b.rng
    for method in ("DRG", "DRGEP", "PFA"):
        fn = METHODS[method][1]
        b.section(f"candidates of {method}")
        for k in range(b.n(40, 400)):
            if not b.time_left({"DRG": .33, "DRGEP": .66, "PFA": 1.0}[method]):
                break
            with scratch():
                phase = rng.choice(["", "ph"])
                sc = Scenario(rng, method, fname=rng.choice(["model.yaml", "m2.yaml"]), phase=phase)
                n = len(sc.names)
                ms = [np.array([[0 if i == j or rng.random() < 0.7 else rng.random() ** 2 for j in range(n)] for i in range(n)]) for _ in range(rng.randint(1, 3))]
                thr = rng.choice([0.01, 0.1, 0.3, 0.5])
                ms[0][0, 1] = thr
                sc._ms = ms
                sc.imp = importance(ms, sc.names, sc.targets)
                if method == "DRGEP":
                    sc.imp[rng.choice(sc.names)] = thr
                    sc.imp[rng.choice(sc.names)] = float(np.nextafter(thr, 0))
                safe = list(sc.safe)
                flame_speed = rng.choice([None, 0.1, 0.02])
                os.mkdir("out")
                path = rng.choice(["", "out"])
                metrics = sc.world.all_metrics(sc.names, sc.ign, sc.psr, sc.flame)
                kw = dict(psr_conditions=sc.psr, flame_conditions=sc.flame, phase_name=phase, path=path, min_flame_speed=flame_speed)

                def call(t, **more):
                    k2 = dict(kw, **more)
                    if method == "DRGEP":
                        return fn(sc.fname, safe, t, sc.imp, sc.ign, metrics, **k2)
                    return fn(sc.fname, sc.targets, safe, t, ms, sc.ign, metrics, **k2)

                def kept(t):
                    if method == "DRGEP":
                        return {s for s in sc.names if sc.imp[s] >= t or s in safe}
                    return reach_all(ms, sc.names, sc.targets, t) | set(safe)

                inp = dict(sc.info(), threshold=thr, importance=getattr(sc, "imp", None) if method == "DRGEP" else None, matrices=[m.tolist() for m in ms])
                want = kept(thr)
                if len(want) < 1:
                    continue
                b.case(method, sc.world.seed, thr, [m.tolist() for m in ms])
                sc.world.evals.clear()
                with sc.world.simulations():
                    got, e = b.expect("candidate", call, thr, _inp=inp)
                if e is not None:
                    continue
                b.check(set(got.model.species_names) == want, "species of the candidate", got=got.model.species_names, expected=sorted(want), **inp)
                err = sc.error(want)
                b.check(close(got.error, err, 1e-9), "error of the candidate", got=got.error, expected=err, **inp)
                # what was simulated: this candidate, under the given conditions and settings
                exp = sorted([("ign", i) for i in range(len(sc.ign))] + [("psr", i) for i in range(len(sc.psr))] + [("flame", i) for i in range(len(sc.flame))])
                b.check(sorted((k_, i) for k_, i, *_ in sc.world.evals) == exp, "simulations run for the candidate", got=[e_[:2] for e_ in sc.world.evals], **inp)
                for kind, i, names, model, sim in sc.world.evals:
                    case = {"ign": sc.ign, "psr": sc.psr, "flame": sc.flame}[kind][i]
                    b.check(set(names) == want, "model simulated for the candidate", got=names, expected=sorted(want), **inp)
                    b.check(sim.properties == case and sim.phase_name == phase, "conditions or phase of a simulation", got=(sim.properties, sim.phase_name), expected=(case, phase), **inp)
                    if kind == "flame":
                        b.check(sim.min_flame_speed == (flame_speed if flame_speed is not None else simulation.FlameSimulation.min_flame_speed),
                                "minimum flame speed of a simulation", got=sim.min_flame_speed, expected=flame_speed, **inp)
                # reuse of a previous result
                for t2 in (thr * 1.0001, rng.uniform(thr, 1.0), rng.uniform(thr, min(1.0, thr * 3))):
                    with sc.world.simulations():
                        again, e = b.expect("candidate", call, t2, previous_model=got, _inp=inp)
                    if e is not None:
                        break
                    w2 = kept(t2)
                    b.check(set(again.model.species_names) == w2, "species of a candidate after a previous one", threshold2=t2, got=again.model.species_names, expected=sorted(w2), **inp)
                    b.check(close(again.error, sc.error(w2), 1e-9), "error of a candidate after a previous one", threshold2=t2, got=again.error, expected=sc.error(w2), **inp)


if __name__ == "__main__":
    main("C07", body)
