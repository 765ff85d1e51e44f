from runs import *


def oracle(err, start, start_error, cand, limit, kind, slack=1e-9):
    """(final species, final error, steps) by the documented procedure; None if a tie decides"""
    cur, ce = set(start), start_error
    left = list(cand)
    errs = {s: err(cur - {s}) for s in left}
    steps = []
    while left:
        d = {s: abs(errs[s] - ce) for s in left}
        m = min(d.values())
        best = [s for s in left if d[s] <= m + slack]
        if len(best) > 1:
            # whichever is chosen, the outcome has to be the same to be clear
            if not all(err(cur - {s}) > limit + slack for s in best):
                return None
        s = best[0]
        e = err(cur - {s})
        steps.append((s, e))
        if abs(e - limit) < 1e-9:
            return None
        if e > limit:
            break
        cur -= {s}
        ce = e
        left.remove(s)
        if kind == "greedy":
            errs = {s: err(cur - {s}) for s in left}
    return cur, ce, steps


def body(b):
    rng = b.rng
    for kind in ("initial", "greedy"):
        b.section(f"{kind} sensitivity analysis")
        for k in range(b.n(34, 350)):
            if not b.time_left(0.4 if kind == "initial" else 0.8):
                break
            with scratch():
                sc = Scenario(rng, "DRG", n=rng.randint(6, 10))
                sc.world.harsh = rng.choice([0.02, 0.1, 0.4, sc.world.harsh])
                sc.world.nonmono = rng.random() < 0.7
                limit = rng.choice([1.0, 3.0, 10.0, 30.0, 99.0])
                prot = sorted(sc.protected())
                start_names = list(sc.names)
                start = sc.fname
                base = None
                given = rng.choice(["none", "some", "some", "all"])
                limbo = [] if given == "none" else rng.sample(sc.names, rng.randint(1, len(sc.names))) if given == "some" else list(sc.names)
                if rng.random() < 0.5:
                    # metrics of the original model were saved, and the analysis starts from a reduced one
                    free = [s for s in sc.names if s not in prot]
                    drop = rng.sample(free, min(len(free), rng.choice([0, 1, 2])))
                    start_names = [s for s in sc.names if s not in drop]
                    submodel_file = f"start{len(start_names)}.yaml"
                    reduce_model.trim(sc.fname, drop, submodel_file).write_yaml(submodel_file)
                    start = submodel_file
                    base = sc.names
                    with sc.world.simulations():
                        sampling.sample(sc.fname, sc.ign, psr_conditions=sc.psr, flame_conditions=sc.flame)
                    limbo = [s for s in limbo if s in start_names]
                    if given != "none" and not limbo:
                        continue
                orig = sc.world.all_metrics(base or start_names, sc.ign, sc.psr, sc.flame)
                if (orig == 0).any():
                    continue

                def err(names):
                    t = sc.world.all_metrics(names, sc.ign, sc.psr, sc.flame)
                    return 100.0 if (t == 0).any() else float(100 * np.max(np.abs(orig - t) / orig))
                start_error = rng.choice([err(start_names), 0.0, round(rng.uniform(0, limit), 3)])
                cand = [s for s in (limbo or start_names) if s not in prot]
                want = oracle(err, start_names, start_error, cand, limit, kind)
                if want is None:
                    continue
                l0, p0 = list(limbo), list(prot)
                inp = dict(sc.info(), start=start_names, limbo=limbo, protected=prot, kind=kind, start_error=start_error, sa_limit=limit, expected_steps=want[2])
                b.case(sc.world.seed, start_names, limbo, prot, kind, start_error, limit)
                sc.world.evals.clear()
                with sc.world.simulations():
                    res, e = b.expect("run_sa", sensitivity_analysis.run_sa, start, start_error, sc.ign, sc.psr, sc.flame, limit, prot, algorithm_type=kind, species_limbo=limbo, _inp=inp)
                if e is not None:
                    continue
                b.check(limbo == l0 and prot == p0, "arguments modified", **inp)
                b.check(set(res.model.species_names) == want[0], "species of the final model", got=res.model.species_names, expected=sorted(want[0]), **inp)
                b.check(close(res.error, want[1], 1e-9, 1e-9), "error of the final model", got=res.error, expected=want[1], **inp)
                if want[2] and want[2][0][1] <= limit:
                    b.check(res.error <= limit, "the final model exceeds the limit", got=res.error, **inp)
                # which species were considered: those of the starting model less one
                considered = {frozenset(start_names) - frozenset(ns) for _, _, ns, _, _ in sc.world.evals if len(ns) == len(start_names) - 1}
                b.check(considered == {frozenset([s]) for s in cand}, "species considered", got=sorted(map(sorted, considered)), expected=cand, **inp)
    b.section("attributed errors")
    for k in range(b.n(16, 150)):
        if not b.time_left():
            break
        with scratch():
            sc = Scenario(rng, "DRG", n=rng.randint(6, 10))
            limbo = rng.sample(sc.names, rng.randint(0, 5))
            metrics = sc.world.all_metrics(sc.names, sc.ign, sc.psr, sc.flame) * rng.choice([1.0, 1.1])
            start = reduce_model.ReducedModel(model=sc.sol, filename=sc.fname, error=1.0)
            b.case(sc.world.seed, limbo)
            before = tree()
            speed = rng.choice([None, 0.123])
            with sc.world.simulations():
                got, e = b.expect("evaluate_species_errors", sensitivity_analysis.evaluate_species_errors, start, sc.ign, metrics, limbo, psr_conditions=sc.psr, flame_conditions=sc.flame, min_flame_speed=speed)
            if e is not None:
                continue
            want = []
            for s in limbo:
                t = sc.world.all_metrics([x for x in sc.names if x != s], sc.ign, sc.psr, sc.flame)
                want.append(100.0 if (t == 0).any() else float(100 * np.max(np.abs(metrics - t) / metrics)))
            b.check(len(got) == len(limbo) and all(close(x, y, 1e-9, 1e-9) for x, y in zip(got, want)), "attributed errors", got=list(got), expected=want, limbo=limbo, **sc.info())
            b.check(tree() == before, "files left behind", got=sorted(tree()))
            for kind, i, names, model, sim in sc.world.evals:
                if kind == "flame" and sim.min_flame_speed != (speed or simulation.FlameSimulation.min_flame_speed):
                    b.violation("minimum flame speed of a simulation", got=sim.min_flame_speed, expected=speed)


if __name__ == "__main__":
    main("C25", body)
