from runs import *

DRG_KEY = "drg-limbo-reached"


def judge(b, sc, res, upper, inp):
    want = sc.limbo(res.model.species_names, upper)
    got = set(res.limbo_species)
    b.check(len(res.limbo_species) == len(got), "limbo species listed more than once", got=res.limbo_species, **inp)
    if got == want:
        return
    if sc.method == "DRG" and upper and got == reach_all(sc.matrices(), sc.names, sc.targets, upper):
        b.known_finding(DRG_KEY, "reduce_drg reports the species reached at the upper threshold as limbo species")
        return
    b.violation("limbo species", got=sorted(got), expected=sorted(want), model=res.model.species_names, **inp)


def check(b, sc, res, exc, want, before, after, path, args0):
    if res is None:
        b.check(want[0] is None, "reduction failed", trace=describe(exc), **sc.info())
        return
    judge(b, sc, res, sc.upper, sc.info())


def body(b):
    rng = b.rng
    for m, share in (("DRG", .25), ("DRGEP", .5), ("PFA", .75)):
        b.section(f"reductions with {m}")
        run_scenarios(b, [m], b.n(22, 250), check, share, upper=lambda rng: rng.choice([None, 0.01, 0.05, 0.2, 0.5, 0.9]))
    b.section("handed to sensitivity analysis")
    rng = b.rng
    for k in range(b.n(45, 300)):
        if not b.time_left():
            break
        with scratch():
            m = rng.choice(["DRGEP", "PFA", "DRG"])
            sc = Scenario(rng, m, upper=rng.choice([0.05, 0.3]))
            want = sc.expected()
            if want[0] in ("unclear", None):
                continue
            seen = []
            orig = sensitivity_analysis.run_sa

            def stub(*a, **k):
                ba = inspect.signature(orig).bind(*a, **k)
                ba.apply_defaults()
                seen.append({"limbo": list(ba.arguments["species_limbo"]), "safe": list(ba.arguments["species_safe"])})
                return reduce_model.ReducedModel(model=None)
            b.case(m, sc.world.seed, sc.upper)
            with sc.world.simulations(), replaced_everywhere(orig, stub):
                _, e = b.expect("main", pm.main, sc.fname, sc.limit, sc.ign, sc.psr, sc.flame, method=m, target_species=sc.targets, safe_species=sc.safe,
                                run_sensitivity_analysis=True, upper_threshold=sc.upper, phase_name=sc.phase, _inp=sc.info())
            if e is not None:
                continue
            if not b.check(len(seen) == 1, "sensitivity analysis runs once", got=seen):
                continue
            res = reduce_model.ReducedModel(model=sc.sol, limbo_species=seen[0]["limbo"])
            names = want[0]
            lim = sc.limbo(names, sc.upper)
            got = set(seen[0]["limbo"])
            if got != lim:
                if m == "DRG" and got == reach_all(sc.matrices(), sc.names, sc.targets, sc.upper):
                    b.known_finding(DRG_KEY, "reduce_drg reports the species reached at the upper threshold as limbo species")
                else:
                    b.violation("limbo species handed over", got=sorted(got), expected=sorted(lim), **sc.info())
            b.check(set(seen[0]["safe"]) >= sc.protected(), "protected species handed over", got=seen[0]["safe"], **sc.info())


if __name__ == "__main__":
    main("C26", body)
