from runs import *


def check(b, sc, res, exc, want, before, after, path, args0):
    inp = sc.info()
    prot = sc.protected()
    for kind, idx, names, model, _ in sc.world.evals + sc.world.samples:
        miss = prot - set(names)
        if miss:
            b.violation("a model that lacks protected species was tried", missing=sorted(miss), model=model, tried=names, **inp)
            return
    if res is not None:
        miss = prot - set(res.model.species_names)
        b.check(not miss, "the returned model lacks protected species", missing=sorted(miss), got=res.model.species_names, **inp)
        if res.filename and os.path.exists(res.filename):
            b.check(prot <= set(ct.Solution(res.filename).species_names), "the reported file lacks protected species", **inp)
        b.check(not prot & set(res.limbo_species) or sc.method == "DRG", "protected species handed to sensitivity analysis", got=res.limbo_species, **inp)


def inputs(rng, sc):
    """an input dictionary with all kinds of conditions; returns it and the protected species"""
    names = sc.names

    def mix():
        if rng.random() < 0.5:
            return {"reactants": {s: 1.0 for s in rng.sample(names, rng.choice([1, 2, 3]))}}
        k = rng.choice([1, 2])
        s = rng.sample(names, k + 2)
        return {"equivalence-ratio": 1.0, "fuel": {x: 1.0 for x in s[:k]}, "oxidizer": {x: 1.0 for x in s[k:]}}
    kinds = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 1, 0), (1, 1, 1), (0, 1, 1), (1, 0, 2)])
    d = {"model": sc.fname, "error": sc.limit, "targets": list(sc.targets),
         "autoignition-conditions": [dict(mix(), **{"kind": "constant volume", "temperature": 1000.0, "pressure": 1.0, "end-time": 1.0}) for _ in range(kinds[0])],
         "psr-conditions": [dict(mix(), temperature=300.0, pressure=1.0) for _ in range(kinds[1])],
         "laminar-flame-conditions": [dict(mix(), temperature=300.0, pressure=1.0) for _ in range(kinds[2])]}
    d = {k: v for k, v in d.items() if v}
    ret = rng.sample(names, rng.choice([0, 0, 1, 2]))
    if ret:
        d["retained-species"] = ret
    prot = set(sc.targets) | set(ret)
    for key in ("autoignition-conditions", "psr-conditions", "laminar-flame-conditions"):
        for c in d.get(key, []):
            for m in ("fuel", "oxidizer", "reactants"):
                prot |= set(c.get(m, {}))
    return d, prot


def body(b):
    for m, share in (("DRG", .2), ("DRGEP", .4), ("PFA", .6)):
        b.section(f"reductions with {m}")
        run_scenarios(b, [m], b.n(16, 200), check, share, upper=lambda rng: rng.choice([None, 0.1, 0.3]))
    rng = b.rng
    b.section("sensitivity analysis")
    for k in range(b.n(14, 150)):
        if not b.time_left(0.75):
            break
        with scratch():
            sc = Scenario(rng, "DRG", n=rng.randint(6, 9))
            limbo = rng.choice([[], rng.sample(sc.names, rng.randint(1, len(sc.names)))])
            prot = sorted(sc.protected())
            kind = rng.choice(["initial", "greedy"])
            b.case(sc.world.seed, sc.fname, kind, limbo, prot)
            sc.limit = rng.choice([sc.limit, 99.0])
            sc.world.harsh = rng.choice([0.02, 0.1, sc.world.harsh])
            with sc.world.simulations():
                res, e = b.expect("run_sa", sensitivity_analysis.run_sa, sc.fname, 0.0, sc.ign, sc.psr, sc.flame, sc.limit, list(prot), algorithm_type=kind, species_limbo=list(limbo), _inp=sc.info())
            if e is None:
                check(b, sc, res, None, None, None, None, None, None)
    b.section("whole runs from an input")
    for k in range(b.n(26, 300)):
        if not b.time_left():
            break
        with scratch():
            sc = Scenario(rng, "DRG", n=rng.randint(6, 9))
            sc.limit = rng.choice([sc.limit, 99.0])
            sc.world.harsh = rng.choice([0.02, 0.1, sc.world.harsh])
            d, prot = inputs(rng, sc)
            d["method"] = rng.choice(["DRG", "DRGEP", "PFA", ""])
            if not d["method"]:
                del d["method"]
                d.pop("targets", None)
                prot = prot - set(sc.targets) | {s for c in ("autoignition-conditions", "psr-conditions", "laminar-flame-conditions") for x in d.get(c, [])
                                                 for m in ("fuel", "oxidizer", "reactants") for s in x.get(m, {})} | set(d.get("retained-species", []))
                d["sensitivity-analysis"] = True
            elif rng.random() < 0.6:
                d["sensitivity-analysis"] = True
            if rng.random() < 0.5:
                d["sensitivity-type"] = rng.choice(["greedy", "initial"])
            if rng.random() < 0.5:
                d["upper-threshold"] = rng.choice([0.05, 0.3])
            import yaml
            with open("input.yaml", "w") as f:
                yaml.safe_dump(d, f)
            b.case(d, sc.world.seed)
            sc.world.evals.clear()
            sc.world.samples.clear()
            keep = {}
            wrap = lambda fn: (lambda *a, **k: keep.setdefault("res", []).append(fn(*a, **k)) or keep["res"][-1])
            exc = None
            with sc.world.simulations(), replaced_everywhere(drg.run_drg, wrap(drg.run_drg)), replaced_everywhere(drgep.run_drgep, wrap(drgep.run_drgep)), \
                    replaced_everywhere(pfa.run_pfa, wrap(pfa.run_pfa)), replaced_everywhere(sensitivity_analysis.run_sa, wrap(sensitivity_analysis.run_sa)):
                try:
                    pm.pymars(["-i", "input.yaml"])
                except SystemExit as e:
                    exc = e
                except Exception as e:
                    b.violation("run failed", trace=describe(e), input=d)
                    continue
            inp = dict(input=d, seed=sc.world.seed)
            for kind, idx, names, model, _ in sc.world.evals + sc.world.samples:
                miss = prot - set(names)
                if miss:
                    b.violation("a model that lacks protected species was tried", missing=sorted(miss), model=model, tried=names, **inp)
                    break
            for r in keep.get("res", []):
                miss = prot - set(r.model.species_names)
                b.check(not miss, "the returned model lacks protected species", missing=sorted(miss), got=r.model.species_names, **inp)


if __name__ == "__main__":
    main("C08", body)
