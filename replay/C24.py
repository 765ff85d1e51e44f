from runs import *
import copy


def freeze(x):
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.tobytes())
    if isinstance(x, dict):
        return ("dict", [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if isinstance(x, ct.Solution):
        return ("solution", tuple(x.species_names), x.n_reactions)
    return repr(x)


def outcome(r):
    if r is None:
        return None
    return (tuple(r.model.species_names), tuple(r.model.reaction_equations()), os.path.basename(r.filename), r.error, tuple(sorted(r.limbo_species)))


class Defaults:
    """the default arguments of every function of the package"""

    def __init__(self):
        self.d = {}
        for mod in (drg, drgep, pfa, sensitivity_analysis, sampling, simulation, reduce_model, pm, soln2yaml, psr_solver):
            for name, f in list(vars(mod).items()):
                fs = [f] if inspect.isfunction(f) else [m for m in vars(f).values() if inspect.isfunction(m)] if inspect.isclass(f) else []
                for g in fs:
                    if (g.__module__ or "").startswith("pymars"):
                        self.d[(g.__module__, g.__qualname__)] = (g, freeze(g.__defaults__))
                if inspect.isclass(f) and hasattr(f, "_field_defaults"):
                    self.d[("fields", name)] = (f, freeze(f._field_defaults))

    def changed(self):
        out = []
        for k, (g, old) in self.d.items():
            now = freeze(g._field_defaults) if k[0] == "fields" else freeze(g.__defaults__)
            if now != old:
                out.append(k)
        return out


def body(b):
    rng = b.rng
    defaults = Defaults()

    def action(method, sc, kind):
        """a call with its arguments, performed in a fresh directory"""
        path = ""
        if kind == "run":
            fn = METHODS[method][0]
            args = [sc.fname, sc.ign, sc.psr, sc.flame, sc.limit, sc.targets, sc.safe]
            return fn, args, dict(phase_name=sc.phase, threshold_upper=sc.upper)
        if kind == "sa":
            return sensitivity_analysis.run_sa, [sc.fname, 0.0, sc.ign, sc.psr, sc.flame, sc.limit, sc.sa_safe], dict(algorithm_type=sc.sa_kind, species_limbo=sc.sa_limbo, phase_name=sc.phase)
        return pm.main, [sc.fname, sc.limit, sc.ign, sc.psr, sc.flame], dict(method=method, target_species=sc.targets, safe_species=sc.safe, run_sensitivity_analysis=True,
                                                                         upper_threshold=sc.upper, sensitivity_type=sc.sa_kind, phase_name=sc.phase)

    def perform(method, sc, kind, text):
        fn, args, kw = action(method, sc, kind)
        with scratch():
            with open(sc.fname, "w") as f:
                f.write(text)
            fz = freeze(args), freeze(kw)
            with sc.world.simulations():
                try:
                    r = outcome(fn(*args, **kw))
                except SystemExit as e:
                    r = "no model"
                except Exception as e:
                    r = f"{type(e).__name__}: {e}"
            if (freeze(args), freeze(kw)) != fz:
                b.violation("arguments modified", call=fn.__name__, before=fz, after=(args, kw))
            return r

    b.section("reductions one after another")
    for k in range(b.n(20, 200)):
        if not b.time_left(0.7):
            break
        jobs = []
        for j in range(2):
            with scratch():
                m = rng.choice(["DRG", "DRGEP", "PFA"])
                sc = Scenario(rng, m, upper=rng.choice([None, 0.1, 0.4]), n=rng.randint(6, 9))
                sc.world.harsh = rng.choice([0.05, 0.3, sc.world.harsh])
                sc.sa_kind = rng.choice(["initial", "greedy"])
                sc.sa_limbo = rng.choice([[], rng.sample(sc.names, rng.randint(1, len(sc.names)))])
                sc.sa_safe = sorted(sc.protected())
                if rng.random() < 0.3:
                    # the same lists shared between two settings
                    sc.safe = sc.targets
                    sc.sa_safe = sc.targets
                kind = rng.choice(["run", "run", "sa", "main"])
                jobs.append((m, sc, kind, open(sc.fname).read()))
        b.case([(j[0], j[2], j[1].world.seed, j[1].upper, j[1].limit) for j in jobs])
        first = perform(*jobs[0])
        other = perform(*jobs[1])
        again = perform(*jobs[0])
        inp = dict(jobs=[(j[0], j[2], j[1].info()) for j in jobs])
        b.check(first == again, "the outcome of a call depends on earlier calls", first=first, again=again, **inp)
        b.check(perform(*jobs[1]) == other, "the outcome of a call depends on earlier calls", **inp)
        ch = defaults.changed()
        if not b.check(not ch, "default arguments changed", which=ch, **inp):
            defaults = Defaults()
        r = reduce_model.ReducedModel(model=None)
        b.check(list(r.limbo_species) == [], "limbo species of an unrelated result", got=r.limbo_species, **inp)

    b.section("simulation batches")
    for k in range(b.n(30, 200)):
        if not b.time_left(0.85):
            break
        with scratch():
            sc = Scenario(rng, "DRG", n=8)
            threads = rng.choice([1, 1, 2])
            fz = freeze((sc.ign, sc.psr, sc.flame))
            b.case(sc.world.seed, threads)
            with sc.world.simulations():
                m1 = sampling.sample_metrics(sc.fname, sc.ign, psr_conditions=sc.psr, flame_conditions=sc.flame, num_threads=threads, phase_name=sc.phase)
                a1 = sampling.sample(sc.fname, sc.ign, psr_conditions=sc.psr, flame_conditions=sc.flame, num_threads=threads, phase_name=sc.phase)
                m2 = sampling.sample_metrics(sc.fname, sc.ign, psr_conditions=sc.psr, flame_conditions=sc.flame, num_threads=threads, phase_name=sc.phase)
                a2 = sampling.sample(sc.fname, sc.ign, psr_conditions=sc.psr, flame_conditions=sc.flame, num_threads=threads, phase_name=sc.phase)
            b.check(freeze((sc.ign, sc.psr, sc.flame)) == fz, "conditions modified", **sc.info())
            b.check(freeze(m1) == freeze(m2), "metrics differ between calls", first=m1, second=m2, **sc.info())
            b.check(np.allclose(a1[0], a2[0], rtol=1e-12) and np.allclose(a1[1], a2[1], rtol=1e-12), "samples differ between calls", **sc.info())
            x, y = np.array([1.0, 2.0]), np.array([1.5, 0.0])
            sampling.calculate_error(x, y)
            b.check(list(x) == [1, 2] and list(y) == [1.5, 0], "metrics modified by the error calculation")
    b.section("input checks")
    from C08 import inputs
    for k in range(b.n(40, 400)):
        if not b.time_left():
            break
        with scratch():
            sc = Scenario(rng, "DRG", n=9)
            d, prot = inputs(rng, sc)
            if rng.random() < 0.8:
                d["method"] = rng.choice(["DRG", "DRGEP", "PFA"])
            if rng.random() < 0.4 or "method" not in d:
                d["sensitivity-analysis"] = True
            if rng.random() < 0.3:
                d["retained-species"] = d["targets"]          # one list for both
            if rng.random() < 0.1:
                d["targets"] = d["targets"] + ["nonsense"]
            b.case(d)
            keep = copy.deepcopy(d)
            r = []
            for _ in range(2):
                try:
                    r.append(repr(pm.parse_inputs(d)))
                except Exception as e:
                    r.append(f"{type(e).__name__}: {e}")
                b.check(d == keep and repr(d) == repr(keep), "input modified", before=keep, after=d)
            b.check(r[0] == r[1], "checking the same input twice gives different results", first=r[0], second=r[1], input=keep)
            for fn, key in ((sampling.parse_ignition_inputs, "autoignition-conditions"), (sampling.parse_psr_inputs, "psr-conditions"), (sampling.parse_flame_inputs, "laminar-flame-conditions")):
                if key in d:
                    fn(sc.fname, d[key], sc.phase)
                    b.check(d == keep, "conditions modified", before=keep[key], after=d[key])


if __name__ == "__main__":
    main("C24", body)
