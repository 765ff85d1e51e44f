from runs import *

F = {"ign": ("ignition_data.dat", "ignition_output.txt"), "psr": ("psr_data.dat", "psr_output.txt"), "flame": ("laminarflame_data.dat", "laminarflame_output.txt")}
PER = {"ign": (1, 20), "psr": (3, 3), "flame": (1, 20)}


def body(b):
    rng = b.rng
    from pymars.sampling import InputIgnition, InputPSR, InputLaminarFlame
    models = {}

    def model(n):
        if n not in models:
            sol = submodel(CORE[:n])
            f = os.path.join(base, f"model{n}.yaml")
            sol.write_yaml(f)
            models[n] = ct.Solution(f)
        return models[n], os.path.join(base, f"model{n}.yaml")
    base = os.getcwd()
    STATES = ["absent", "good", "good", "good", "more cases", "fewer cases", "other species", "missing species", "empty", "one row", "one value", "more rows", "fewer rows", "truncated"]
    b.section("saved files of every kind")
    for k in range(b.n(160, 1500)):
        if not b.time_left(0.8):
            break
        with scratch():
            ns = rng.choice([5, 8])
            sol, fname = model(ns)
            w = World(rng, sol.species_names)
            w.zero_prob = 0
            c = {"ign": rng.choice([0, 1, 1, 2, 3]), "psr": rng.choice([0, 0, 1, 2, 3]), "flame": rng.choice([0, 0, 1, 2])}
            if not any(c.values()):
                continue
            r = {"H2": 1.0}
            cond = {"ign": [InputIgnition("constant volume", 1000 + 10 * i, 1.0 + i, end_time=1.0, reactants=r) for i in range(c["ign"])],
                    "psr": [InputPSR(300.0 + i, 1.0 + i, reactants=r) for i in range(c["psr"])],
                    "flame": [InputLaminarFlame(300.0 + i, 1.0 + i, reactants=r) for i in range(c["flame"])]}
            saved, state = {}, {}
            nr = np.random.RandomState(rng.randint(0, 2 ** 31))
            for kind in F:
                nm, nrow = PER[kind]
                n = c[kind] or rng.choice([0, 1, 2])
                out = nr.rand(n * nm) + 1
                data = nr.rand(n * nrow, ns + 2) + 1
                so, sd = rng.choice(STATES), rng.choice(STATES)
                if rng.random() < 0.4:
                    so = sd = "good"
                state[kind] = (so, sd)
                if so == "more cases":
                    out = nr.rand((n + rng.choice([1, 2])) * nm)
                elif so == "fewer cases":
                    out = out[: max(0, (n - 1) * nm)]
                elif so in ("empty", "one row", "truncated"):
                    out = out[:0]
                elif so == "one value":
                    out = nr.rand(1)
                elif so in ("more rows", "fewer rows"):
                    out = out[:-1] if so == "fewer rows" else np.concatenate([out, [1.0]])
                if sd == "more cases":
                    data = nr.rand((n + 1) * nrow, ns + 2)
                elif sd == "fewer cases":
                    data = data[: max(0, (n - 1) * nrow)]
                elif sd == "other species":
                    data = nr.rand(len(data), ns + 3)
                elif sd == "missing species":
                    data = data[:, :-1]
                elif sd == "empty":
                    data = data[:0]
                elif sd in ("one row", "one value"):
                    data = data[:1] if sd == "one row" else nr.rand(1, 1)
                elif sd == "more rows":
                    data = np.vstack([data, nr.rand(rng.randint(1, 19), ns + 2)])
                elif sd == "fewer rows":
                    data = data[:-rng.randint(1, 3)] if len(data) > 3 else data[:1]
                if sd != "absent":
                    np.savetxt(F[kind][0], data, delimiter=",")
                    if sd == "truncated" and len(data):
                        t = open(F[kind][0]).read()
                        open(F[kind][0], "w").write(t[: int(len(t) * 0.7)])
                if so != "absent":
                    np.savetxt(F[kind][1], out, delimiter=",")
                fits_out = so != "absent" and len(out) == c[kind] * nm and c[kind] > 0
                fits_data = sd not in ("absent", "truncated") and data.shape == (c[kind] * nrow, ns + 2)
                saved[kind] = (out if fits_out else None, data if fits_data else None)
            before = tree()
            inp = dict(cases=c, states=state, species=ns, seed=w.seed)
            b.case(k, inp)
            gas = sol
            sim = {kind: (np.concatenate([np.atleast_1d(w.metric({"ign": "ign", "psr": "psr", "flame": "flame"}[kind], i, sol.species_names, PER[kind][0])) for i in range(c[kind])]) if c[kind] else np.array([]),
                          np.vstack([w.rows(kind, i, gas, PER[kind][1]) for i in range(c[kind])]) if c[kind] else np.zeros((0, ns + 2))) for kind in F}

            def dirty():
                return {x: h_ for x, h_ in tree().items() if x in DATA}
            # metrics of candidates are never read
            w.evals.clear()
            with w.simulations():
                got, e = b.expect("sample_metrics", sampling.sample_metrics, fname, cond["ign"], psr_conditions=cond["psr"], flame_conditions=cond["flame"], _inp=inp)
            if e is None:
                want = np.concatenate([sim[kind][0] for kind in F])
                b.check(np.array_equal(got, want), "metrics of a candidate are not those simulated", got=list(got), expected=list(want), **inp)
            b.check(tree() == before, "files changed by the evaluation of a candidate", **inp)
            # metrics of the starting model
            with w.simulations():
                got, e = b.expect("sample_metrics with saved ones", sampling.sample_metrics, fname, cond["ign"], psr_conditions=cond["psr"], flame_conditions=cond["flame"], reuse_saved=True, _inp=inp)
            if e is None:
                want = np.concatenate([(saved[kind][0] if saved[kind][0] is not None else sim[kind][0]) if c[kind] else np.array([]) for kind in F])
                b.check(np.array_equal(got, want), "metrics with saved results", got=list(got), expected=list(want), **inp)
            # sampling
            with w.simulations():
                got, e = b.expect("sample", sampling.sample, fname, cond["ign"], psr_conditions=cond["psr"], flame_conditions=cond["flame"], _inp=inp)
            if e is None:
                use = {kind: (saved[kind] if saved[kind][0] is not None and saved[kind][1] is not None else sim[kind]) for kind in F if c[kind]}
                wm = np.concatenate([use[kind][0] for kind in F if c[kind]])
                wd = np.vstack([use[kind][1] for kind in F if c[kind]])
                b.check(np.array_equal(got[0], wm), "sampled metrics", got=list(got[0]), expected=list(wm), **inp)
                b.check(np.shape(got[1]) == wd.shape and np.array_equal(got[1], wd), "sampled states", **inp)
                for kind in F:
                    if not c[kind]:
                        b.check(all(tree().get(f) == before.get(f) for f in F[kind]), "files of another kind changed", kind=kind, **inp)
                        continue
                    ok = all(os.path.isfile(f) for f in F[kind])
                    b.check(ok and np.array_equal(np.loadtxt(F[kind][0], delimiter=",", ndmin=2), use[kind][1]) and np.array_equal(np.loadtxt(F[kind][1], delimiter=",", ndmin=1), use[kind][0]),
                            "saved files after sampling", kind=kind, **inp)
                # and again: now the files fit
                w.samples.clear()
                with w.simulations():
                    again, e = b.expect("sample again", sampling.sample, fname, cond["ign"], psr_conditions=cond["psr"], flame_conditions=cond["flame"], _inp=inp)
                if e is None:
                    b.check(np.array_equal(again[0], got[0]) and np.array_equal(again[1], got[1]), "sampling again", **inp)
                    b.check(not w.samples, "fitting files were not reused", ran=[x[:2] for x in w.samples], **inp)
                got, e = b.expect("read_metrics", sampling.read_metrics, cond["ign"], cond["psr"], cond["flame"], _inp=inp)
                if e is None:
                    b.check(np.array_equal(got, wm), "metrics read", got=list(got), expected=list(wm), **inp)
    b.section("reading metrics without files")
    for missing in F:
        with scratch():
            conds = {kind: [1] for kind in F}
            for kind in F:
                if kind != missing:
                    np.savetxt(F[kind][1], np.ones(PER[kind][0]), delimiter=",")
            b.case("missing", missing)
            try:
                r = sampling.read_metrics(conds["ign"], conds["psr"], conds["flame"])
                b.violation("metrics without a file", got=list(r), missing=missing)
            except (SystemError, OSError):
                pass


if __name__ == "__main__":
    main("C13", body)
