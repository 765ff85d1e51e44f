from world import *
from C01cmp import *
from C01cmp import abc_of as _abc


def compare(b, got, orig, removed, inp, rel, stage):
    keep = [s for s in orig.species() if s.name not in removed]
    kn = {s.name for s in keep}
    if not b.check(got.species_names == [s.name for s in keep], f"{stage}: species kept", got=got.species_names, **inp):
        return
    for s, o in zip(got.species(), keep):
        b.check(same(sp_data(s), sp_data(o), rel), f"{stage}: data of species {s.name}", **inp)
    want = []
    for r in orig.reactions():
        if not rx_species(r) <= kn:
            continue
        t = tb_only(r)
        if t is not None and t in removed:
            continue
        want.append(r)
    gr = got.reactions()
    if not b.check([r.equation for r in gr] == [r.equation for r in want], f"{stage}: reactions kept",
                   missing=[r.equation for r in want if r.equation not in [x.equation for x in gr]],
                   extra=[r.equation for r in gr if r.equation not in [x.equation for x in want]], **inp):
        return
    for r, o in zip(gr, want):
        b.check(dec(r) == dec(o), f"{stage}: reaction {o.equation}", got=dec(r), expected=dec(o), **inp)
        b.check(same(rate_data(r.rate), rate_data(o.rate), rel), f"{stage}: rate of {o.equation}", got=rate_data(r.rate), expected=rate_data(o.rate), **inp)
        if o.third_body is not None:
            e = {k: v for k, v in o.third_body.efficiencies.items() if k in kn}
            b.check(dict(r.third_body.efficiencies) == e, f"{stage}: efficiencies of {o.equation}", got=r.third_body.efficiencies, expected=e, **inp)
    # rates agree where the eliminated species are absent
    rng = random.Random(5)
    Y = {n: rng.random() for n in kn}
    if kn:
        got.TPY = 1400.0, 3e5, Y
        orig.TPY = 1400.0, 3e5, Y
        idx = {}
        for i, r in enumerate(orig.reactions()):
            idx.setdefault(r.equation, []).append(i)
        pos = []
        seen = {}
        full = [i for i, r in enumerate(orig.reactions()) if rx_species(r) <= kn and not (tb_only(r) is not None and tb_only(r) in removed)]
        b.check(np.allclose(got.forward_rates_of_progress, orig.forward_rates_of_progress[full], rtol=1e-6, atol=1e-300),
                f"{stage}: rates of progress in absence of the eliminated species", **inp)


def body(b):
    def one(fname, removed, phase="", newname="reduced.yaml", as_list=list):
        orig = ct.Solution(fname, phase)
        inp = dict(model=fname, removed=removed, phase=phase, text=open(fname).read()[-1800:] if os.path.exists(fname) else "")
        b.case(fname, sorted(removed), phase)
        given = as_list(removed)
        before = open(fname).read()
        red, e = b.expect("trim", reduce_model.trim, fname, given, newname, phase_name=phase, _inp=inp)
        if e is not None:
            return
        b.check(list(given) == list(removed), "list of eliminated species modified", **inp)
        b.check(open(fname).read() == before, "model file modified", **inp)
        b.check(red.name == (phase or os.path.splitext(newname)[0]), "name of the reduced model", got=red.name, **inp)
        b.check(red.transport_model == orig.transport_model, "transport model", got=red.transport_model, expected=orig.transport_model, **inp)
        b.check(close(red.T, orig.T) and close(red.P, orig.P, 1e-6), "temperature and pressure", got=(red.T, red.P), expected=(orig.T, orig.P), **inp)
        compare(b, red, orig, set(removed), inp, 1e-9, "reduced model")
        # through a file
        f, e = b.expect("writing the reduced model", soln2yaml.write, red, "rt.yaml", _inp=inp)
        if e is None:
            back, e = b.expect("reading the reduced model", ct.Solution, f, _inp=inp)
            if e is None:
                compare(b, back, ct.Solution(fname, phase), set(removed), inp, 1e-6, "file of the reduced model")
                b.check(back.transport_model == orig.transport_model, "transport model in the file", **inp)
                # and on from there (as sensitivity analysis does)
                left = back.species_names
                if len(left) > 3:
                    more = b.rng.sample(left, 1)
                    r2, e = b.expect("second trim", reduce_model.trim, f, more, "again.yaml", _inp=inp)
                    if e is None:
                        compare(b, r2, ct.Solution(f), set(more), dict(inp, more=more), 1e-6, "twice reduced model")

    b.section("all kinds of reactions")
    for k in range(b.n(45, 500)):
        if not b.time_left(0.6):
            break
        fname = f"m{k}.yaml"
        sol = rich_model(b.rng, fname=fname, n=b.rng.randint(6, 16), transport=b.rng.choice(["mixture-averaged", "multicomponent", "none", "unity-Lewis-number"]),
                         kinds=["arr", "tb", "tb0", "tbp", "expl", "expl", "lind", "troe3", "troe4", "sri3", "sri5", "ca", "plog", "cheb", "dup"])
        n = sol.species_names
        single = sorted({list(r.third_body.efficiencies)[0] for r in sol.reactions() if r.third_body is not None and len(r.third_body.efficiencies) == 1})
        for j in range(3):
            removed = b.rng.sample(n, b.rng.choice([0, 1, 1, 2, 3, len(n) - 3]))
            if j == 0 and single:
                removed = [b.rng.choice(single)] + [s for s in removed[:2] if s not in single]
            one(fname, removed, newname=b.rng.choice(["reduced.yaml", "my.model.yaml", "x"]))
    b.section("GRI-Mech")
    for k in range(b.n(8, 60)):
        if not b.time_left(0.85):
            break
        fname = f"g{k}.yaml"
        sol = random_model(b.rng, b.rng.randint(10, 30), fname, transport=b.rng.choice(["mixture-averaged", "multicomponent"]))
        n = sol.species_names
        removed = b.rng.sample(n, b.rng.randint(0, len(n) - 3))
        one(fname, removed)
    b.section("named phases")
    for k in range(b.n(6, 30)):
        if not b.time_left():
            break
        fname = f"p{k}.yaml"
        a = rich_model(b.rng, names=["H2", "H", "O", "O2", "OH", "H2O", "AR", "N2"], name="first")
        c = rich_model(b.rng, names=["H2", "O2", "HO2", "H2O2", "H", "OH", "H2O", "AR"], name="second")
        c.TP = 450.0, 2e5
        w = ct.YamlWriter()
        w.add_solution(a)
        w.add_solution(c)
        w.to_file(fname)
        for ph in ("", "first", "second"):
            sol = ct.Solution(fname, ph)
            one(fname, b.rng.sample(sol.species_names, b.rng.randint(0, 3)), phase=ph)
    b.section("names that contain other names")
    s, sp, rx = gri()
    sol = submodel(["CH2", "CH2(S)", "CH2O", "CH2OH", "CH", "C", "O", "O2", "H", "H2", "OH", "H2O", "CO", "CO2", "HCO", "AR", "N2"])
    sol.write_yaml("n.yaml")
    for t in (["CH2"], ["C"], ["CH2(S)"], ["CH", "CH2O"], ["O"], ["AR"], ["N2", "AR"], ["H2O"]):
        one("n.yaml", t)
        one("n.yaml", tuple(t), as_list=tuple)


main("C01", body)
