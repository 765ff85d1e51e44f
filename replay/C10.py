from runs import *
from C01cmp import same_model


def check(b, sc, res, exc, want, before, after, path, args0):
    inp = dict(sc.info(), path=path)
    b.check(sc.fname in after and after[sc.fname] == before[sc.fname], "the original model file was removed or changed", **inp)
    new = {f for f in after if f not in before}
    if res is None:
        extra = {f for f in new if os.path.basename(f) not in DATA}
        b.check(not extra, "files left behind by a failed reduction", files=sorted(extra), trace=describe(exc), **inp)
        return
    f = res.filename
    ok = b.check(bool(f) and os.path.isfile(f), "the reported file does not exist", got=f, files=sorted(after), **inp)
    if ok:
        b.check(os.path.dirname(os.path.abspath(f)) == os.path.abspath(path), "the reported file is not in the requested directory", got=f, **inp)
        back = ct.Solution(f)
        why = same_model(back, res.model)
        b.check(not why, "the reported file does not contain the returned model", why=why, **inp)
        b.check(back.species_names == res.model.species_names, "the reported file does not contain the returned model", got=back.species_names, expected=res.model.species_names, **inp)
    rel = os.path.relpath(f) if f else None
    extra = {x for x in new if os.path.basename(x) not in DATA and x != rel}
    b.check(not extra, "files of other candidates or temporary files remain", files=sorted(extra), reported=rel, **inp)
    changed = {x for x in before if x in after and after[x] != before[x] and x != rel}
    b.check(not changed, "other files changed", files=sorted(changed), **inp)
    gone = {x for x in before if x not in after}
    b.check(not gone, "other files removed", files=sorted(gone), **inp)


def body(b):
    for m, share in (("DRG", .25), ("DRGEP", .5), ("PFA", .7)):
        b.section(f"reductions with {m}")
        run_scenarios(b, [m], b.n(22, 250), check, share)
    b.section("sensitivity analysis")
    rng = b.rng
    for k in range(b.n(14, 150)):
        if not b.time_left(0.92):
            break
        with scratch():
            sc = Scenario(rng, "DRG")
            path = rng.choice(["", "", "out"])
            if path:
                os.mkdir(path)
            start = sc.fname
            if rng.random() < 0.5:
                # as after a reduction: the model to start from is in the same directory
                keep = sorted(set(sc.names) - set(rng.sample(sorted(set(sc.names) - sc.protected()), 1))) if set(sc.names) - sc.protected() else sc.names
                red = reduce_model.trim(sc.fname, [s for s in sc.names if s not in keep], "x.yaml")
                start = soln2yaml.write(red, f"reduced_{red.n_species}.yaml", path=path)
            before = tree()
            kind = rng.choice(["initial", "greedy"])
            b.case(sc.world.seed, start, kind, path)
            res = exc = None
            with sc.world.simulations():
                tmp0 = set(os.listdir(tempfile.gettempdir()))
                try:
                    res = sensitivity_analysis.run_sa(start, 0.0, sc.ign, sc.psr, sc.flame, sc.limit, sorted(sc.protected()), algorithm_type=kind, path=path)
                except (Exception, SystemExit) as e:
                    exc = e
            if res is None:
                b.violation("sensitivity analysis failed", trace=describe(exc), start=start, kind=kind, **sc.info())
                continue
            sc.fname = sc.fname
            check(b, sc, res, exc, None, before, tree(), path, None)
    b.section("writing a model")
    for k in range(b.n(25, 200)):
        with scratch():
            os.mkdir("d")
            a = rich_model(rng, fname="a.yaml", n=6)
            c = rich_model(rng, names=rng.sample(RICH, 9) + [], fname="c.yaml", n=4)
            path = rng.choice(["", "d", os.path.abspath("d"), "d/"])
            name = rng.choice(["m.yaml", "x.y.yaml", ""])
            fname = os.path.join(path, name or c.name + ".yaml")
            if rng.random() < 0.6:
                with open(fname, "w") as f:
                    f.write("# an old file\n" * 5000)
                if rng.random() < 0.5:
                    a.write_yaml(fname)
            before = tree()
            b.case(path, name, k)
            got, e = b.expect("write", soln2yaml.write, c, name, path, _inp=dict(path=path, name=name))
            if e is not None:
                continue
            b.check(os.path.normpath(got) == os.path.normpath(fname), "name of the written file", got=got, expected=fname)
            if os.path.isfile(fname):
                back = ct.Solution(fname)
                why = same_model(back, c)
                b.check(not why, "the file does not hold the written model", why=why, path=path, name=name)
            else:
                b.violation("no file written", path=path, name=name)
            after = tree()
            rel = os.path.relpath(fname)
            b.check({x: h for x, h in after.items() if x != rel} == {x: h for x, h in before.items() if x != rel}, "other files disturbed", before=sorted(before), after=sorted(after))


if __name__ == "__main__":
    main("C10", body)
