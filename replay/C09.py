from runs import *


def check(b, sc, res, exc, want, before, after, path, args0):
    names, err, cands = want
    inp = dict(sc.info(), thresholds=[(t, sorted(n), e) for t, n, e in cands][-6:])
    if names is None:
        b.check(res is None and isinstance(exc, SystemExit), "no acceptable model, but the reduction returned one or failed otherwise",
                got=res and (res.model.species_names, res.error), trace=describe(exc), **inp)
        return
    if exc is not None:
        b.violation("an acceptable model exists, but the reduction failed", trace=describe(exc), **inp)
        return
    b.check(res.error <= sc.limit, "error of the returned model exceeds the limit", got=res.error, **inp)
    own = sc.error(res.model.species_names)
    b.check(close(res.error, own, 1e-7, 1e-9), "reported error is not that of the returned model", got=res.error, expected=own, **inp)
    b.check(set(res.model.species_names) == set(names), "not the last acceptable model before the first that exceeds the limit",
            got=res.model.species_names, expected=sorted(names), **inp)


def body(b):
    for m in ("DRG", "DRGEP", "PFA"):
        b.section(f"reductions with {m}")
        run_scenarios(b, [m], b.n(28, 300), check, {"DRG": 0.33, "DRGEP": 0.66, "PFA": 1.0}[m])


main("C09", body)
