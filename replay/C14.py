from world import *
import copy


def ok_mix(c, names):
    e, f, o, r = c.get("equivalence-ratio", 0.0), c.get("fuel", {}), c.get("oxidizer", {}), c.get("reactants", {})
    one, two = bool(e or f or o), bool(r)
    if one == two:
        return False
    if one:
        if not (e > 0 and f and o):
            return False
        parts = [f, o]
    else:
        parts = [r]
    for p in parts:
        for s, v in p.items():
            if not v > 0 or s not in names:
                return False
    ct_ = c.get("composition-type", "mole")
    if ct_ not in ("mole", "mass"):
        return False
    return not (ct_ == "mass" and e)


def ok(kind, c, names):
    if not (c.get("temperature", 0) > 0 and c.get("pressure", 0) > 0):
        return False
    if kind == "ignition" and c.get("kind") not in ("constant volume", "constant pressure"):
        return False
    if kind == "flame" and not c.get("width", 0.1) > 0:
        return False
    return ok_mix(c, names)


def body(b):
    rng = b.rng
    sol = submodel(["H2", "O2", "N2", "AR", "H2O", "CH2(S)", "OH", "H", "CO"])
    sol.write_yaml("model.yaml")
    names = sol.species_names
    sec = submodel(["H2", "O2", "H", "OH", "AR"], name="second")
    w = ct.YamlWriter()
    w.add_solution(sol)
    w.add_solution(sec)
    w.to_file("two.yaml")

    def mixture(nm, bad):
        def amounts(k):
            d = {s: rng.choice([1.0, 2, 3.76, 0.5]) for s in rng.sample(nm, min(k, len(nm)))}
            if rng.random() < bad:
                what = rng.choice(["zero", "negative", "unknown", "unknown", "empty", "first"])
                if what == "zero":
                    d[rng.choice(list(d))] = 0
                elif what == "negative":
                    d[list(d)[-1]] = -1.0
                elif what == "unknown":
                    d[rng.choice(["XX", "h2", "H2 ", "CH2", "HE", "N"])] = 1.0
                elif what == "empty":
                    d = {}
                else:
                    d = {"XX": 1.0, **d}
            return d
        c = {}
        if rng.random() < 0.5:
            c = {"equivalence-ratio": rng.choice([0.5, 1.0, 2]), "fuel": amounts(rng.randint(1, 2)), "oxidizer": amounts(rng.randint(1, 3))}
            if rng.random() < bad:
                c[rng.choice(["equivalence-ratio"])] = rng.choice([0, 0.0, -1.0])
            if rng.random() < bad:
                c.pop(rng.choice(list(c)))
            if rng.random() < bad / 2:
                c["reactants"] = amounts(1)
        elif rng.random() > bad / 2:
            c = {"reactants": amounts(rng.randint(1, 4))}
            if rng.random() < bad / 2:
                c[rng.choice(["fuel", "oxidizer"])] = amounts(1)
            if rng.random() < bad / 2:
                c["equivalence-ratio"] = rng.choice([1.0, 0, -1])
        if rng.random() < 0.4:
            c["composition-type"] = rng.choice(["mole", "mass"]) if rng.random() > bad else rng.choice(["volume", "", "Mole", None])
        return c

    counts = {}

    def run(kind, fn, cls, fname, phase, nm, cs):
        keep = copy.deepcopy(cs)
        want = all(ok(kind, c, nm) for c in cs)
        inp = dict(kind=kind, conditions=keep, species=nm)
        b.case(kind, fname, keep)
        ran = []
        try:
            with patched(*[(c_, m, lambda self, *a, **k2: ran.append(1)) for c_ in (simulation.IgnitionSimulation, simulation.PSRSimulation, simulation.FlameSimulation) for m in ("setup_case", "calculate")]):
                got = fn(fname, cs, phase)
        except Exception as e:
            counts[kind, 'rejected'] = counts.get((kind, 'rejected'), 0) + 1
            b.check(not want, "well-formed conditions rejected", error=f"{type(e).__name__}: {e}", **inp)
            return
        counts[kind, 'accepted'] = counts.get((kind, 'accepted'), 0) + 1
        b.check(cs == keep, "conditions modified", **inp)
        if not b.check(want, "malformed conditions accepted", **inp):
            return
        got = list(got)
        if not b.check(len(got) == len(cs), "one result per condition", got=got, **inp):
            return
        for g, c in zip(got, keep):
            exp = dict(temperature=c["temperature"], pressure=c["pressure"], equivalence_ratio=c.get("equivalence-ratio", 0.0), composition_type=c.get("composition-type", "mole"))
            if kind == "ignition":
                exp.update(kind=c["kind"], end_time=c.get("end-time", 0.0), max_steps=c.get("max-steps", 10000))
            if kind == "flame":
                exp.update(width=c.get("width", 0.1))
            for f, v in exp.items():
                b.check(getattr(g, f) == v, f"value of {f}", got=getattr(g, f), expected=v, **inp)
            for f in ("fuel", "oxidizer", "reactants"):
                b.check(dict(getattr(g, f) or {}) == c.get(f, {}), f"value of {f}", got=getattr(g, f), expected=c.get(f, {}), **inp)
            b.check(isinstance(g, cls), "kind of the result", got=type(g).__name__, **inp)

    fns = {"ignition": (sampling.parse_ignition_inputs, sampling.InputIgnition), "psr": (sampling.parse_psr_inputs, sampling.InputPSR), "flame": (sampling.parse_flame_inputs, sampling.InputLaminarFlame)}
    for kind, (fn, cls) in fns.items():
        b.section(kind)
        for k in range(b.n(250, 4000)):
            if not b.time_left({"ignition": .33, "psr": .66, "flame": 1.0}[kind]):
                break
            fname, phase, nm = rng.choice([("model.yaml", "", names), ("two.yaml", "second", sec.species_names)])
            bad = rng.choice([0, 0, 0.15, 0.3])
            cs = []
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                c = mixture(nm, bad)
                c["temperature"] = rng.choice([300.0, 1000, 1e-3]) if rng.random() >= bad / 2 else rng.choice([0, -5.0, 0.0])
                c["pressure"] = rng.choice([1.0, 20, 0.01]) if rng.random() >= bad / 2 else rng.choice([0, -1.0])
                if rng.random() < bad / 2:
                    c.pop(rng.choice(["temperature", "pressure"]))
                if kind == "ignition":
                    c["kind"] = rng.choice(["constant volume", "constant pressure"]) if rng.random() >= bad / 2 else rng.choice(["", "constant", "Constant volume", None, "constant temperature"])
                    if rng.random() < bad / 3:
                        c.pop("kind")
                    if rng.random() < 0.3:
                        c["end-time"] = rng.choice([1.0, 0.0, 1e-3])
                    if rng.random() < 0.3:
                        c["max-steps"] = rng.choice([5, 100000])
                if kind == "flame" and rng.random() < 0.4:
                    c["width"] = rng.choice([0.02, 1]) if rng.random() >= bad else rng.choice([0, -0.1])
                items = list(c.items())
                rng.shuffle(items)
                cs.append(dict(items))
            run(kind, fn, cls, fname, phase, nm, cs)


    def good(kind, nm):
        c = mixture(nm, 0)
        c.update(temperature=rng.choice([300.0, 1000, 1e-3]), pressure=rng.choice([1.0, 20, 0.01]))
        if kind == "ignition":
            c["kind"] = rng.choice(["constant volume", "constant pressure"])
            if rng.random() < 0.5:
                c["end-time"] = rng.choice([1.0, 1e-3])
        if kind == "flame" and rng.random() < 0.5:
            c["width"] = rng.choice([0.02, 1])
        return c

    def defects(kind, c, nm):
        out = [(f, v) for f in ("temperature", "pressure") for v in (None, 0, -1.0)]
        if kind == "ignition":
            out += [("kind", v) for v in (None, "", "constant", "constant volume ", "Constant pressure")]
        if kind == "flame":
            out += [("width", 0), ("width", -0.1), ("width", 0.0)]
        out += [("composition-type", v) for v in ("volume", "Mass", "")]
        if "reactants" in c:
            out += [("reactants", None), ("reactants", {}), ("fuel", {nm[0]: 1}), ("oxidizer", {nm[1]: 1.0}), ("equivalence-ratio", 1.0), ("equivalence-ratio", -0.5)]
            parts = ["reactants"]
        else:
            out += [("reactants", {nm[2]: 1}), ("fuel", {}), ("oxidizer", {}), ("fuel", None), ("oxidizer", None), ("equivalence-ratio", None), ("equivalence-ratio", 0.0),
                    ("equivalence-ratio", -1.0), ("composition-type", "mass")]
            parts = ["fuel", "oxidizer"]
        for p in parts:
            ks = list(c[p])
            for i in (0, len(ks) - 1):
                for v in (0, -2.5, -1):
                    out.append((p, {k2: (v if j == i else w2) for j, (k2, w2) in enumerate(c[p].items())}))
            for x in ("XX", "h2", "N", nm[0].lower(), nm[0] + "2"):
                out.append((p, {**c[p], x: 1.0}))
                out.append((p, {x: 1.0, **c[p]}))
                out.append((p, {x: 0, **c[p]}))
        return out

    for kind, (fn, cls) in fns.items():
        b.section(f"{kind}: one defect among well-formed conditions")
        for k in range(b.n(12, 120)):
            fname, phase, nm = rng.choice([("model.yaml", "", names), ("two.yaml", "second", sec.species_names)])
            cs = [good(kind, nm) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
            run(kind, fn, cls, fname, phase, nm, copy.deepcopy(cs))
            i = rng.randrange(len(cs))
            for f, v in defects(kind, cs[i], nm):
                d = copy.deepcopy(cs)
                if v is None:
                    d[i].pop(f, None)
                else:
                    d[i][f] = v
                run(kind, fn, cls, fname, phase, nm, d)


if __name__ == "__main__":
    main("C14", body)
