from C01cmp import *
from pymars import soln2ck
from cantera import ck2yaml
import re


def back(files, tag="back"):
    """read the exported files with Cantera's own Chemkin reader"""
    inp = next(f for f in files if f.endswith(".inp"))
    args = [f"--input={inp}", f"--output={tag}.yaml", "--quiet"]
    for f in files:
        if f.endswith("thermo.dat"):
            args.append(f"--thermo={f}")
        if f.endswith("transport.dat"):
            args.append(f"--transport={f}")
    ck2yaml.main(args)
    return ct.Solution(f"{tag}.yaml")


def isabs(a, c, rel, ab):
    return abs(a - c) <= rel * max(abs(a), abs(c)) + ab


def same_abc(x, y, falloff):
    # 5 digits, 3 decimals, 0.01 cal/mol (falloff: 4 digits)
    return isabs(x[0], y[0], 1e-4, 0) and isabs(x[1], y[1], 0, 6e-4) and isabs(x[2], y[2], 6e-4 if falloff else 1e-7, 0.006 * 4184)


def rate_difference(r, o):
    if hasattr(r.rate, "low_rate"):
        for lim in ("low_rate", "high_rate"):
            if not same_abc(abc_of(getattr(r.rate, lim)), abc_of(getattr(o.rate, lim)), True):
                return f"{lim} {abc_of(getattr(r.rate, lim))} / {abc_of(getattr(o.rate, lim))}"
        x, y = [float(v) for v in r.rate.falloff_coeffs], [float(v) for v in o.rate.falloff_coeffs]
        if len(x) != len(y) or not all(isabs(p, q, 1e-6, 0) for p, q in zip(x, y)):
            return f"falloff parameters {x} / {y}"
    elif hasattr(r.rate, "rates"):
        x, y = r.rate.rates, o.rate.rates
        if len(x) != len(y) or not all(isabs(p[0], q[0], 1e-6, 0) and same_abc(abc_of(p[1]), abc_of(q[1]), False) for p, q in zip(x, y)):
            return "pressure-dependent rates"
    elif hasattr(r.rate, "data"):
        if not (same(list(r.rate.temperature_range), list(o.rate.temperature_range), 1e-6) and same(list(r.rate.pressure_range), list(o.rate.pressure_range), 1e-6)):
            return "Chebyshev ranges"
        if np.shape(r.rate.data) != np.shape(o.rate.data) or not np.allclose(r.rate.data, o.rate.data, rtol=1e-5, atol=1e-5):
            return "Chebyshev coefficients"
    elif not same_abc(abc_of(r.rate), abc_of(o.rate), False):
        return f"rate {abc_of(r.rate)} / {abc_of(o.rate)}"
    return None


def difference(m, c, thermo=True, transport=True):
    if [e for e in m.element_names] != [e.capitalize() if len(e) > 1 else e for e in c.element_names] and [e.upper() for e in m.element_names] != [e.upper() for e in c.element_names]:
        return f"elements {m.element_names} / {c.element_names}"
    if m.species_names != c.species_names:
        return f"species {m.species_names} / {c.species_names}"
    for s, o in zip(m.species(), c.species()):
        if dict(s.composition) != dict(o.composition):
            return f"composition of {s.name}"
        x, y = list(s.thermo.coeffs), list(o.thermo.coeffs)
        if thermo and not (len(x) == len(y) and (isabs(x[0], y[0], 0, 0.006) or x[1:8] == x[8:15]) and all(isabs(p, q, 2e-8, 0) for p, q in zip(x[1:], y[1:]))
                           and isabs(s.thermo.min_temp, o.thermo.min_temp, 0, 6e-4) and isabs(s.thermo.max_temp, o.thermo.max_temp, 0, 6e-4)):
            return f"thermo of {s.name}: {x} / {y}"
        if transport:
            t, u = s.transport, o.transport
            if u is None or t.geometry != u.geometry or not (
                    isabs(t.diameter, u.diameter, 1e-9, 6e-14) and isabs(t.well_depth / ct.boltzmann, u.well_depth / ct.boltzmann, 1e-6, 6e-4) and
                    isabs(t.dipole, u.dipole, 1e-5, 2e-33) and isabs(t.polarizability, u.polarizability, 1e-9, 6e-34) and isabs(t.rotational_relaxation, u.rotational_relaxation, 0, 6e-4)):
                return f"transport of {s.name}"
    if m.n_reactions != c.n_reactions:
        return f"{m.n_reactions} / {c.n_reactions} reactions"
    for i, (r, o) in enumerate(zip(m.reactions(), c.reactions())):
        if (dict(r.reactants), dict(r.products), r.reversible, r.duplicate) != (dict(o.reactants), dict(o.products), o.reversible, o.duplicate):
            return f"reaction {i}: {r.equation} / {o.equation}, duplicate {r.duplicate} / {o.duplicate}"
        if type(r.rate) is not type(o.rate) or r.reaction_type != o.reaction_type:
            return f"kind of reaction {i} ({r.equation}): {r.reaction_type} / {o.reaction_type}"
        d = rate_difference(r, o)
        if d:
            return f"reaction {i} ({r.equation}): {d}"
        t, u = r.third_body, o.third_body
        if (t is None) != (u is None):
            return f"third body of reaction {i} ({r.equation})"
        if t is not None:
            for s in m.species_names:
                if not isabs(t.efficiency(s), u.efficiency(s), 1e-9, 0):
                    return f"efficiency of {s} in reaction {i} ({r.equation}): {t.efficiency(s)} / {u.efficiency(s)}"
    return None


def text_difference(m, inp):
    """the sections of the exported file, read without Cantera"""
    t = open(inp).read()
    lines = [x for x in t.split("\n") if x.strip() and not x.startswith("!")]
    el = re.search(r"ELEMENTS\n(.*?)\nEND", t, re.S)
    sp = re.search(r"SPECIES\n(.*?)\nEND", t, re.S)
    if not el or el.group(1).split() != list(m.element_names):
        return "elements section"
    if not sp or sp.group(1).split() != list(m.species_names):
        return "species section"
    if any(len(x) > 80 for x in sp.group(1).split("\n")):
        return "species line longer than 80 columns"
    rx = t.index("REACTIONS")
    if t[rx:].split("\n")[0].split()[1:] not in ([], ["CAL/MOLE", "MOLES"], ["CAL/MOLE"], ["MOLES"]):
        return "units"
    eqs = [x for x in lines[lines.index(next(x for x in lines if x.startswith("REACTIONS"))) + 1:] if "=" in x]
    if len(eqs) != m.n_reactions:
        return f"{len(eqs)} reaction lines for {m.n_reactions} reactions"
    return None


def column_difference(m, files):
    """thermo and transport files, read by their columns"""
    for f in files:
        if f.endswith("_thermo.dat"):
            t = open(f).read().split("\n")
            if t[0].split()[0] != "THERMO":
                return "thermo header"
            for i, s in enumerate(m.species()):
                l = t[2 + 4 * i: 6 + 4 * i]
                if len(l) < 4 or [x[79:80] for x in l] != list("1234"):
                    return f"thermo lines of {s.name}: {l}"
                c = list(s.thermo.coeffs)
                try:
                    got = [float(l[0][65:73])] + [float(x[15 * k: 15 * k + 15]) for x, n in ((l[1], 5), (l[2], 5), (l[3], 4)) for k in range(n)]
                    lo, hi = float(l[0][45:55]), float(l[0][55:65])
                    comp = {}
                    for k in range(4):
                        e = l[0][24 + 5 * k: 29 + 5 * k]
                        if e.strip():
                            comp[e[:2].strip()] = float(e[2:])
                except ValueError as e:
                    return f"thermo columns of {s.name}: {e}"
                if l[0][:18].split()[0] != s.name or l[0][44] != "G" or {k.upper(): v for k, v in comp.items() if v} != {k.upper(): v for k, v in s.composition.items() if v}:
                    return f"first thermo line of {s.name}: {l[0]}"
                if not (isabs(got[0], c[0], 0, 0.006) and isabs(lo, s.thermo.min_temp, 0, 6e-4) and isabs(hi, s.thermo.max_temp, 0, 6e-4)):
                    return f"thermo temperatures of {s.name}"
                if not all(isabs(x, y, 2e-8, 0) for x, y in zip(got[1:], c[1:])):
                    return f"thermo coefficients of {s.name}"
        if f.endswith("_transport.dat"):
            l = [x for x in open(f).read().split("\n") if x.strip()]
            if len(l) != m.n_species:
                return f"{len(l)} transport lines"
            for x, s in zip(l, m.species()):
                t = s.transport
                w = x.split()
                want = [t.well_depth / ct.boltzmann, t.diameter * 1e10, t.dipole / 3.33564e-30, t.polarizability * 1e30, t.rotational_relaxation]
                if len(w) != 7 or w[0] != s.name or w[1] != {"atom": "0", "linear": "1", "nonlinear": "2"}[t.geometry] or not all(isabs(float(a), c, 0, 6e-4) for a, c in zip(w[2:], want)):
                    return f"transport line of {s.name}: {x}"
    return None


def body(b):
    rng = b.rng
    supported = ["arr", "arr", "tb", "lind", "troe3", "troe4", "sri5", "sri3", "ca", "plog", "cheb", "dup", "expl", "tb0"]

    def export(m, tag, **kw):
        inp = dict(kind=tag, species=m.n_species, reactions=[(r.equation, r.reaction_type) for r in m.reactions()][:40])
        b.case(tag, [(r.equation, r.input_data) for r in m.reactions()])
        with scratch():
            os.makedirs("out")
            path = rng.choice(["", "out"])
            if rng.random() < 0.5:
                open(os.path.join(path, "m.inp"), "w").write("ELEMENTS\nX\nEND\nold")
            files, e = b.expect(f"export ({tag})", soln2ck.write, m, "m.inp", path=path, _inp=inp, **kw)
            if e is not None:
                return
            files = [files] if isinstance(files, str) else list(files)
            want = [os.path.join(path, "m.inp")] + ([] if kw.get("skip_thermo") else [os.path.join(path, "m_thermo.dat")]) + ([] if kw.get("skip_transport") else [os.path.join(path, "m_transport.dat")])
            if not b.check(files == want and all(map(os.path.isfile, files)), "exported files", got=files, want=want, **inp):
                return
            d = text_difference(m, files[0])
            if not b.check(d is None, f"exported file ({tag}): {d}", **inp):
                return
            d = column_difference(m, files)
            if not b.check(d is None, f"exported file ({tag}): {d}", **inp):
                return
            if kw:
                return
            try:
                c = back(files)
            except (Exception, SystemExit) as e:
                b.violation(f"exported model ({tag}) cannot be read back: {type(e).__name__}: {str(e)[-600:]}", text=open(files[0]).read()[-1500:], **inp)
                return
            d = difference(m, c)
            b.check(d is None, f"exported model ({tag}) differs: {d}", **inp)

    b.section("each kind of reaction")
    for kind in sorted(set(supported)):
        for k in range(b.n(3, 12)):
            export(rich_model(rng, n=rng.randint(2, 5), kinds=[kind]), kind)
    b.section("mixtures")
    for k in range(b.n(25, 200)):
        if not b.time_left(0.6):
            break
        export(rich_model(rng, n=rng.randint(6, 18), kinds=supported), "mixture")
    b.section("parts of GRI-Mech 3.0")
    for k in range(b.n(6, 60)):
        if not b.time_left(0.85):
            break
        export(random_model(rng, n=rng.randint(7, 40)), "GRI part")
    export(gri()[0], "GRI")
    export(gri()[0], "no thermo", skip_thermo=True)
    export(gri()[0], "no transport", skip_transport=True)

    b.section("long names and equations")
    sp = {x.name: x for x in gri()[1]}
    for k in range(b.n(4, 30)):
        ren = {}
        L = rng.choice([8, 12, 15, 16])
        for x in RICH:
            ren[x] = (x + "_" + "abcdefghijklmnop")[:L]
        spec = []
        for x in RICH:
            n = ct.Species(ren[x], dict(sp[x].composition), 0.0, 1.0)
            n.thermo, n.transport = sp[x].thermo, sp[x].transport
            spec.append(n)
        rx = []
        for l, r in (("H2 O", "H OH"), ("CO H2O2", "CO2 H2O"), ("HO2 HO2", "H2O2 O2"), ("CO H2O2 O", "CO2 H2O O"), ("H2O2 H2O2 O", "H2O H2O O O O")):
            eq = " + ".join(ren[x] for x in l.split()) + rng.choice([" <=> ", " => "]) + " + ".join(ren[x] for x in r.split())
            rx.append(ct.Reaction(equation=eq, rate=ct.ArrheniusRate(*_abc(arr(rng)))))
        m = ct.Solution(thermo="ideal-gas", kinetics="bulk", species=spec, reactions=rx, transport_model="mixture-averaged")
        export(m, f"names of {L} characters")

    b.section("unsupported kinds")
    for k in range(b.n(6, 30)):
        m0 = rich_model(rng, n=4)
        lo = arr(rng)
        bad = rng.choice([lambda: ct.Reaction(equation="CO + H2O <=> CO2 + H2", rate=ct.BlowersMaselRate(1e5, 0.5, 5e7, 4e8)),
                          lambda: ct.Reaction(equation="CO + H2O (+M) <=> CO2 + H2 (+M)", rate=ct.TsangRate(lo, lo, [0.9, -1e-4])),
                          lambda: ct.Reaction(equation="CO + H2O => CO2 + H2", rate=ct.TwoTempPlasmaRate(1e5, 0.5, 5e6, 4e6))])()
        rx = m0.reactions()
        rx.insert(rng.randint(0, len(rx)), bad)
        m = ct.Solution(thermo="ideal-gas", kinetics="bulk", species=m0.species(), reactions=rx, transport_model="mixture-averaged")
        b.case("unsupported", bad.reaction_type, k)
        with scratch():
            try:
                soln2ck.write(m, "m.inp")
            except (NotImplementedError, ValueError):
                continue
            except Exception as e:
                b.violation(f"unsupported kind: unexpected {type(e).__name__}: {e}", kind=bad.reaction_type)
                continue
            b.violation("an unsupported reaction kind was written without an error", kind=bad.reaction_type, text=open("m.inp").read()[-600:])


from world import _abc, arr

if __name__ == "__main__":
    main("C22", body)
