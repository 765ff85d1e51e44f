from C01cmp import *
from pymars.tools import compare_models


def rebuild(species, reactions, transport="mixture-averaged"):
    return ct.Solution(thermo="ideal-gas", kinetics="bulk", species=species, reactions=reactions, transport_model=transport)


def fresh_species(s, transport=True):
    """a new species object with the same data"""
    n = ct.Species(s.name, dict(s.composition), s.charge, 1.0)
    th = s.thermo
    n.thermo = type(th)(th.min_temp, th.max_temp, th.reference_pressure, np.array(th.coeffs))
    if transport and s.transport is not None:
        n.transport = copy_transport(s.transport)
    return n


FIELDS = ("geometry", "diameter", "well_depth", "dipole", "polarizability", "rotational_relaxation", "acentric_factor", "dispersion_coefficient",
          "quadrupole_polarizability")


def copy_transport(t, **change):
    n = ct.GasTransportData()
    for f in FIELDS:
        setattr(n, f, change.get(f, getattr(t, f)))
    return n


ABC = ("A", "b", "E")


def change_arr(rng, a, which, f, cls=None):
    A, bb, E = abc_of(a)
    if which == "A":
        A = A * f
    elif which == "b":
        bb = bb + 0.1 * (f if f > 1 else -1)
    else:
        E = E * f if E else 1e6
    return (cls or type(a))(A, bb, E)


def rx_mutations(rng, r, names, f):
    """(tag, new reaction) for every datum of the reaction"""
    out = []
    base = dict(reactants=dict(r.reactants), products=dict(r.products))

    def tb():
        t = r.third_body
        return None if t is None else ct.ThirdBody(t.name, efficiencies=dict(t.efficiencies), default_efficiency=t.default_efficiency)

    def mk(rate=None, dup=None, rev=None, tbody="same", reactants=None, products=None, eq=None, orders=None):
        eq = eq or r.equation
        if rev is not None:
            eq = eq.replace("<=>", "=>") if not rev else eq.replace("<=>", "=>").replace("=>", "<=>")
        t = tb() if tbody == "same" else tbody
        kw = {} if t is None or t.name not in ("M",) else dict(third_body=t)
        n = ct.Reaction(equation=eq, rate=rate or r.rate, **kw)
        n.duplicate = r.duplicate if dup is None else dup
        if orders:
            n.allow_nonreactant_orders = True
            n.orders = orders
        return n
    out.append(("duplicate", lambda: mk(dup=not r.duplicate)))
    out.append(("reversible", lambda: mk(rev=not r.reversible)))
    rate = r.rate
    if r.third_body is None and "=>" in r.equation:
        sp = sorted(r.reactants)[0]
        if not r.reversible:
            out.append(("orders", lambda: mk(orders={sp: r.reactants[sp] + 0.5})))
    if hasattr(rate, "low_rate"):
        fc = [float(x) for x in rate.falloff_coeffs]

        def fr(lo=None, hi=None, co=None):
            n = type(rate)(lo or rate.low_rate, hi or rate.high_rate, fc if co is None else co)
            return _chem(n, rate.chemically_activated)
        for w in ABC:
            out.append((f"low-{w}", lambda w=w: mk(fr(lo=change_arr(rng, rate.low_rate, w, f)))))
            out.append((f"high-{w}", lambda w=w: mk(fr(hi=change_arr(rng, rate.high_rate, w, f)))))
        for i in range(len(fc)):
            co = list(fc)
            co[i] = co[i] * f
            out.append((f"falloff-{type(rate).__name__}-{i}", lambda co=co: mk(fr(co=co))))
        if isinstance(rate, ct.TroeRate):
            co = fc[:3] if len(fc) == 4 and fc[3] else fc[:3] + [4321.0]
            out.append(("troe-number", lambda co=co: mk(fr(co=co))))
        if isinstance(rate, ct.SriRate):
            co = fc[:3] if len(fc) == 5 and (fc[3] != 1 or fc[4]) else fc[:3] + [1.5, 0.2]
            out.append(("sri-number", lambda co=co: mk(fr(co=co))))

        def act():
            n = type(rate)(rate.low_rate, rate.high_rate, fc)
            return mk(_chem(n, not rate.chemically_activated))
        out.append(("activated", act))
        out.append(("falloff-kind", lambda: mk(_chem(ct.TroeRate(rate.low_rate, rate.high_rate, [.5, 90., 1200.]) if not isinstance(rate, ct.TroeRate) else
                                                     ct.LindemannRate(rate.low_rate, rate.high_rate, []), rate.chemically_activated))))
    elif hasattr(rate, "rates"):
        tab = list(rate.rates)
        for i in range(len(tab)):
            for w in ABC:
                n = list(tab)
                n[i] = (n[i][0], change_arr(rng, n[i][1], w, f))
                out.append((f"plog-{w}", lambda n=n: mk(ct.PlogRate(n))))
            n = list(tab)
            n[i] = (n[i][0] * f, n[i][1])
            out.append(("plog-p", lambda n=n: mk(ct.PlogRate(n))))
        if len(tab) > 1:
            out.append(("plog-len", lambda: mk(ct.PlogRate(tab[:-1]))))
    elif hasattr(rate, "data"):
        tr, pr = list(rate.temperature_range), list(rate.pressure_range)
        d = np.array(rate.data)
        for i in (0, 1):
            t2, p2 = list(tr), list(pr)
            t2[i] *= f
            p2[i] *= f
            out.append(("cheb-T", lambda t2=t2: mk(ct.ChebyshevRate(tuple(t2), tuple(pr), d))))
            out.append(("cheb-P", lambda p2=p2: mk(ct.ChebyshevRate(tuple(tr), tuple(p2), d))))
        i, j = rng.randrange(d.shape[0]), rng.randrange(d.shape[1])
        d2 = d.copy()
        d2[i, j] += 0.05
        out.append(("cheb-data", lambda: mk(ct.ChebyshevRate(tuple(tr), tuple(pr), d2))))
        out.append(("cheb-shape", lambda: mk(ct.ChebyshevRate(tuple(tr), tuple(pr), d[:-1]))))
        out.append(("cheb-shape2", lambda: mk(ct.ChebyshevRate(tuple(tr), tuple(pr), d[:, :-1]))))
    elif isinstance(rate, ct.BlowersMaselRate):
        vals = [rate.pre_exponential_factor, rate.temperature_exponent, rate.activation_energy, rate.bond_energy]
        for i in range(4):
            v = list(vals)
            v[i] = v[i] * f + (0.1 if i == 1 else 0)
            out.append((f"bm-{i}", lambda v=v: mk(ct.BlowersMaselRate(*v))))
    else:
        for w in ABC:
            out.append((f"arr-{w}", lambda w=w: mk(change_arr(rng, rate, w, f, ct.ArrheniusRate))))
        if r.third_body is None or r.third_body.name == "M":
            out.append(("kind", lambda: mk(ct.PlogRate([(1e4, ct.Arrhenius(*abc_of(rate))), (1e6, ct.Arrhenius(*abc_of(rate)))])) if r.third_body is None else
                        mk(tbody=None, eq=r.equation.replace(" + M", ""))))
    t = r.third_body
    if t is not None and t.name == "M":
        e = dict(t.efficiencies)
        miss = [s for s in names if s not in e]
        if miss:
            k = rng.choice(miss)
            out.append(("eff-add", lambda: mk(tbody=ct.ThirdBody("M", efficiencies={**e, k: 2.5}, default_efficiency=t.default_efficiency))))
        if e:
            k = rng.choice(sorted(e))
            out.append(("eff-del", lambda: mk(tbody=ct.ThirdBody("M", efficiencies={a: v for a, v in e.items() if a != k}, default_efficiency=t.default_efficiency))))
            out.append(("eff-val", lambda: mk(tbody=ct.ThirdBody("M", efficiencies={**e, k: e[k] * f}, default_efficiency=t.default_efficiency))))
        out.append(("eff-default", lambda: mk(tbody=ct.ThirdBody("M", efficiencies={**e, "N2" if "N2" in names else names[0]: 1.7}, default_efficiency=0.0))))
    return out


def _chem(rate, on):
    if on:       # assigning False sets the mark as well (Cantera 3.2)
        rate.chemically_activated = True
    return rate


def sp_mutations(rng, s, f):
    out = []

    def th(cls=None, lo=None, hi=None, p=None, co=None):
        t = s.thermo
        n = fresh_species(s)
        n.thermo = (cls or type(t))(lo or t.min_temp, hi or t.max_temp, p or t.reference_pressure, np.array(t.coeffs) if co is None else np.array(co))
        return n
    co = list(s.thermo.coeffs)
    for i in range(1, len(co)):
        if co[i] == 0:
            continue
        c = list(co)
        c[i] = c[i] * f
        out.append((f"nasa-{i}", lambda c=c: th(co=c), i))
    c = list(co)
    c[0] = c[0] + 1400.0
    out.append(("nasa-Tmid", lambda: th(co=c), None))
    out.append(("nasa-Tmax", lambda: th(hi=s.thermo.max_temp * 0.5), None))
    out.append(("nasa-Tmin", lambda: th(lo=s.thermo.min_temp * 1.5), None))
    # different low-temperature polynomials that agree at 500 and 1000 K
    z = np.poly1d([1, -1500.0, 500000.0])
    z2 = z * z
    c2 = list(co)
    for k, v in enumerate((z2 * 4e-13 * max(1.0, abs(f))).coeffs[::-1]):
        c2[8 + k] += v
    out.append(("nasa-between", lambda: th(co=c2), None))
    t = s.transport
    if t is not None:
        for fld in FIELDS:
            v = getattr(t, fld)
            new = ({"atom": "linear", "linear": "nonlinear", "nonlinear": "linear"}[v] if fld == "geometry" else (v * f if v else 1.3 * {"dipole": 1e-30}.get(fld, 1e-30 if fld in ("polarizability",) else 1e-2)))
            out.append((f"tr-{fld}", lambda fld=fld, new=new: set_tr(copy_transport(t, **{fld: new})), None))
        out.append(("tr-none", lambda: set_tr(None), None))

    def set_tr(x):
        n = fresh_species(s, transport=False)
        if x is not None:
            n.transport = x
        return n
    return out


def thermo_differs(s, n):
    """thermo data differ clearly beyond the stated tolerance over a good part of the temperature range"""
    a, c = s.thermo, n.thermo
    if not np.isclose(a.min_temp, c.min_temp) or not np.isclose(a.max_temp, c.max_temp):
        return True
    grid = np.linspace(a.min_temp, a.max_temp, 101)
    far = lambda T: any(not np.isclose(getattr(a, q)(T), getattr(c, q)(T), rtol=1e-4) for q in ("cp", "h", "s"))
    return sum(map(far, grid)) >= 15


def body(b):
    rng = b.rng
    every = ["arr", "arr", "tb", "expl", "lind", "troe3", "troe4", "sri3", "sri5", "ca", "plog", "cheb", "dup", "bm", "tb0"]

    def models():
        while True:
            n = rng.randint(4, 14)
            m = rich_model(rng, n=n, kinds=every[:-2] + ["tb0"])
            rx = m.reactions()
            if rng.random() < 0.3:
                rx.append(ct.Reaction(equation="CO + H2O <=> CO2 + H2", rate=ct.BlowersMaselRate(10 ** rng.uniform(2, 8), 0.5, 5e7, 4e8)))
            if rng.random() < 0.3:
                rx.append(ct.Reaction(equation="CO + HO2 => CO2 + OH", rate=ct.ArrheniusRate(10 ** rng.uniform(-16, -9), 6.5, 1e6)))
            yield rebuild([fresh_species(s) for s in m.species()], rx)
    gen = models()

    bad = set()

    def says(m1, m2, want, tag, **inp):
        if (tag, want) in bad:
            return
        b.case(tag, m1.n_species, m1.n_reactions, want, str(inp)[:300])
        for x, y, o in ((m1, m2, "first-second"), (m2, m1, "second-first")):
            r, e = b.expect(f"comparing models ({tag}, {o})", compare_models, x, y, _inp=dict(change=tag, **inp))
            if e is not None:
                bad.add((tag, want))
            else:
                if tag == "tr-none" and o == "second-first" and r:
                    # m2, compared first, lacks the transport data of one species
                    b.known_finding("transport-missing-in-first", "compare_models accepts a first model in which a species has no transport data although it has some in the second")
                    continue
                if r != want:
                    bad.add((tag, want))
                b.check(r is want or r == want, "models that differ compare as equal" if not want else "identical models compare as different", change=tag, order=o, **inp)

    b.section("identical")
    for k in range(b.n(12, 60)):
        m = next(gen) if k % 3 else random_model(rng)
        says(m, m, True, "itself")
        says(m, rebuild([fresh_species(s) for s in m.species()], m.reactions()) if False else ct.Solution(thermo="ideal-gas", kinetics="bulk", species=m.species(), reactions=m.reactions(), transport_model="mixture-averaged"), True, "copy")
        m.write_yaml("copy.yaml")
        c1, c2 = ct.Solution("copy.yaml"), ct.Solution("copy.yaml")
        says(c1, c2, True, "loaded twice")
    big = gri()[0]
    says(big, ct.Solution("gri30.yaml"), True, "GRI")
    big2 = ct.Solution("nasa_gas.yaml") if False else None

    b.section("reactions")
    seen = {}
    for k in range(b.n(40, 300)):
        if not b.time_left(0.6):
            break
        m = next(gen)
        rx = m.reactions()
        idx = list(range(len(rx)))
        rng.shuffle(idx)
        idx = [0, len(rx) - 1] + idx[:6]
        for i in idx:
            r = rx[i]
            f = rng.choice([1.001, 1.5, 3.0, 0.2])
            muts = rx_mutations(rng, r, m.species_names, f)
            muts = rng.sample(muts, min(len(muts), 5 if not THOROUGH else 12))
            for tag, fn in muts:
                try:
                    n = fn()
                    if n.duplicate == r.duplicate and n.equation == r.equation and n.reaction_type == r.reaction_type and same(rate_data(n.rate), rate_data(r.rate), 1e-4) and tag.startswith(("falloff-", "plog", "cheb")):
                        continue
                    rx2 = list(rx)
                    rx2[i] = n
                    m2 = rebuild(m.species(), rx2)
                except ct.CanteraError:
                    continue
                seen[tag] = seen.get(tag, 0) + 1
                says(m, m2, False, tag, position=i, of=len(rx), reaction=r.equation, old=r.input_data, new=n.input_data)
        # structure
        if len(rx) > 2:
            i = rng.randrange(len(rx))
            says(m, rebuild(m.species(), rx[:i] + rx[i + 1:]), False, "reaction missing", position=i)
            j = rng.randrange(len(rx))
            if rx[i].equation != rx[j].equation:
                try:
                    r2 = rx[:]
                    d = m.reactions()[j]
                    d.duplicate = rx[i].duplicate
                    r2[i] = d
                    says(m, rebuild(m.species(), r2), False, "reaction replaced", position=i)
                except ct.CanteraError:
                    pass
    b.sections["kinds of change " + str(len(seen))] = sum(seen.values())

    b.section("species")
    for k in range(b.n(25, 200)):
        if not b.time_left(0.95):
            break
        m = next(gen)
        sp = m.species()
        for i in [0, len(sp) - 1] + [rng.randrange(len(sp)) for _ in range(3)]:
            s = sp[i]
            f = rng.choice([1.01, 1.5, 3.0, 0.2])
            muts = sp_mutations(rng, s, f)
            for tag, fn, co in rng.sample(muts, 6 if not THOROUGH else 14) + muts[-1:]:
                n = fn()
                sp2 = list(sp)
                sp2[i] = n
                try:
                    # the change may leave the model without transport
                    m2 = rebuild(sp2, m.reactions(), transport=None if tag.startswith("tr-") else "mixture-averaged")
                except ct.CanteraError:
                    continue
                if tag.startswith("nasa") and not thermo_differs(s, n):
                    continue
                says(m, m2, False, tag, position=i, species=s.name, coeffs=list(s.thermo.coeffs), new=list(n.thermo.coeffs))
        i = rng.randrange(len(sp))
        says(m, rebuild(sp[:i] + [ct.Species("ZZ", dict(sp[i].composition))][:0] + sp[i:] + [named(sp[i], "ZZTOP")], m.reactions()), False, "species added", position=i)
        free = [j for j, s in enumerate(sp) if not any(s.name in rx_species(r) or (r.third_body is not None and (s.name in r.third_body.efficiencies or r.third_body.name == s.name)) for r in m.reactions())]
        for j in free[:2]:
            sp2 = list(sp)
            sp2[j] = named(sp[j], "Q" + sp[j].name)
            says(m, rebuild(sp2, m.reactions()), False, "species renamed", position=j)
            sp2 = list(sp)
            n = ct.Species(sp[j].name, {**sp[j].composition, "H": sp[j].composition.get("H", 0) + 1})
            n.thermo = fresh_species(sp[j]).thermo
            n.transport = copy_transport(sp[j].transport)
            sp2[j] = n
            says(m, rebuild(sp2, m.reactions(), transport=None), False, "composition", position=j)


def named(s, name):
    n = ct.Species(name, dict(s.composition), s.charge, 1.0)
    n.thermo = fresh_species(s).thermo
    n.transport = copy_transport(s.transport)
    return n


if __name__ == "__main__":
    main("C23", body)
