from world import *


def artificial(rng):
    """a model with inert species, reactions of zero rate and species on both sides"""
    names = ["A", "B", "C", "D", "E", "F"]
    y = ["phases:", "- name: gas", "  thermo: ideal-gas", "  elements: [H]", "  species: [" + ", ".join(names) + "]",
         "  kinetics: gas", "  state: {T: 1000.0, P: 1 atm}", "species:"]
    for i, s in enumerate(names):
        y += [f"- name: {s}", "  composition: {H: 1}", "  thermo:", "    model: constant-cp", f"    h0: {rng.randint(-20, 20) * 1000}", f"    s0: {rng.randint(50, 200)}",
              f"    cp0: {rng.randint(20, 40)}"]
    y.append("reactions:")
    scales = rng.choice([[0], [0], [-32], [-40], [0, -35], [0, -12], [25, 0]])
    inert = rng.sample(names, rng.choice([0, 1, 2]))
    act = [s for s in names if s not in inert]
    seen = set()
    for _ in range(rng.randint(4, 11)):
        k = rng.choice([1, 2])
        l, r = [rng.choice(act) for _ in range(k)], [rng.choice(act) for _ in range(k)]
        key = frozenset((tuple(sorted(l)), tuple(sorted(r))))
        if sorted(l) == sorted(r) or key in seen:
            continue
        seen.add(key)
        arrow = rng.choice(["<=>", "=>"])
        A = rng.choice([0.0, 1.0, 1e3, 5.0, 1e-3]) * 10.0 ** rng.choice(scales)
        y += [f"- equation: {' + '.join(l)} {arrow} {' + '.join(r)}", f"  rate-constant: {{A: {A}, b: 0, Ea: 0}}"]
    return "\n".join(y)


def run(b, method, fn):
    import itertools

    def one(sol, tag, T, P, Y):
        b.case(tag, T, P, tuple(Y))
        ref = ct.Solution(yaml=tag) if tag.startswith("phases") else ct.Solution(tag)
        ref.TPY = T, P, Y
        want = naive_matrix(method, ref)
        # start from an unrelated state: the given one must be used
        sol.TPY = 300.0, 1e5, [1.0] + [0.0] * (sol.n_species - 1)
        Y0 = Y.copy()
        with np.errstate(all="ignore"):
            got, e = b.expect(f"{method} matrix", fn, (T, P, Y), sol, _inp=dict(model=tag, T=T, P=P, Y=list(Y)))
        if e is not None:
            return
        inp = dict(model=tag, T=T, P=P, Y=list(Y))
        got = np.asarray(got)
        if not b.check(got.shape == want.shape, "shape of the matrix", got=got.shape, **inp):
            return
        b.check((np.diag(got) == 0).all(), "diagonal is zero", **inp)
        ok = np.isfinite(got).all() and np.allclose(got, want, rtol=1e-7, atol=1e-13 if method == "DRGEP" else 1e-60)
        if not ok:
            i, j = map(int, np.unravel_index(np.argmax(np.where(np.isfinite(got), np.abs(got - want), np.inf)), got.shape))
            b.violation("coefficient differs from the formula", species=(sol.species_names[i], sol.species_names[j]),
                        got=float(got[i, j]), expected=float(want[i, j]), **inp)
        b.check((Y == Y0).all(), "mass fractions modified", **inp)
        b.check(close(sol.T, T) and close(sol.P, P, 1e-6) and np.allclose(sol.Y, ref.Y, atol=1e-12), "state used", **inp)

    b.section("parts of GRI-Mech")
    for k in range(b.n(14, 120)):
        if not b.time_left(0.7):
            break
        fname = f"m{k}.yaml"
        sol = random_model(b.rng, b.rng.randint(6, 14), fname)
        for z in (0.0, 0.3, 0.8):
            T, P, Y = random_state(b.rng, sol, zeros=z)
            one(sol, fname, T, P, Y)
    b.section("artificial models")
    for k in range(b.n(60, 600)):
        if not b.time_left():
            break
        text = artificial(b.rng)
        try:
            sol = ct.Solution(yaml=text)
        except Exception:
            continue
        if sol.n_reactions == 0:
            continue
        for z in (0.0, 0.5):
            T, P, Y = random_state(b.rng, sol, zeros=z)
            one(sol, text, T, P, Y)
    # no reaction proceeds: a mixture of one inert species
    b.section("no reaction proceeds")
    sol = submodel(["H2", "O2", "H", "OH", "AR", "O", "H2O"])
    sol.write_yaml("inert.yaml")
    sol = ct.Solution("inert.yaml")
    Y = np.zeros(sol.n_species)
    Y[sol.species_index("AR")] = 1
    one(sol, "inert.yaml", 300.0, 1e5, Y)
