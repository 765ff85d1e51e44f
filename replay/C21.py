from world import *


def reference(gas, Y, T, tau, P, Y_in, h_in, h_scale, W):
    gas.TP = 1234.5, 3e4
    gas.set_unnormalized_mass_fractions(Y)
    gas.TP = T, P
    return np.concatenate([(Y - Y_in) - tau * gas.net_production_rates * W / gas.density, [(gas.enthalpy_mass - h_in) / h_scale]])


def models(rng, k):
    m = k % 4
    if m == 0:
        return submodel(rng.choice([["H2", "O2", "H", "O", "OH", "H2O", "N2"], CORE, ["H2", "O2", "H", "O", "OH", "HO2", "AR"]]))
    if m == 1:
        return submodel(CORE + rng.sample(MORE, 6))
    return rich_model(rng, n=rng.randint(3, 16))


def setting(rng, gas):
    n = gas.n_species
    T, P, y = random_state(rng, gas, rng.choice([0, 0, 0.3]))
    if rng.random() < 0.3:                       # trial states of the solver need not be normalised
        y = y * rng.uniform(0.7, 1.4)
    if rng.random() < 0.2:
        y[rng.randrange(n)] = -1e-4 * rng.random()
    if abs(T - 1000) < 10:
        T = 1080.0
    tau = 10 ** rng.uniform(-6, 0.5)
    yin = np.array([rng.random() for _ in range(n)])
    yin /= yin.sum()
    return T, P, y, tau, yin, rng.uniform(-5e6, 5e6), 10 ** rng.uniform(5, 7), gas.molecular_weights.copy()


def body(b):
    rng = b.rng
    res, jac = psr_solver._core_residual, psr_solver._core_jacobian
    b.section("residual")
    for k in range(b.n(60, 600)):
        if not b.time_left(0.35):
            break
        gas = models(rng, k)
        ref = ct.Solution(thermo="ideal-gas", kinetics="bulk", species=gas.species(), reactions=gas.reactions())
        for j in range(6):
            T, P, y, tau, yin, hin, hs, W = setting(rng, gas)
            gas.TPY = rng.uniform(300, 2500), rng.uniform(1e4, 1e7), np.full(gas.n_species, 1 / gas.n_species)
            inp = dict(T=T, P=P, Y=list(y), tau=tau, Y_in=list(yin), h_in=hin, h_scale=hs, species=gas.species_names, reactions=[r.equation for r in gas.reactions()][:20])
            b.case(T, P, list(y), tau)
            keep = y.copy(), yin.copy(), W.copy()
            got, e = b.expect("residual", res, gas, y, T, tau, P, yin, hin, hs, W, _inp=inp)
            if e is not None:
                continue
            want = reference(ref, y, T, tau, P, yin, hin, hs, W)
            scale = 1 + np.abs(want)
            b.check(np.shape(got) == np.shape(want) and np.all(np.abs(got - want) <= 1e-8 * scale), "residual is not that of the steady reactor equations", got=list(np.ravel(got)), want=list(want), **inp)
            b.check(all(np.array_equal(p, q) for p, q in zip(keep, (y, yin, W))), "arguments modified", **inp)

    b.section("unphysical states")
    for k in range(b.n(60, 300)):
        gas = models(rng, k % 2)
        T, P, y, tau, yin, hin, hs, W = setting(rng, gas)
        how = rng.choice(["T0", "Tneg", "nan", "inf", "error", "-inf", "error2", "error3"])
        g = gas
        if how == "T0":
            T = 0.0
        elif how == "Tneg":
            T = -rng.choice([1e-3, 1.0, 300.0, 1e5])
        elif how in ("nan", "inf", "-inf"):
            y[rng.choice([0, gas.n_species - 1, rng.randrange(gas.n_species)])] = float(how)
        else:
            g = Failing(gas, {"error": "net_production_rates", "error2": "set_unnormalized_mass_fractions", "error3": "TP"}[how])
        inp = dict(how=how, T=T, Y=list(y), tau=tau)
        b.case(how, T, k)
        got, e = b.expect("residual of an unphysical state or failed evaluation", res, g, y, T, tau, P, yin, hin, hs, W, _inp=inp)
        if e is None:
            b.check(np.shape(got) == (gas.n_species + 1,) and np.all(np.isfinite(got)) and np.linalg.norm(got) >= 100, "residual of an unphysical state is not large and finite", got=list(np.ravel(got)), **inp)

    b.section("Jacobian")
    for k in range(b.n(60, 600)):
        if not b.time_left(0.95):
            break
        gas = models(rng, k)
        n = gas.n_species
        ref = ct.Solution(thermo="ideal-gas", kinetics="bulk", species=gas.species(), reactions=gas.reactions())
        T, P, y, tau, yin, hin, hs, W = setting(rng, gas)
        y = np.abs(y) + 1e-3
        y /= y.sum()
        if rng.random() < 0.3:
            y *= rng.uniform(0.8, 1.2)
        gas.TPY = 444.0, 2e5, np.full(n, 1 / n)
        inp = dict(T=T, P=P, Y=list(y), tau=tau, h_scale=hs, species=gas.species_names, reactions=[r.equation for r in gas.reactions()][:20])
        b.case(T, P, list(y), tau)
        J, e = b.expect("Jacobian", jac, gas, y.copy(), T, tau, P, hs, W, _inp=inp)
        if e is not None:
            continue
        if not b.check(np.shape(J) == (n + 1, n + 2), "shape of the Jacobian", got=np.shape(J), **inp):
            continue
        R = lambda y_, T_, t_: reference(ref, y_, T_, t_, P, yin, 0.0, hs, W)

        def d(f, x, st):
            a = [(8 * (f(x + q) - f(x - q)) - (f(x + 2 * q) - f(x - 2 * q))) / (12 * q) for q in (st, st / 2)]
            return a[1], np.abs(a[0] - a[1])
        F, E = np.zeros((n + 1, n + 2)), np.zeros((n + 1, n + 2))
        for c in range(n):
            def f(x, c=c):
                z = y.copy()
                z[c] = x
                return R(z, T, tau)
            F[:, c], E[:, c] = d(f, y[c], 1e-4 * max(y[c], 1e-2))
        F[:, n], E[:, n] = d(lambda x: R(y, x, tau), T, 0.05)
        F[:, n + 1], E[:, n + 1] = d(lambda x: R(y, T, x), tau, tau * 1e-2)
        noise = 1e-9 * np.abs(F).max(axis=1)[:, None]
        bad = np.abs(J - F) > 2e-5 * np.abs(F) + 30 * E + noise
        if bad.any():
            i, j = map(int, np.argwhere(bad)[0])
            b.violation("Jacobian is not the derivative of the residual", row=i, column=j, got=J[i, j], want=F[i, j], estimate=E[i, j], **inp)


class Failing:
    """a gas whose evaluation fails with a Cantera error"""

    def __init__(self, gas, where):
        object.__setattr__(self, "_g", gas)
        object.__setattr__(self, "_w", where)

    def __getattr__(self, a):
        if a == self._w:
            if a == "net_production_rates":
                raise ct.CanteraError("evaluation failed")

            def f(*x):
                raise ct.CanteraError("evaluation failed")
            return f
        return getattr(self._g, a)

    def __setattr__(self, a, v):
        if a == self._w or (self._w == "TP" and a in ("TPY", "TD", "TP")):
            raise ct.CanteraError("evaluation failed")
        setattr(self._g, a, v)


if __name__ == "__main__":
    main("C21", body)
