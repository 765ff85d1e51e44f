from world import *
import scipy.optimize


class FakeGas:
    """a reactor with one species whose response curve ln(tau) = curve(theta) is known"""
    n_species = 1

    def __init__(self, rng):
        self.rng = rng
        a, c = rng.uniform(3, 40), rng.uniform(-2, 6)
        self.thm = rng.uniform(0.9, 1.8)
        self.b = np.log(10 ** rng.uniform(-6, -0.7))
        self.fold = True
        self.f = lambda x: self.b + a * x * x + (c * x ** 3 if x > 0 else 0)
        self.df = lambda x: 2 * a * x + (3 * c * x * x if x > 0 else 0)
        self.P, self.T = 101325.0, 300.0
        self.Y = np.array([0.5])
        self.enthalpy_mass, self.cp_mass = -1.0, 1000.0
        self.molecular_weights = np.array([2.0])

    def monotone(self):
        s = self.rng.uniform(2, 8)
        self.f = lambda x: s * (x - 1)
        self.df = lambda x: s
        self.fold = False

    def equilibrate(self, how, *a, **k):
        lo, hi = 0.0, 6.0
        for _ in range(200):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if self.f(mid) < 0 else (lo, mid)
        self.T = (self.thm + lo) * 1000 + self.rng.uniform(0, 5)
        self.Y = np.array([self.y(self.T)])

    def y(self, T):
        return 0.2 + 0.3 * np.tanh(T / 1500)

    def res(self, Y, T, tau):
        if T <= 0 or not np.all(np.isfinite(Y)):
            return np.full(2, 1e3)
        return np.array([Y[0] - self.y(T), np.log(tau) - self.f(T / 1000 - self.thm)])

    def jac(self, Y, T, tau):
        e = 1e-3
        return np.array([[1.0, -(self.y(T + e) - self.y(T - e)) / (2 * e), 0.0], [0.0, -self.df(T / 1000 - self.thm) / 1000, 1 / tau]])


def body(b):
    rng = b.rng

    def verify(r, stop, residual, inp):
        """the points of a returned curve"""
        br, pts = np.asarray(r["branch"]), r["points"]
        tau = br[:, 0]
        if not b.check(br.ndim == 2 and br.shape[1] == 2 and set(pts) == {"extinction", "near_0.1s", "log_mid"}, "form of the result", **inp):
            return None
        turn = next((i for i in range(1, len(tau)) if tau[i] > tau[i - 1]), None)
        if not b.check(turn is not None, "a curve that never turns was returned", tau=list(tau), **inp):
            return None
        if stop:
            b.check(turn == len(tau) - 1, "curve continues beyond the turn", turn=turn, length=len(tau), **inp)
        before = tau[:turn + 1]
        ie = int(np.argmin(before))
        up = tau[:ie + 1]
        near = lambda x: {i for i in range(len(up)) if abs(up[i] - x) <= np.min(np.abs(up - x)) * (1 + 1e-9) + 1e-300}
        i1 = near(0.1)
        mids = set().union(*(near(np.sqrt(tau[ie] * tau[i])) for i in i1))
        for key, allowed in (("extinction", {ie}), ("near_0.1s", i1), ("log_mid", mids)):
            t, T, Y = pts[key]
            ok = any(t == br[i, 0] and T == br[i, 1] for i in allowed)
            b.check(ok, f"wrong {key} point", got=(t, T), allowed=[list(br[i]) for i in allowed], tau=list(tau[:turn + 1]), **inp)
            f = residual(np.asarray(Y), T, t)
            b.check(np.linalg.norm(f) < 1e-5, f"residence time, temperature and composition of the {key} point do not satisfy the steady equations", residual=list(f), point=(t, T), **inp)
        return br

    def recorder(log):
        real = scipy.optimize.root

        def root(fun, x0, *a, **k):
            s = real(fun, x0, *a, **k)
            log.append(np.array(s.x))
            return s
        real_n = psr_solver._damped_newton

        def newton(residual, x0, *a, **k):
            x, ok = real_n(residual, x0, *a, **k)
            log.append(np.array(x))
            return x, ok
        return (real, root), (real_n, newton)

    def branch_states(br, log, n, residual, tau_seeds, inp):
        """every branch point is a recorded solution, and it satisfies the equations"""
        if not log:
            return
        known = {}
        seeds = iter(tau_seeds)
        for x in log:
            if len(x) == n + 2:
                known.setdefault((float(np.exp(x[n + 1])), float(x[n] * psr_solver.TREF)), x[:n])
        for i, (t, T) in enumerate(br):
            if i < 2:
                continue
            Y = known.get((float(t), float(T)))
            if Y is None:
                Y = next((v for k, v in known.items() if close(k[0], t, 1e-9) and close(k[1], T, 1e-9)), None)
            if Y is None:
                continue
            f = residual(Y, T, t)
            if not b.check(np.linalg.norm(f) < 1e-5, "a point of the curve does not satisfy the steady equations", index=i, point=(t, T), residual=list(f), **inp):
                return

    def guarded(fn, **kw):
        try:
            return fn(**kw), None
        except RuntimeError as e:
            return None, e

    b.section("scripted reactors")
    has = hasattr(psr_solver, "_core_residual") and hasattr(psr_solver, "_core_jacobian")
    for k in range(b.n(250, 2500) if has else 0):
        if not b.time_left(0.45):
            break
        g = FakeGas(rng)
        if rng.random() < 0.15:
            g.monotone()
        kw = {}
        if rng.random() < 0.4:
            kw["ds_max"] = rng.choice([0.05, 0.2, 0.4, 0.8])
        if rng.random() < 0.3:
            kw["ds0"] = rng.choice([0.01, 0.1, 0.3])
        if rng.random() < 0.2:
            kw["tau_start"], kw["tau_second"] = rng.choice([(0.9, 0.6), (0.5, 0.4), (2.0, 1.0)])
        stop = rng.random() < 0.7
        if not stop:
            kw["max_steps"] = 120
        if not g.fold:
            kw["max_steps"] = 40
        short = rng.random() < 0.1
        if short:
            kw["max_steps"] = 2
        f0 = np.exp(g.f(0.0)) if g.fold else 0.0
        inp = dict(kw=kw, stop=stop, fold=f0, fold_T=g.thm * 1000)
        b.case(inp)
        spec = lambda gas, Y, T, tau, P, Y_in, h_in, h_scale, W: g.res(Y, T, tau)
        specj = lambda gas, Y, T, tau, P, h_scale, W: g.jac(Y, T, tau)
        log = []
        (r0, r1), (n0, n1) = recorder(log)
        with replaced_everywhere(psr_solver._core_residual, spec), replaced_everywhere(psr_solver._core_jacobian, specj), replaced_everywhere(r0, r1), replaced_everywhere(n0, n1):
            try:
                r, e = guarded(lambda **q: psr_solver.trace_extinction_curve(g, stop_at_extinction=stop, **q), **kw)
            except Exception as e:
                b.violation(f"unexpected {type(e).__name__}: {e}", trace=traceback.format_exc()[-800:], **inp)
                continue
        if e is not None:
            continue
        if not b.check(g.fold, "a curve that never turns was returned", branch=np.asarray(r["branch"]).tolist()[:60], **inp):
            continue
        b.sections["scripted curves returned"] = b.sections.get("scripted curves returned", 0) + 1
        br = verify(r, stop, g.res, inp)
        if br is not None:
            branch_states(br, log, 1, g.res, (), inp)
            if f0 < 0.2:
                e = r["points"]["extinction"]
                b.check(e[0] >= f0 * (1 - 1e-6), "extinction below the turning point", got=e[:2], **inp)

    b.section("hydrogen and methane reactors")
    sets = (["H2", "O2", "H", "O", "OH", "H2O", "N2"], CORE, CORE + ["CO", "CO2", "HCO", "CH2O", "CH4", "CH3", "CH3O", "CH2OH", "CH2", "CH2(S)"])
    for k in range(b.n(24, 150)):
        if not b.time_left(0.9):
            break
        names = sets[k % 3]
        gas = submodel(names)
        fuel = "CH4" if "CH4" in names else "H2"
        T0, P = rng.choice([300.0, 400.0, 600.0, 900.0]), rng.choice([0.5, 1.0, 5.0, 20.0]) * ct.one_atm
        gas.set_equivalence_ratio(rng.choice([0.6, 1.0, 1.5]), fuel, "O2:1.0, N2:3.76")
        gas.TP = T0, P
        inlet = gas.T, gas.P, gas.Y.copy(), gas.enthalpy_mass, gas.cp_mass * psr_solver.TREF
        ref = ct.Solution(thermo="ideal-gas", kinetics="bulk", species=gas.species(), reactions=gas.reactions())

        def residual(Y, T, tau):
            ref.set_unnormalized_mass_fractions(Y)
            ref.TP = T, inlet[1]
            return np.concatenate([(Y - inlet[2]) - tau * ref.net_production_rates * ref.molecular_weights / ref.density, [(ref.enthalpy_mass - inlet[3]) / inlet[4]]])
        stop = rng.random() < 0.6
        kw = dict(max_steps=rng.choice([400, 800])) if not stop else {}
        inp = dict(fuel=fuel, T0=T0, P=P, species=len(names), stop=stop, kw=kw, Y_in=list(inlet[2]))
        b.case(inp)
        log = []
        (r0, r1), (n0, n1) = recorder(log)
        with replaced_everywhere(r0, r1), replaced_everywhere(n0, n1):
            try:
                r, e = guarded(lambda **q: psr_solver.trace_extinction_curve(gas, stop_at_extinction=stop, **q), **kw)
            except Exception as e:
                b.violation(f"unexpected {type(e).__name__}: {e}", trace=traceback.format_exc()[-800:], **inp)
                continue
        if e is not None:
            continue
        b.sections["curves returned"] = b.sections.get("curves returned", 0) + 1
        br = verify(r, stop, residual, inp)
        if br is None:
            continue
        b.check(np.array_equal(br[:2, 0], [1.0, 0.5]), "seed points", got=br[:2], **inp)
        branch_states(br, log, len(names), residual, (), inp)

    b.section("curves that do not turn")
    for k in range(b.n(10, 60)):
        gas = submodel(sets[0])
        gas.set_equivalence_ratio(1.0, "H2", "O2:1.0, N2:3.76")
        gas.TP = 400.0, ct.one_atm
        kw = rng.choice([dict(max_steps=rng.randint(0, 12)), dict(ds_max=1e-3, ds0=1e-3, max_steps=60), dict(max_steps=3, stop_at_extinction=False)])
        b.case(k, kw)
        try:
            r, e = guarded(lambda **q: psr_solver.trace_extinction_curve(gas, **q), **kw)
        except Exception as e:
            b.violation(f"unexpected {type(e).__name__}: {e}", kw=kw)
            continue
        b.check(e is not None, "a curve that never turned was returned", kw=kw, result=str(r)[:500])


if __name__ == "__main__":
    main("C20", body)
