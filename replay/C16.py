from world import *
import h5py
from pymars.sampling import InputIgnition


class Script:
    """the integration that the fake reactor network performs"""

    def __init__(self, rng, T0, n, P0, names):
        self.rng = rng
        self.t, self.T, self.P, self.Y, self.x = [0.0], [T0], [P0], [None], [np.ones(4)]
        self.fail = None


class FakePhase:
    def __init__(self, net):
        self.net = net

    P = property(lambda s: s.net.cur("P"))
    T = property(lambda s: s.net.cur("T"))
    Y = property(lambda s: s.net.cur("Y").copy())


def fakes(script):
    class Reac:
        def __init__(self, gas=None, *a, **k):
            self.gas = gas
            self.net = None
            self.i = 0
            script.reactors.append(type(self).__name__)
            if script.Y[0] is None:
                script.Y[0] = gas.Y.copy()

        def cur(self, what):
            return getattr(script, what)[script.i]
        T = property(lambda s: script.T[script.i])
        Y = property(lambda s: script.buf())          # the same memory at every step, as in a careless implementation
        phase = property(lambda s: FakePhase(s))
        thermo = property(lambda s: FakePhase(s))
        mass = property(lambda s: 1.0)

    class CV(Reac):
        pass

    class CP(Reac):
        pass

    class Net:
        def __init__(self, reacs, *a, **k):
            self.preconditioner = None
            self.rtol, self.atol = 1e-9, 1e-15
            script.i = 0
        time = property(lambda s: script.t[script.i])
        n_vars = property(lambda s: len(script.x[0]))

        def step(self):
            script.steps += 1
            if script.fail is not None and script.i + 1 >= script.fail:
                raise ct.CanteraError("integration failed")
            script.extend(script.i + 1)
            script.i += 1
            return script.t[script.i]

        def reinitialize(self):
            pass
        initialize = reinitialize

        def get_state(self):
            return script.x[script.i].copy()
    return CV, CP, Net


def make_script(rng, gas, T0, P0, shape, n):
    s = Script(rng, T0, n, P0, None)
    s.reactors, s.steps, s.i = [], 0, 0
    ny = gas.n_species
    mem = np.zeros(ny)

    def buf():
        mem[:] = s.Y[s.i]
        return mem
    s.buf = buf
    jump = rng.randint(1, n)
    top = rng.choice([400.0, 400.0 + 1e-9, 401.0, 1500.0, 399.999, 399.0, 0.0, 800.0])
    mono = rng.random() < 0.7

    def extend(k):
        while len(s.t) <= k:
            i = len(s.t)
            s.t.append(s.t[-1] + rng.choice([1e-6, 1e-4, 3e-4, 2e-3]))
            if i < jump:
                T = T0 + (min(380.0, top - 1) * i / jump if top > 1 else 0)
                if not mono and rng.random() < 0.3:
                    T = max(T0 - 20, T - 50)
            elif i == jump:
                T = T0 + top
            else:
                T = s.T[-1] + rng.choice([0, 0, 5.0, 50.0]) if mono else T0 + top + rng.uniform(-300, 300)
            s.T.append(T)
            s.P.append(P0 * (1 + 0.01 * i))
            y = np.array([rng.random() for _ in range(ny)])
            s.Y.append(y / y.sum())
            settle = i > s.settle
            s.x.append(s.x[-1] * (1 + (1e-12 if settle else 0.05)) if rng.random() < 0.9 or settle else s.x[-1] * 1.3)
    s.extend = extend
    s.settle = rng.choice([jump + 2, jump, n, 10 ** 9, 3, jump + 10])
    if rng.random() < 0.2:
        s.fail = rng.randint(1, n)
    return s


def oracle(s, end, max_steps):
    """(delay or None, history length or None if the original model must fail, delay of a candidate)"""
    T0 = s.T[0]

    def first(limit):
        for i in range(1, limit + 1):
            s.extend(i)
            if s.T[i] >= T0 + 400.0:
                return i
        return None
    # number of steps of a full run
    k = 0
    failed = False
    if end:
        while s.t[k] < end:
            if s.fail is not None and k + 1 >= s.fail:
                failed = True
                break
            s.extend(k + 1)
            k += 1
    else:
        mx = s.x[0].copy()
        done = False
        for _ in range(max_steps):
            if s.fail is not None and k + 1 >= s.fail:
                failed = True
                break
            s.extend(k + 1)
            k += 1
            mx = np.maximum(mx, s.x[k])
            r = np.linalg.norm((s.x[k] - s.x[k - 1]) / (mx + 1e-15)) / np.sqrt(len(s.x[k]))
            if r < 10 * 1e-9:
                done = True
                break
        if not done:
            failed = True
    ig = first(k)
    orig = None if failed or ig is None else s.t[ig]
    # a candidate: stops at ignition
    limit = 0
    if end:
        while True:
            s.extend(limit)
            if not s.t[limit] < end:
                break
            limit += 1
            s.extend(limit)
    else:
        limit = max_steps
    if s.fail is not None:
        limit = min(limit, s.fail - 1)
    ig2 = first(limit)
    return orig, k, (s.t[ig2] if ig2 is not None else 0.0)


def body(b):
    rng = b.rng
    sol = submodel(["H2", "O2", "H", "O", "OH", "H2O", "HO2", "H2O2", "N2", "AR"])
    sol.write_yaml("h2.yaml")
    gas = ct.Solution("h2.yaml")
    b.section("scripted integrations")
    base = os.getcwd()
    for k in range(b.n(260, 3000)):
        if not b.time_left(0.6):
            break
        with scratch():
            T0 = rng.choice([1000.0, 900.5, 1234.5])
            n = rng.choice([5, 12, 40])
            kind = rng.choice(["constant volume", "constant pressure"])
            end = rng.choice([0.0, 0.0, 1e-3, 1e-2, 1e-4])
            ms = rng.choice([0, 4, 10, 30, 60])
            path = rng.choice(["", "out"])
            if path:
                os.mkdir(path)
            case = InputIgnition(kind, T0, 2.0, end_time=end, max_steps=ms, reactants={"H2": 2.0, "O2": 1.0})
            s = make_script(rng, gas, T0, 2.0 * ct.one_atm, None, n)
            if not ms and not end and s.settle > 1000:
                s.settle = 30
            CV, CP, Net = fakes(s)
            model = os.path.join(base, "h2.yaml")
            idx = rng.choice([0, 3, 12])
            inp = dict(T0=T0, end_time=end, max_steps=ms, kind=kind, fail=s.fail)
            pat = [(ct, "ReactorNet", Net)] + [(ct, c, CP if "ConstPressure" in c else CV) for c in ("IdealGasMoleReactor", "IdealGasReactor", "Reactor", "MoleReactor", "IdealGasConstPressureMoleReactor",
                   "IdealGasConstPressureReactor", "ConstPressureReactor", "ConstPressureMoleReactor")]
            with patched(*pat):
                want, length, cand = oracle(s, end, ms or 10000)
                b.case(inp, s.settle, s.T[:8], s.t[:8])
                inp.update(temperatures=s.T[: length + 2][:60], times=s.t[: length + 2][:60])
                # original model
                s.i = s.steps = 0
                s.reactors.clear()
                sim = simulation.IgnitionSimulation(idx, case, model, path=path)
                got = exc = None
                try:
                    sim.setup_case()
                    got = sim.run_case()
                except RuntimeError as e:
                    exc = e
                except Exception as e:
                    b.violation(f"unexpected {type(e).__name__}: {e}", trace=traceback.format_exc()[-1200:], **inp)
                    continue
                b.check(set(s.reactors) <= {"CP" if kind == "constant pressure" else "CV"} and s.reactors, "kind of reactor", got=s.reactors, **inp)
                if want is None:
                    b.check(exc is not None, "no ignition, failed or unfinished integration of the original model was accepted", got=got, **inp)
                else:
                    if b.check(exc is None, "integration of the original model was rejected", error=repr(exc), **inp):
                        b.check(got == want, "ignition delay", got=got, expected=want, **inp)
                        f = os.path.join(path, f"{idx}.h5")
                        if b.check(os.path.isfile(f), "no history recorded", files=os.listdir("."), **inp):
                            with h5py.File(f, "r") as h5:
                                g = h5["simulation"]
                                t, T, P, Y = (g[x][:] for x in ("time", "temperature", "pressure", "mass_fractions"))
                            ok = len(t) == length + 1 and list(t) == s.t[: length + 1] and list(T) == s.T[: length + 1] and list(P) == s.P[: length + 1] \
                                and Y.shape == (length + 1, gas.n_species) and np.array_equal(Y, np.array(s.Y[: length + 1]))
                            b.check(ok, "recorded history", got=(len(t), list(T)[:20]), expected=(length + 1, s.T[:20]), **inp)
                            pr, e = b.expect("process_results", sim.process_results, _inp=inp)
                            if e is None:
                                b.check(pr[0] == want, "ignition delay after sampling", got=pr[0], expected=want, **inp)
                            pr2, e = b.expect("process_results", sim.process_results, skip_data=True, _inp=inp)
                            if e is None:
                                b.check(pr2 == want, "ignition delay without sampling", got=pr2, expected=want, **inp)
                            sim.clean()
                            b.check(not os.path.exists(f), "history file not cleaned", **inp)
                # candidate
                s.i = s.steps = 0
                sim = simulation.IgnitionSimulation(idx, case, model, path=path)

                def candidate():
                    sim.setup_case()
                    return sim.calculate()
                got, e = b.expect("evaluation of a candidate", candidate, _inp=inp)
                if e is None:
                    b.check(got == cand, "ignition delay of a candidate", got=got, expected=cand, **inp)
                    if want is not None:
                        b.check(got == want, "sampling and metric-only evaluation differ", got=got, expected=want, **inp)
    b.section("real integrations")
    for k in range(b.n(7, 40)):
        if not b.time_left():
            break
        with scratch():
            kind = rng.choice(["constant volume", "constant pressure"])
            T0 = rng.choice([1000.0, 1100.0, 1300.0, 600.0])
            P = rng.choice([1.0, 10.0])
            mix = rng.choice([dict(reactants={"H2": 2.0, "O2": 1.0, "N2": 3.76}), dict(equivalence_ratio=1.0, fuel={"H2": 1.0}, oxidizer={"O2": 1.0, "N2": 3.76}),
                              dict(reactants={"H2": 0.03, "O2": 0.25, "N2": 0.72}, composition_type="mass")])
            end = rng.choice([0.0, 0.0, 0.05])
            case = InputIgnition(kind, T0, P, end_time=end, **mix)
            b.case(kind, T0, P, mix, end)
            model = os.path.join(base, "h2.yaml")
            inp = dict(case=case)
            # reference, started from the documented state
            g = ct.Solution(model)
            g.TP = T0, P * ct.one_atm
            if "fuel" in mix:
                g.set_equivalence_ratio(1.0, mix["fuel"], mix["oxidizer"])
            elif mix.get("composition_type") == "mass":
                g.TPY = T0, P * ct.one_atm, mix["reactants"]
            else:
                g.TPX = T0, P * ct.one_atm, mix["reactants"]
            Y0 = g.Y.copy()
            r = (ct.IdealGasConstPressureReactor if kind == "constant pressure" else ct.IdealGasReactor)(g, clone=False)
            net = ct.ReactorNet([r])
            ref = 0.0
            lim = end or 10.0
            while net.time < lim:
                net.step()
                if r.T >= T0 + 400:
                    ref = net.time
                    break
            sim = simulation.IgnitionSimulation(1, case, model)
            cand, e = b.expect("candidate", lambda: (sim.setup_case(), sim.calculate())[1], _inp=inp)
            sim = simulation.IgnitionSimulation(1, case, model)
            got = exc = None
            try:
                sim.setup_case()
                st = sim.gas.T, sim.gas.P, sim.gas.Y.copy()
                got = sim.run_case()
            except RuntimeError as e2:
                exc = e2
            b.check(close(st[0], T0) and close(st[1], P * ct.one_atm) and np.allclose(st[2], Y0, atol=1e-12), "initial state", got=st, **inp)
            if ref == 0.0:
                b.check(exc is not None and cand == 0.0, "no ignition", got=got, candidate=cand, **inp)
            else:
                b.check(exc is None and got is not None and close(got, ref, 0.02) and close(cand, got, 1e-6), "ignition delay", got=got, candidate=cand, reference=ref, **inp)


if __name__ == "__main__":
    main("C16", body)
