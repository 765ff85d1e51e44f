from world import *
from pymars.sampling import InputLaminarFlame


def body(b):
    rng = b.rng
    sol = submodel(["H2", "O2", "H", "OH", "H2O", "N2", "AR"])
    sol.write_yaml("h2.yaml")
    base = os.getcwd()
    model = os.path.join(base, "h2.yaml")
    default = 0.05
    b.section("scripted flame solver")
    for k in range(b.n(700, 8000)):
        if not b.time_left(0.7):
            break
        n = rng.choice([2, 5, 30, 80])
        floor = rng.choice([None, None, 0.01, 0.3, 0.0, 0.2])
        f = default if floor is None else floor
        speed = rng.choice([f, float(np.nextafter(f, 1)), float(np.nextafter(f, 0)), -0.3, 0.0, 0.01, 0.04, 0.06, 0.4, 2.5, f + 1e-3, f - 1e-3])
        fail = rng.random() < 0.2
        T = np.cumsum(np.array([300.0] + [rng.choice([0.0, 10.0, 200.0]) for _ in range(n - 1)]))
        T[-1] += 1
        Yp = np.array([[rng.random() for _ in range(n)] for _ in range(sol.n_species)])
        Yp /= Yp.sum(axis=0)
        P = 3 * ct.one_atm
        vel = np.linspace(speed, speed * 6 + 1, n)
        made = []

        class Flame:
            def __init__(self, gas, grid=None, width=None):
                made.append((gas, width))
                self.gas = gas
                self.solved = False
                self.start = (gas.T, gas.P, gas.Y.copy())

            def set_refine_criteria(self, *a, **k2):
                pass
            transport_model = None
            inlet = None

            def solve(self, *a, **k2):
                self.solved = True
                if fail:
                    raise ct.CanteraError("no solution")

            def value(self, x):
                if not self.solved:
                    return x * 0 + 7.77
                return x
            velocity = property(lambda s: s.value(vel))
            T = property(lambda s: s.value(T_))
            Y = property(lambda s: s.value(Yp))
            P = property(lambda s: P)
            grid = property(lambda s: np.arange(n) * 1e-3)
        T_ = T
        width = rng.choice([0.1, 0.03])
        case = InputLaminarFlame(300.0, 3.0, width=width, reactants={"H2": 2.0, "O2": 1.0})
        ok = not fail and speed > f
        inp = dict(speed=speed, floor=floor, solver_fails=fail, T=list(T))
        b.case(speed, floor, fail, list(T))

        def new():
            made.clear()
            s = simulation.FlameSimulation(2, case, model, min_flame_speed=floor) if floor is not None or rng.random() < .5 else simulation.FlameSimulation(2, case, model)
            s.setup_case()
            return s
        with patched((ct, "FreeFlame", Flame)):
            s = new()
            b.check(len(made) == 1 and made[0][1] == width and close(made[0][0].T, 300.0) and close(made[0][0].P, P, 1e-9), "flame set up", got=[(m[0].T, m[0].P, m[1]) for m in made], **inp)
            got, e = b.expect("candidate", s.calculate, _inp=inp)
            if e is None:
                b.check(got == (speed if ok else 0.0), "flame speed of a candidate", got=got, expected=speed if ok else 0.0, **inp)
            for call in ("run_case", "process_results", "skip"):
                s = new()
                try:
                    r = s.run_case() if call == "run_case" else s.process_results(skip_data=call == "skip")
                    if not b.check(ok, f"{call}: a missing flame of the original model was accepted", got=r if call != "process_results" else r[0], **inp):
                        continue
                    v = r[0] if call == "process_results" else r
                    b.check(v == speed, f"{call}: flame speed", got=v, expected=speed, **inp)
                    if call == "process_results":
                        rows = np.asarray(r[1])
                        want = []
                        for i in range(1, 21):
                            thr = T[0] + i / 20 * (T[-1] - T[0])
                            j = next((j for j in range(n) if T[j] >= thr - 1e-9 * abs(thr)), n - 1)
                            want.append(np.concatenate([[T[j], P], Yp[:, j]]))
                        want = np.array(want)
                        points = np.column_stack([T, np.full(n, P), Yp.T])
                        good = rows.shape == want.shape and all((np.abs(points - x) < 1e-12 * np.abs(points) + 1e-15).all(axis=1).any() for x in rows)
                        b.check(good, "sampled states are not points of the solved profile", **inp)
                except RuntimeError as e2:
                    b.check(not ok, f"{call}: flame of the original model was rejected", error=repr(e2), **inp)
                except Exception as e2:
                    b.violation(f"{call}: unexpected {type(e2).__name__}: {e2}", trace=traceback.format_exc()[-1000:], **inp)
    b.section("floors do not influence each other")
    for k in range(30):
        a = simulation.FlameSimulation(0, None, model, min_flame_speed=rng.choice([0.5, 0.2]))
        c = simulation.FlameSimulation(0, None, model)
        b.case(k)
        b.check(c.min_flame_speed == default and a.min_flame_speed in (0.5, 0.2), "minimum flame speed in force", got=(a.min_flame_speed, c.min_flame_speed))
    b.section("real flame")
    full = submodel(["H2", "O2", "H", "O", "OH", "H2O", "HO2", "H2O2", "N2"])
    full.write_yaml("f.yaml")
    for mix, burns in (({"H2": 2.0, "O2": 1.0, "N2": 3.76}, True), ({"H2": 1e-4, "O2": 1.0, "N2": 3.76}, False)):
        if not b.time_left(0.9):
            break
        case = InputLaminarFlame(300.0, 1.0, width=0.02, reactants=mix)
        b.case("real", mix)
        s = simulation.FlameSimulation(0, case, "f.yaml")
        s.setup_case()
        got, e = b.expect("candidate", s.calculate)
        if e is None:
            b.check((got > 1.0) if burns else got == 0.0, "flame speed", got=got, mixture=mix)
        if burns:
            s = simulation.FlameSimulation(0, case, "f.yaml", min_flame_speed=50.0)
            s.setup_case()
            got, e = b.expect("candidate", s.calculate)
            b.check(got == 0.0, "flame speed below the minimum flame speed", got=got)


if __name__ == "__main__":
    main("C17", body)
