from world import *


def body(b):
    rng = b.rng
    N = 20
    samp = simulation.BaseSimulation._sample_profile

    def one(T, P, Y, tag):
        T, P, Y = np.array(T, float), np.array(P, float), np.array(Y, float)
        keep = T.copy(), P.copy(), Y.copy()
        inp = dict(T=list(T))
        b.case(tag, list(T))
        for cls in (simulation.IgnitionSimulation, simulation.FlameSimulation):
            got, e = b.expect("sampling a profile", cls._sample_profile, T, P, Y, _inp=inp)
            if e is not None:
                return
            got = np.asarray(got)
            if not b.check(got.shape == (N, 2 + Y.shape[1]), "twenty states", got=got.shape, **inp):
                return
            rise = T[-1] - T[0]
            for i in range(1, N + 1):
                tol = 1e-9 * max(abs(T[0]), abs(T[-1]))
                thr = T[0] + i / N * rise
                # the first point at or above the fraction; equality is decided up to rounding
                strict = next((j for j in range(len(T)) if T[j] >= thr + tol), None)
                loose = next((j for j in range(len(T)) if T[j] >= thr - tol), None)
                allowed = {loose, strict} if strict is not None else {loose}
                allowed |= {j for j in range(loose, (strict if strict is not None else len(T) - 1) + 1) if abs(T[j] - thr) <= tol}
                ok = any(j is not None and got[i - 1][0] == T[j] and got[i - 1][1] == P[j] and np.array_equal(got[i - 1][2:], Y[j]) for j in allowed)
                if not ok:
                    b.violation("sampled state", number=i, got=list(got[i - 1]), expected=[list(np.concatenate([[T[j], P[j]], Y[j]])) for j in allowed if j is not None], **inp)
                    return
            b.check(np.array_equal(T, keep[0]) and np.array_equal(P, keep[1]) and np.array_equal(Y, keep[2]), "profile modified", **inp)

    def rest(n):
        Y = np.array([[rng.random() for _ in range(rng_n)] for rng_n in [rng.choice([1, 3, 9])] for _ in range(n)])
        return [rng.uniform(1e5, 2e6) for _ in range(n)], Y / Y.sum(axis=1)[:, None]

    b.section("profiles")
    for k in range(b.n(1500, 20000)):
        if not b.time_left():
            break
        n = rng.choice([2, 3, 5, 10, 25, 60, 200])
        kind = rng.choice(["steps", "jump", "smooth", "overshoot", "dips", "plateau", "exact", "late"])
        T0 = rng.choice([300.0, 1000.0, 1234.567, 500.0])
        rise = rng.choice([400.0, 1500.0, 2000.0, 777.7])
        if kind == "steps":
            T = T0 + np.cumsum([0.0] + [rng.choice([0, 1, 10, 300]) for _ in range(n - 1)])
        elif kind == "jump":
            j = rng.randint(1, n - 1)
            T = np.array([T0 + 0.01 * i for i in range(j)] + [T0 + rise + i for i in range(n - j)])
        elif kind == "smooth":
            T = T0 + rise * np.linspace(0, 1, n) ** rng.choice([0.3, 1, 3, 10])
        elif kind == "overshoot":
            x = np.linspace(0, 1, n)
            T = T0 + rise * (x + 0.3 * np.sin(np.pi * x) * rng.choice([1, 2]))
        elif kind == "dips":
            T = T0 + rise * np.linspace(0, 1, n) + np.array([rng.uniform(-200, 200) if 0 < i < n - 1 else 0 for i in range(n)])
        elif kind == "plateau":
            T = np.array([T0] * (n // 2) + [T0 + rise] * (n - n // 2))
            if n < 2:
                continue
        elif kind == "exact":
            T = np.array([T0 + rise * i / (n - 1) for i in range(n)])
        else:
            T = np.array([T0] * (n - 1) + [T0 + rise])
        if T[-1] <= T[0]:
            continue
        P, Y = rest(n)
        one(T, P, Y, kind)


if __name__ == "__main__":
    main("C19", body)
