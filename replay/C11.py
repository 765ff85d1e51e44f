from world import *


def body(b):
    rng = b.rng
    f = sampling.calculate_error

    def one(o, t):
        o, t = np.array(o, dtype=float), np.array(t, dtype=float)
        o0, t0 = o.copy(), t.copy()
        b.case(list(o), list(t))
        got, e = b.expect("calculate_error", f, o, t, _inp=dict(original=list(o), candidate=list(t)))
        if e is not None:
            return
        want = 100.0 if any(x == 0 for x in t0) else 100 * max(abs(x - y) / x for x, y in zip(o0, t0))
        inp = dict(original=list(o0), candidate=list(t0))
        b.check(close(float(got), want, 1e-12, 0), "error", got=float(got), expected=want, **inp)
        if not any(x == 0 for x in t0):
            b.check((got == 0) == bool((o0 == t0).all()), "zero exactly when the metrics agree", got=float(got), **inp)
        b.check((o == o0).all() and (t == t0).all(), "metrics modified", **inp)

    b.section("random metrics")
    for k in range(b.n(4000, 60000)):
        if not b.time_left():
            break
        n = rng.choice([1, 1, 2, 3, 5, 8])
        o = [rng.choice([rng.uniform(1e-6, 1e-3), rng.uniform(0.1, 3), rng.uniform(500, 2500), 1e-9]) for _ in range(n)]
        kind = rng.random()
        t = [x * rng.choice([1.0, 1 + 1e-9, 0.5, 2.0, rng.uniform(0.1, 3), 0.99]) for x in o]
        if kind < 0.25:
            t[rng.randrange(n)] = 0.0
        elif kind < 0.35:
            t = list(o)
        elif kind < 0.45:
            i = rng.randrange(n)
            t = list(o)
            t[i] *= rng.choice([10.0, 0.9, 1.0001])
        elif kind < 0.5:
            t = [1e-300 if rng.random() < .3 else x for x in t]
        one(o, t)


if __name__ == "__main__":
    main("C11", body)
