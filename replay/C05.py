from world import *
from graphs import rand_matrix, weird_names
import networkx


def body(b):
    rng = b.rng
    for mod, fn, red in ((drg, drg.trim_drg, drg.reduce_drg), (pfa, pfa.trim_pfa, pfa.reduce_pfa)):
        b.section(fn.__name__)
        for k in range(b.n(500, 8000)):
            if not b.time_left(0.25 if mod is drg else 0.5):
                break
            n = rng.randint(1, 12)
            thr = rng.choice([rng.random(), 0.01, 0.5, 1e-4, 0.3, 1.0, 1e-5 + 0.01 * rng.randint(1, 50)])
            if thr <= 0:
                continue
            m = rand_matrix(rng, n, thr)
            if rng.random() < 0.3:
                np.fill_diagonal(m, rng.random())
            names = weird_names(rng, n)
            t = [rng.choice(names) for _ in range(rng.randint(1, 3))]
            m0, n0, t0 = m.copy(), list(names), list(t)
            inp = dict(matrix=m.tolist(), names=names, targets=t, threshold=thr)
            b.case(names, t, thr, m.tolist())
            got, e = b.expect(fn.__name__, fn, m, names, t, thr, _inp=inp)
            if e is not None:
                continue
            got = list(got)
            want = reach(m0, names, t, thr)
            b.check(set(got) == want, "species kept", got=sorted(got), expected=sorted(want), **inp)
            b.check(len(got) == len(set(got)), "species reported more than once", got=got, **inp)
            b.check((m == m0).all() and names == n0 and t == t0, "arguments modified", **inp)
        b.section("graph_search in " + mod.__name__)
        for k in range(b.n(150, 2000)):
            n = rng.randint(1, 10)
            names = weird_names(rng, n)
            g = networkx.DiGraph()
            g.add_nodes_from(names)
            m = np.zeros((n, n))
            for i in range(n):
                for j in range(n):
                    if rng.random() < 0.2:
                        g.add_edge(names[i], names[j], weight=rng.random())
                        m[i, j] = 1
            t = [rng.choice(names) for _ in range(rng.randint(1, 3))]
            b.case(names, m.tolist(), t)
            got, e = b.expect("graph_search", mod.graph_search, g, t)
            if e is None:
                b.check(set(got) == reach(m, names, t, 0.5) and len(got) == len(set(got)), "species reached", got=got, edges=list(g.edges), targets=t)
        b.section("union over the sampled states in " + mod.__name__)
        for k in range(b.n(25, 250)):
            if not b.time_left(0.75 if mod is drg else 1.0):
                break
            with scratch():
                sol = random_model(rng, rng.randint(6, 10))
                names = sol.species_names
                thr = rng.choice([0.01, 0.2, 0.05])
                ms = [rand_matrix(rng, len(names), thr) for _ in range(rng.randint(1, 4))]
                t = rng.sample(names, rng.choice([1, 2]))
                w = World(rng, names)
                ign, psr, fl, r = conditions(rng, sol)
                want = reach_all(ms, names, t, thr)
                if len(want) < 2:
                    continue
                metrics = w.all_metrics(names, ign, psr, fl)
                inp = dict(names=names, targets=t, threshold=thr, matrices=[m.tolist() for m in ms])
                b.case(names, t, thr, [m.tolist() for m in ms])
                with w.simulations():
                    got, e = b.expect(red.__name__, red, "model.yaml", t, [], thr, ms, ign, metrics, psr_conditions=psr, flame_conditions=fl, _inp=inp)
                if e is None:
                    b.check(set(got.model.species_names) == want, "species kept over all states", got=got.model.species_names, expected=sorted(want), **inp)


main("C05", body)
