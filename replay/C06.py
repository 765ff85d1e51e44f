from world import *
from graphs import weird_names
import networkx


def body(b):
    rng = b.rng

    def mat(n):
        m = np.zeros((n, n))
        dens = rng.choice([0.1, 0.25, 0.5, 0.9])
        tiny = rng.choice([0, 0, 0.5, 1])
        for i in range(n):
            for j in range(n):
                if i != j and rng.random() < dens:
                    m[i, j] = rng.choice([rng.random(), 1.0, 0.5, 0.25, 0.999, 0.9, rng.random() ** 5])
                    if rng.random() < tiny:
                        m[i, j] = 10 ** -rng.uniform(1, 22)
        return m

    b.section("importance over several states")
    for k in range(b.n(900, 15000)):
        if not b.time_left(0.6):
            break
        n = rng.randint(1, 9)
        names = weird_names(rng, n)
        ms = [mat(n) for _ in range(rng.randint(1, 3))]
        t = [rng.choice(names) for _ in range(rng.randint(1, 3))]
        inp = dict(names=names, targets=t, matrices=[m.tolist() for m in ms])
        keep = [m.copy() for m in ms], list(names), list(t)
        b.case(names, t, [m.tolist() for m in ms])
        got, e = b.expect("get_importance_coeffs", drgep.get_importance_coeffs, names, t, ms, _inp=inp)
        if e is not None:
            continue
        want = importance(keep[0], names, t)
        b.check(set(got) == set(names), "species with a value", got=got, **inp)
        for s in names:
            x = got.get(s)
            if x is None or not close(x, want[s], 1e-9, 1e-300):
                b.violation("importance", species=s, got=x, expected=want[s], **inp)
                break
            if s in t:
                b.check(x == 1, "importance of a target", got=x, **inp)
            if want[s] == 0:
                b.check(x == 0, "importance of an unreachable species", got=x, **inp)
        b.check(all((x == y).all() for x, y in zip(ms, keep[0])) and names == keep[1] and t == keep[2], "arguments modified", **inp)
    b.section("one graph")
    for k in range(b.n(400, 5000)):
        if not b.time_left(0.8):
            break
        n = rng.randint(1, 8)
        names = weird_names(rng, n)
        m = mat(n)
        if rng.random() < 0.3:
            np.fill_diagonal(m, rng.random())
        g = networkx.DiGraph()
        order = list(range(n))
        rng.shuffle(order)
        g.add_nodes_from(names)
        es = [(i, j) for i in order for j in range(n) if m[i, j]]
        rng.shuffle(es)
        for i, j in es:
            g.add_edge(names[i], names[j], weight=m[i, j])
        t = [rng.choice(names) for _ in range(rng.randint(1, 3))]
        b.case(names, t, m.tolist(), es)
        inp = dict(edges=[(names[i], names[j], m[i, j]) for i, j in es], targets=t)
        got, e = b.expect("graph_search_drgep", drgep.graph_search_drgep, g, t, _inp=inp)
        if e is not None:
            continue
        want = importance([m], names, t)
        for s in names:
            b.check(close(got.get(s, 0.0), want[s], 1e-9, 1e-300), "importance in one state", species=s, got=got.get(s), expected=want[s], **inp)
        # the search from one source
        src = t[0]
        one, e = b.expect("ss_dijkstra_path_length_modified", drgep.ss_dijkstra_path_length_modified, g, src, _inp=inp)
        if e is None:
            w1 = importance([m], names, [src])
            for s in names:
                if s != src:
                    b.check(close(one.get(s, 0.0), w1[s], 1e-9, 1e-300), "largest path product", species=s, got=one.get(s), expected=w1[s], source=src, **inp)
    b.section("long chains and ladders")
    for k in range(b.n(40, 300)):
        n = rng.randint(10, 24)
        names = ["S%d" % i for i in range(n)]
        m = np.zeros((n, n))
        for i in range(n - 1):
            m[i, i + 1] = rng.choice([1.0, 0.9, 0.5, 0.01, 1e-4])
            if i + 2 < n and rng.random() < 0.5:
                m[i, i + 2] = rng.choice([0.3, 0.95, 0.7])
            if i > 2 and rng.random() < 0.3:
                m[i, rng.randint(0, i - 1)] = rng.random()
        perm = list(range(n))
        rng.shuffle(perm)
        m = m[np.ix_(perm, perm)]
        t = rng.sample(names, 2)
        b.case(t, m.tolist())
        got, e = b.expect("get_importance_coeffs", drgep.get_importance_coeffs, names, t, [m], _inp=dict(matrix=m.tolist(), targets=t))
        if e is None:
            want = importance([m], names, t)
            bad = [s for s in names if not close(got.get(s, -1), want[s], 1e-9, 1e-300)]
            b.check(not bad, "importance", species=bad, targets=t, matrix=m.tolist())


main("C06", body)
