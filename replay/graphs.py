from world import *
import networkx


def rand_matrix(rng, n, thr, exact=True):
    m = np.zeros((n, n))
    dens = rng.choice([0.05, 0.15, 0.3, 0.7])
    for i in range(n):
        for j in range(n):
            if i != j and rng.random() < dens:
                m[i, j] = rng.choice([rng.random(), thr, np.nextafter(thr, 0), np.nextafter(thr, 1), thr / 2, 1.0, min(1.0, thr * 1.0001), rng.random() ** 4])
    return m


def weird_names(rng, n):
    pool = ["C", "CH", "CH2", "CH2(S)", "CH3", "H", "H2", "O", "O2", "OH", "H2O", "1", "0", "2", "A B", "N", "NO", "N2", "AR", "ar", "C,H", "3", "10", "CH2O"]
    return rng.sample(pool, n)
