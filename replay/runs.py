from world import *
import inspect

METHODS = {"DRG": (drg.run_drg, drg.reduce_drg), "DRGEP": (drgep.run_drgep, drgep.reduce_drgep), "PFA": (pfa.run_pfa, pfa.reduce_pfa)}


class Scenario:
    def __init__(self, rng, method, upper=None, n=None, fname="model.yaml", phase=""):
        self.rng, self.method, self.fname, self.phase = rng, method, fname, phase
        for _ in range(30):
            self.sol = random_model(rng, n or rng.randint(7, 13), fname, name=phase or "gas")
            if self.sol.n_reactions >= 5:
                break
        self.names = self.sol.species_names
        self.world = World(rng, self.names)
        self.ign, self.psr, self.flame, react = conditions(rng, self.sol)
        self.targets = rng.sample(self.names, rng.choice([1, 1, 2]))
        self.safe = list(dict.fromkeys([s for s in react if s not in self.targets] + rng.sample(self.names, rng.choice([0, 0, 1, 2]))))
        self.limit = rng.choice([0.5, 2.0, 5.0, 10.0, 20.0, 50.0, 99.0])
        self.upper = upper
        self._ms = None

    def protected(self):
        return set(self.targets) | set(self.safe)

    def rows(self):
        gas = ct.Solution(self.fname, self.phase)
        r = []
        for kind, cs, n in (("ign", self.ign, 20), ("psr", self.psr, 3), ("flame", self.flame, 20)):
            for i in range(len(cs)):
                r += list(self.world.rows(kind, i, gas, n))
        return r

    def matrices(self):
        if self._ms is None:
            self._ms = naive_matrices(self.method, self.fname, self.phase, self.rows())
            if self.method == "DRGEP":
                self.imp = importance(self._ms, self.names, self.targets)
        return self._ms

    def kept(self, thr):
        ms = self.matrices()
        if self.method == "DRGEP":
            return {s for s in self.names if self.imp[s] >= thr or s in self.protected()}
        return reach_all(ms, self.names, self.targets, thr) | set(self.safe)

    def margin(self, thr):
        """smallest relative distance of a coefficient to the threshold"""
        ms = self.matrices()
        v = np.array(list(self.imp.values())) if self.method == "DRGEP" else np.array(ms).ravel()
        v = v[v > 0]
        return float(np.min(np.abs(v - thr) / thr)) if v.size else 1.0

    def limbo(self, final, upper):
        if not upper:
            return set()
        final = set(final) - self.protected()
        self.matrices()
        if self.method == "DRGEP":
            return {s for s in final if self.imp[s] < upper}
        return final - reach_all(self.matrices(), self.names, self.targets, upper)

    def error(self, names):
        return self.world.error(names, self.ign, self.psr, self.flame)

    def expected(self):
        """(species, error, rejected candidates) of the documented procedure, or None where it must give up;
        'unclear' if rounding could decide"""
        t = inc = 0.01
        lowest = 1e-6 if self.method == "DRGEP" else 1e-5
        cands = []
        last, first = None, True
        for _ in range(400):
            if self.margin(t) < 1e-6:
                return "unclear", None, None
            names = self.kept(t)
            err = self.error(names)
            cands.append((t, frozenset(names), err))
            if abs(err - self.limit) < 1e-6:
                return "unclear", None, None
            if err > self.limit:
                if first:
                    t /= 10
                    inc /= 10
                    if t <= lowest:
                        return None, None, cands
                    continue
                return last[0], last[1], cands
            first = False
            last = (names, err)
            t += inc
            if len(names) <= len(self.protected()):
                return names, err, cands
        raise RuntimeError("no end")

    def args(self):
        return [self.fname, self.ign, self.psr, self.flame, self.limit, self.targets, self.safe]

    def info(self):
        return dict(method=self.method, seed=self.world.seed, species=self.names, targets=self.targets, safe=self.safe, limit=self.limit, upper=self.upper,
                    cases=(len(self.ign), len(self.psr), len(self.flame)), reactions=self.sol.reaction_equations()[:60])

    def run(self, **kw):
        fn = METHODS[self.method][0]
        k = dict(phase_name=self.phase, threshold_upper=self.upper)
        k.update(kw)
        with self.world.simulations():
            return fn(*self.args(), **k)


DATA = {"ignition_data.dat", "ignition_output.txt", "psr_data.dat", "psr_output.txt", "laminarflame_data.dat", "laminarflame_output.txt"}


def tree(d="."):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.relpath(os.path.join(r, f), d)
            out[p] = hashlib.md5(open(os.path.join(r, f), "rb").read()).hexdigest()
    return out


def snapshot(x):
    return repr(x)


def run_scenarios(b, methods, count, checker, share=1.0, upper=lambda rng: None, sub=("", "", "out")):
    """checker(b, scenario, result or None, exception, files before, files after, path)"""
    k = 0
    while k < count and b.time_left(share):
        k += 1
        for method in methods:
            with scratch():
                sc = Scenario(b.rng, method, upper=upper(b.rng), fname=b.rng.choice(["model.yaml", "model.yaml", "my.gas.yaml"]), phase=b.rng.choice(["", "", "ph"]))
                path = b.rng.choice(sub)
                if path:
                    os.mkdir(path)
                before = tree()
                args0 = snapshot((sc.ign, sc.psr, sc.flame, sc.targets, sc.safe, sc.limit))
                want = sc.expected()
                if want[0] == "unclear":
                    continue
                b.case(method, sc.world.seed, sc.names, sc.targets, sc.safe, sc.limit, sc.upper)
                res = exc = None
                try:
                    res = sc.run(path=path)
                except (Exception, SystemExit) as e:
                    exc = e
                checker(b, sc, res, exc, want, before, tree(), path, args0)


def describe(exc):
    return "".join(traceback.format_exception(exc))[-1500:] if exc is not None else None
