"""Small worlds: models, states, and simulations with known results."""
from base import *
import numpy as np
import cantera as ct

ct.suppress_thermo_warnings()
import pymars
from pymars import sampling, simulation, drg, drgep, pfa, sensitivity_analysis, reduce_model, soln2yaml, psr_solver
from pymars import pymars as pm
logging.disable(logging.CRITICAL)

_cache = {}


def gri():
    if "gri" not in _cache:
        s = ct.Solution("gri30.yaml")
        _cache["gri"] = (s, list(s.species()), list(s.reactions()))
    return _cache["gri"]


CORE = ["H2", "H", "O", "O2", "OH", "H2O", "HO2", "H2O2", "N2", "AR"]
MORE = ["CO", "CO2", "CH4", "CH3", "HCO", "CH2O", "CH2", "CH2(S)", "CH", "C", "CH2OH", "CH3O", "CH3OH", "C2H2", "C2H4", "C2H5",
        "C2H6", "N", "NO", "NO2", "HCCO", "CH2CO", "HCCOH", "C2H3", "C2H", "NH", "N2O", "HNO"]


def rx_species(r):
    return set(r.reactants) | set(r.products)


def tb_only(r):
    """species that is the only explicit third body of the reaction, or None"""
    tb = r.third_body
    if tb is not None and not tb.default_efficiency and len(tb.efficiencies) == 1:
        return list(tb.efficiencies)[0]
    return None


def submodel(names, transport="mixture-averaged", name="gas"):
    """the part of GRI-Mech 3.0 with the given species (independent of pymars)"""
    s, sp, rx = gri()
    keep = set(names)
    species = [x for x in sp if x.name in keep]
    out = []
    for r in ct.Solution("gri30.yaml").reactions():
        if not rx_species(r) <= keep:
            continue
        t = tb_only(r)
        if t is not None and t not in keep:
            continue
        if r.third_body is not None:
            r.third_body.efficiencies = {k: v for k, v in r.third_body.efficiencies.items() if k in keep}
            if not r.third_body.efficiencies:
                r.clear_user_data()
        out.append(r)
    sol = ct.Solution(thermo="ideal-gas", kinetics="bulk", species=species, reactions=out, transport_model=transport)
    sol.name = name
    return sol


def random_names(rng, n):
    k = rng.randint(5, len(CORE))
    base = rng.sample(CORE, k)
    rest = rng.sample(MORE, max(0, min(len(MORE), n - k)))
    return base + rest


def random_model(rng, n=None, fname="model.yaml", name="gas", transport="mixture-averaged"):
    n = n or rng.randint(7, 16)
    for _ in range(50):
        sol = submodel(random_names(rng, n), transport=transport, name=name)
        if sol.n_reactions >= 4:
            break
    sol.write_yaml(fname)
    return ct.Solution(fname, name if name != "gas" else "")


def random_state(rng, sol, zeros=0.2):
    T = rng.uniform(900, 2600)
    P = rng.uniform(0.5, 20) * ct.one_atm
    y = np.array([0.0 if rng.random() < zeros else rng.random() ** 3 for _ in range(sol.n_species)])
    if y.sum() == 0:
        y[0] = 1
    y /= y.sum()
    return T, P, y


def h(*a):
    return int(hashlib.md5(repr(a).encode()).hexdigest()[:12], 16) / float(16 ** 12)


class World:
    """Deterministic simulation results: the metric of a case depends on the model
    (through the species it lacks), so that errors of candidates are known."""

    def __init__(self, rng, all_names, states_per_case=2, harsh=None):
        self.seed = rng.randint(0, 10 ** 9)
        self.names = list(all_names)
        self.harsh = rng.choice([0.1, 0.5, 2.0]) if harsh is None else harsh
        self.spc = states_per_case
        self.evals = []          # (kind, idx, species of the model, model file, instance)
        self.samples = []
        self.zero_prob = 0.08
        self.nonmono = rng.random() < 0.5

    def weight(self, kind, idx, sp):
        w = h(self.seed, kind, idx, sp) ** 6 * self.harsh
        return -w if self.nonmono and h(self.seed, "sign", kind, idx, sp) < 0.4 else w

    def metric(self, kind, idx, names, n=1):
        missing = [s for s in self.names if s not in set(names)]
        out = []
        for j in range(n):
            base = 0.1 + h(self.seed, "base", kind, idx, j) * (1 if kind != "psr" or j == 0 else 1000)
            f = 1.0 + sum(self.weight(kind, (idx, j), s) for s in missing)
            if any(h(self.seed, "dead", s) < self.zero_prob * self.harsh for s in missing):
                f = 0.0
            out.append(base * max(f, 0.0))
        return np.array(out) if kind == "psr" else out[0]

    def rows(self, kind, idx, gas, count):
        r = random.Random(self.seed + idx * 17 + {"ign": 1, "psr": 2, "flame": 3}[kind])
        return np.array([np.concatenate([[s[0], s[1]], s[2]]) for s in (random_state(r, gas) for _ in range(count))])

    def all_metrics(self, names, ign, psr, flame):
        return np.array([self.metric("ign", i, names) for i in range(len(ign))]
                        + [x for i in range(len(psr)) for x in self.metric("psr", i, names, 3)]
                        + [self.metric("flame", i, names) for i in range(len(flame))])

    def error(self, names, ign, psr, flame):
        o, t = self.all_metrics(self.names, ign, psr, flame), self.all_metrics(names, ign, psr, flame)
        if (t == 0).any():
            return 100.0
        return float(100 * np.max(np.abs(o - t) / o))

    @contextlib.contextmanager
    def simulations(self):
        w = self
        S = simulation

        def setup(kind):
            def setup_case(self):
                self.gas = ct.Solution(self.model, self.phase_name)
                self.w_names = list(self.gas.species_names)
            return setup_case

        def calc(kind, n):
            def calculate(self):
                w.evals.append((kind, self.idx, tuple(self.w_names), str(self.model), self))
                return w.metric(kind, self.idx, self.w_names, n)
            return calculate

        def run(kind, n):
            def run_case(self, *a, **k):
                m = w.metric(kind, self.idx, self.w_names, n)
                if np.any(np.asarray(m) == 0):
                    raise RuntimeError("no result")
                return m
            return run_case

        def proc(kind, n):
            def process_results(self, skip_data=False):
                w.samples.append((kind, self.idx, tuple(self.w_names), str(self.model), self))
                m = w.metric(kind, self.idx, self.w_names, n)
                if skip_data:
                    return m
                return m, w.rows(kind, self.idx, self.gas, type(self).num_sample_points)
            return process_results
        pairs = []
        for cls, kind, n in ((S.IgnitionSimulation, "ign", 1), (S.PSRSimulation, "psr", 3), (S.FlameSimulation, "flame", 1)):
            pairs += [(cls, "setup_case", setup(kind)), (cls, "calculate", calc(kind, n)), (cls, "run_case", run(kind, n)),
                      (cls, "process_results", proc(kind, n)), (cls, "clean", lambda self: None)]
        with patched(*pairs):
            yield self


def conditions(rng, sol, kinds=None):
    """conditions of all kinds; reactants from the model"""
    from pymars.sampling import InputIgnition, InputPSR, InputLaminarFlame
    names = sol.species_names
    fuel = rng.choice(names)
    ox = rng.choice([x for x in names if x != fuel])
    if kinds is None:
        kinds = rng.choice([(2, 0, 0), (1, 1, 0), (0, 1, 1), (1, 0, 1), (0, 0, 1), (0, 1, 0), (1, 0, 0), (2, 1, 1)])
    ign = [InputIgnition(kind="constant volume", temperature=1000 + 100 * i, pressure=1.0 + i, end_time=1.0, reactants={fuel: 1, ox: 2})
           for i in range(kinds[0])]
    psr = [InputPSR(temperature=300.0 + i, pressure=1.0, reactants={fuel: 1, ox: 2}) for i in range(kinds[1])]
    fl = [InputLaminarFlame(temperature=300.0 + i, pressure=1.0, reactants={fuel: 1, ox: 2}) for i in range(kinds[2])]
    return ign, psr, fl, [fuel, ox]


# ------------------------------------------------------------------ oracles
def naive_matrix(method, sol):
    """interaction coefficients by the published formulas, term by term"""
    n, m = sol.n_species, sol.n_reactions
    P, R, q = sol.product_stoich_coeffs, sol.reactant_stoich_coeffs, sol.net_rates_of_progress
    w = [[(P[a][j] - R[a][j]) * q[j] for j in range(m)] for a in range(n)]
    part = [[j for j in range(m) if P[b][j] != 0 or R[b][j] != 0] for b in range(n)]
    out = np.zeros((n, n))
    if method == "DRG":
        for a in range(n):
            den = sum(abs(x) for x in w[a])
            for b in range(n):
                if a != b and den != 0:
                    out[a, b] = sum(abs(w[a][j]) for j in part[b]) / den
        return out
    prod = [sum(max(x, 0) for x in w[a]) for a in range(n)]
    cons = [sum(max(-x, 0) for x in w[a]) for a in range(n)]
    if method == "DRGEP":
        for a in range(n):
            den = max(prod[a], cons[a])
            for b in range(n):
                if a != b and den != 0:
                    out[a, b] = abs(sum(w[a][j] for j in part[b])) / den
        return out
    pro, con = np.zeros((n, n)), np.zeros((n, n))
    for a in range(n):
        den = max(prod[a], cons[a])
        for b in range(n):
            if den != 0:
                pro[a, b] = sum(max(w[a][j], 0) for j in part[b]) / den
                con[a, b] = sum(max(-w[a][j], 0) for j in part[b]) / den
    for a in range(n):
        for b in range(n):
            if a != b:
                out[a, b] = pro[a, b] + con[a, b] + sum(pro[a, k] * pro[k, b] + con[a, k] * con[k, b] for k in range(n) if k not in (a, b))
    return out


def naive_matrices(method, model, phase, rows):
    sol = ct.Solution(model, phase)
    out = []
    for r in rows:
        sol.TPY = r[0], r[1], r[2:]
        out.append(naive_matrix(method, sol))
    return out


def reach(matrix, names, targets, thr):
    idx = {s: i for i, s in enumerate(names)}
    seen = set(targets)
    todo = list(targets)
    while todo:
        i = idx[todo.pop()]
        for j, s in enumerate(names):
            if s not in seen and matrix[i][j] >= thr:
                seen.add(s)
                todo.append(s)
    return seen


def reach_all(ms, names, targets, thr):
    out = set()
    for m in ms:
        out |= reach(m, names, targets, thr)
    return out


def importance(ms, names, targets):
    n = len(names)
    best = {s: 0.0 for s in names}
    for m in ms:
        for t in targets:
            d = [0.0] * n
            d[names.index(t)] = 1.0
            for _ in range(n):
                new = list(d)
                for j in range(n):
                    for i in range(n):
                        if i != j and d[i] * m[i][j] > new[j]:
                            new[j] = d[i] * m[i][j]
                if new == d:
                    break
                d = new
            for j, s in enumerate(names):
                best[s] = max(best[s], d[j])
    return best


# ------------------------------------------------------------------ models with every kind of reaction
EQS = ["H2 + O <=> H + OH", "H + O2 <=> O + OH", "OH + H2 <=> H + H2O", "2 OH <=> O + H2O", "HO2 + H <=> 2 OH", "HO2 + OH <=> H2O + O2",
       "H2O2 + H <=> HO2 + H2", "H2O2 + OH <=> H2O + HO2", "2 HO2 <=> O2 + H2O2", "HO2 + O <=> OH + O2", "CO + OH <=> CO2 + H", "CO + O2 <=> CO2 + O"]
COMB = ["2 H", "O + H", "2 O", "H + OH", "H + O2", "2 OH", "CO + O"]
PROD = {"2 H": "H2", "O + H": "OH", "2 O": "O2", "H + OH": "H2O", "H + O2": "HO2", "2 OH": "H2O2", "CO + O": "CO2"}
RICH = ["H2", "H", "O", "O2", "OH", "H2O", "HO2", "H2O2", "N2", "AR", "CO", "CO2"]


def arr(rng, scale=1.0):
    return ct.Arrhenius(scale * 10 ** rng.uniform(3, 11), round(rng.uniform(-2, 2), 3), rng.choice([0.0, rng.uniform(1e6, 1.5e8)]))


def effs(rng, names):
    return {s: round(rng.uniform(0.1, 15), 2) for s in rng.sample(names, rng.randint(0, min(4, len(names))))}


def rich_reactions(rng, names, n, kinds=None):
    kinds = kinds or ["arr", "arr", "tb", "expl", "lind", "troe3", "troe4", "sri3", "sri5", "ca", "plog", "cheb", "dup"]
    names = list(names)
    have = lambda eq: all(t in names or t in "+<=>2=" or t == "M" or t == "(+M)" for t in eq.replace("(+M)", "").split())
    eqs = [e for e in EQS if have(e)]
    combs = [c for c in COMB if have(c) and PROD[c] in names]
    out, used = [], set()
    for _ in range(n * 4):
        if len(out) >= n:
            break
        k = rng.choice(kinds)
        if k in ("arr", "plog", "cheb", "dup", "ca"):
            if not eqs:
                continue
            eq = rng.choice(eqs)
            if rng.random() < 0.3:
                l, r = eq.split(" <=> ")
                eq = f"{l} => {r}" if rng.random() < 0.5 else f"{r} <=> {l}"
            key = frozenset(x.strip() for x in eq.replace("<=>", "|").replace("=>", "|").split("|"))
            if key in used:
                continue
            used.add(key)
            if k == "ca":
                l, r = eq.replace("=>", "<=>").replace("<<", "<").split(" <=> ")
                lo, hi = arr(rng, 1e3), arr(rng)
                rate = rng.choice([ct.LindemannRate(lo, hi, []), ct.TroeRate(lo, hi, [round(rng.uniform(.1, .9), 3), 100.0, 1500.0, 4000.0])])
                rate.chemically_activated = True
                out.append(ct.Reaction(equation=f"{l} (+M) <=> {r} (+M)", rate=rate, third_body=ct.ThirdBody(efficiencies=effs(rng, names))))
                continue
            if k == "arr":
                out.append(ct.Reaction(equation=eq, rate=ct.ArrheniusRate(*_abc(arr(rng)))))
            elif k == "dup":
                for _i in range(2):
                    r = ct.Reaction(equation=eq, rate=ct.ArrheniusRate(*_abc(arr(rng))))
                    r.duplicate = True
                    out.append(r)
            elif k == "plog":
                ps = sorted(rng.uniform(0.01, 100) * ct.one_atm for _ in range(rng.randint(2, 4)))
                if rng.random() < 0.3:
                    ps.append(ps[-1])
                out.append(ct.Reaction(equation=eq, rate=ct.PlogRate([(p, arr(rng)) for p in ps])))
            else:
                data = np.round(np.array([[rng.uniform(-2, 8 if i + j == 0 else 1) for j in range(rng_cols)] for rng_cols in [rng.randint(2, 4)] for i in range(rng.randint(2, 5))]), 5)
                out.append(ct.Reaction(equation=eq, rate=ct.ChebyshevRate((300.0, 2500.0), (0.01 * ct.one_atm, 100 * ct.one_atm), data)))
        else:
            if not combs:
                continue
            l = rng.choice(combs)
            r = PROD[l]
            if rng.random() < 0.4:
                l, r = r, l
            fall = k in ("lind", "troe3", "troe4", "sri3", "sri5")
            key = (frozenset((l, r)), "f" if fall else "tb" if k.startswith("tb") else k)
            if key in used:
                continue
            used.add(key)
            if k == "tb":
                out.append(ct.Reaction(equation=f"{l} + M <=> {r} + M", rate=ct.ArrheniusRate(*_abc(arr(rng))), third_body=ct.ThirdBody(efficiencies=effs(rng, names))))
            elif k == "tb0":
                out.append(ct.Reaction(equation=f"{l} + M <=> {r} + M", rate=ct.ArrheniusRate(*_abc(arr(rng))),
                                       third_body=ct.ThirdBody(default_efficiency=0.0, efficiencies={s: round(rng.uniform(.5, 3), 2) for s in rng.sample(names, rng.randint(1, 3))})))
            elif k == "tbp":
                out.append(ct.Reaction(equation=f"{l} + M <=> {r} + M", rate=ct.ArrheniusRate(*_abc(arr(rng))),
                                       third_body=ct.ThirdBody(default_efficiency=rng.choice([0.5, 0.1, 2.0]), efficiencies={s: round(rng.uniform(.5, 3), 2) for s in rng.sample(names, rng.choice([1, 1, 2]))})))
            elif k == "expl":
                c = rng.choice([s for s in names if s not in l.split() and s not in r.split()] or ["N2"])
                if c not in names:
                    continue
                out.append(ct.Reaction(equation=f"{l} + {c} <=> {r} + {c}", rate=ct.ArrheniusRate(*_abc(arr(rng)))))
            else:
                lo, hi = arr(rng, 1e3), arr(rng)
                if k == "lind":
                    rate = ct.LindemannRate(lo, hi, [])
                elif k == "troe3":
                    rate = ct.TroeRate(lo, hi, [round(rng.uniform(.1, .9), 3), 123.25, 1537.5])
                elif k == "troe4":
                    rate = ct.TroeRate(lo, hi, [round(rng.uniform(.1, .9), 3), 94.0, 1555.0, 4200.0])
                elif k == "sri3":
                    rate = ct.SriRate(lo, hi, [0.45, 797.0, 979.0])
                else:
                    rate = ct.SriRate(lo, hi, [0.45, 797.0, 979.0, 1.25, 0.12])
                expl = rng.random() < 0.15
                c = rng.choice([s for s in ("AR", "N2", "CO2", "H2O") if s in names] or ["M"])
                if expl and c != "M":
                    out.append(ct.Reaction(equation=f"{l} (+{c}) <=> {r} (+{c})", rate=rate))
                else:
                    out.append(ct.Reaction(equation=f"{l} (+M) <=> {r} (+M)", rate=rate, third_body=ct.ThirdBody(efficiencies=effs(rng, names))))
    return out


def _abc(a):
    return a.pre_exponential_factor, a.temperature_exponent, a.activation_energy


def rich_model(rng, names=None, n=None, fname=None, kinds=None, transport="mixture-averaged", name="gas"):
    names = list(names or RICH)
    s, sp, rx = gri()
    species = {x.name: x for x in sp}
    sol = ct.Solution(thermo="ideal-gas", kinetics="bulk", species=[species[x] for x in names],
                      reactions=rich_reactions(rng, names, n or rng.randint(6, 16), kinds), transport_model=transport)
    sol.name = name
    if fname:
        sol.write_yaml(fname)
        sol = ct.Solution(fname)
    return sol
