from runs import *
import multiprocessing


@contextlib.contextmanager
def observed(world, delays, log):
    """simulations that write down how they were called, and finish in any order"""
    S = simulation
    with world.simulations():
        def wrap(kind, orig, what):
            def f(self, *a, **k):
                time.sleep(delays[(kind, self.idx)])
                with open(log, "a") as fh:
                    fh.write(json.dumps([what, kind, self.idx, str(self.model), self.phase_name, self.path, repr(self.properties), getattr(self, "min_flame_speed", None)]) + "\n")
                return orig(self, *a, **k)
            return f
        pairs = []
        for cls, kind in ((S.IgnitionSimulation, "ign"), (S.PSRSimulation, "psr"), (S.FlameSimulation, "flame")):
            pairs += [(cls, "calculate", wrap(kind, cls.calculate, "calculate")), (cls, "process_results", wrap(kind, cls.process_results, "process"))]
        with patched(*pairs):
            yield


def body(b):
    rng = b.rng
    from pymars.sampling import InputIgnition, InputPSR, InputLaminarFlame
    b.section("order and number of processes")
    kinds_all = [(3, 0, 0), (0, 3, 0), (0, 0, 3), (2, 2, 2), (4, 0, 1), (1, 2, 0), (0, 1, 3), (1, 1, 1), (11, 0, 0), (0, 0, 12), (3, 11, 2)]
    for k in range(b.n(40, 300)):
        if not b.time_left():
            break
        with scratch():
            sol = random_model(rng, 7, "model.yaml", name=rng.choice(["gas", "ph"]))
            phase = rng.choice(["", sol.name])
            w = World(rng, sol.species_names)
            w.zero_prob = 0
            ni, npsr, nf = rng.choice(kinds_all)
            r = {sol.species_names[0]: 1.0}
            ign = [InputIgnition("constant volume", 1000 + 10 * i, 1.0 + i, end_time=1.0, reactants=r) for i in range(ni)]
            psr = [InputPSR(300.0 + i, 1.0 + i, reactants=r) for i in range(npsr)]
            fl = [InputLaminarFlame(300.0 + i, 1.0 + i, reactants=r) for i in range(nf)]
            threads = rng.choice([1, 2, 3, 0, 8])
            cpus = rng.choice([1, 2, 4])
            speed = rng.choice([None, 0.2])
            path = rng.choice(["", "out"])
            if path:
                os.mkdir(path)
            mode = rng.choice(["up", "down", "random", "none"])
            delays = {}
            for kind, n in (("ign", ni), ("psr", npsr), ("flame", nf)):
                for i in range(n):
                    delays[(kind, i)] = 0 if threads == 1 else 0.012 * {"up": i, "down": n - i, "random": rng.random() * n, "none": 0}[mode]
            log = os.path.abspath("calls.log")
            inp = dict(seed=w.seed, cases=(ni, npsr, nf), threads=threads, cpus=cpus, delays=mode, phase=phase, path=path, speed=speed)
            b.case(w.seed, ni, npsr, nf, threads, mode)
            want = w.all_metrics(sol.species_names, ign, psr, fl)
            for what in ("calculate", "process"):
                if os.path.exists(log):
                    os.remove(log)
                for f in DATA:
                    if os.path.exists(f):
                        os.remove(f)
                rows = None
                kw = dict(psr_conditions=psr, flame_conditions=fl, phase_name=phase, num_threads=threads, path=path, min_flame_speed=speed)
                with observed(w, delays, log), patched((multiprocessing, "cpu_count", lambda: cpus), (os, "cpu_count", lambda: cpus)):
                    fn = sampling.sample_metrics if what == "calculate" else sampling.sample
                    got, e = b.expect(fn.__name__, fn, "model.yaml", ign, _inp=inp, **kw)
                if e is not None:
                    continue
                if what == "process":
                    got, rows = got
                got = np.asarray(got)
                b.check(got.shape == want.shape and np.array_equal(got, want), f"{fn.__name__}: metrics or their order", got=list(got), expected=list(want), **inp)
                calls = [json.loads(x) for x in open(log)] if os.path.exists(log) else []
                exp = []
                for kind, cs in (("ign", ign), ("psr", psr), ("flame", fl)):
                    for i, c in enumerate(cs):
                        sp = (speed if speed is not None else simulation.FlameSimulation.min_flame_speed) if kind == "flame" else None
                        exp.append([what, kind, i, "model.yaml", phase, path, repr(c), sp])
                b.check(sorted(map(repr, calls)) == sorted(map(repr, exp)), f"{fn.__name__}: each case computed once with the given settings",
                        unexpected=[c for c in calls if c not in exp][:3], missing=[c for c in exp if c not in calls][:3], **inp)
                if rows is not None:
                    gas = ct.Solution("model.yaml", phase)
                    wr = [x for kind, cs, n in (("ign", ign, 20), ("psr", psr, 3), ("flame", fl, 20)) for i in range(len(cs)) for x in w.rows(kind, i, gas, n)]
                    b.check(np.shape(rows) == np.shape(wr) and np.array_equal(rows, np.array(wr)), "sampled states or their order", **inp)


if __name__ == "__main__":
    main("C12", body)
