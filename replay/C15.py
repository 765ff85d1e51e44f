from runs import *
from C08 import inputs
import yaml, io


def bound(fn, a, k):
    ba = inspect.signature(fn).bind(*a, **k)
    ba.apply_defaults()
    return dict(ba.arguments)


class Stubs:
    def __init__(self, rng):
        self.calls = []
        self.rng = rng

    @contextlib.contextmanager
    def on(self):
        with contextlib.ExitStack() as st:
            for name, fn in (("DRG", drg.run_drg), ("DRGEP", drgep.run_drgep), ("PFA", pfa.run_pfa), ("SA", sensitivity_analysis.run_sa)):
                st.enter_context(replaced_everywhere(fn, self.stub(name, fn)))
            yield self

    def stub(self, name, fn):
        def f(*a, **k):
            res = reduce_model.ReducedModel(model=None, filename=f"reduced_{self.rng.randint(1, 99)}.yaml", error=self.rng.uniform(0, 5),
                                            limbo_species=[f"L{self.rng.randint(0, 99)}"] if self.rng.random() < 0.7 else [])
            self.calls.append((name, bound(fn, a, k), res))
            return res
        return f


def body(b):
    rng = b.rng
    from pymars import tools

    def verify(calls, s, inp):
        """s: the settings that must reach the steps"""
        seq = [c[0] for c in calls]
        want = ([s["method"]] if s["method"] else []) + (["SA"] if s["sa"] else [])
        if not b.check(seq == want, "steps performed", got=seq, expected=want, **inp):
            return
        for name, a, res in calls:
            common = dict(error_limit=s["error"], phase_name=s["phase"], num_threads=s["threads"], path=s["path"], min_flame_speed=s["speed"],
                          ignition_conditions=s["ign"], psr_conditions=s["psr"], flame_conditions=s["flame"])
            for k, v in common.items():
                g = a[k]
                if isinstance(v, list):
                    g = list(g)
                b.check(g == v, f"{k} in {name}", got=g, expected=v, **inp)
            if name != "SA":
                b.check(a["model_file"] == s["model"], f"model in {name}", got=a["model_file"], expected=s["model"], **inp)
                b.check(list(a["species_targets"]) == s["targets"], f"targets in {name}", got=a["species_targets"], expected=s["targets"], **inp)
                safe = set(a["species_safe"])
                b.check(safe - set(s["targets"]) == s["protected"] - set(s["targets"]), f"retained species in {name}", got=sorted(safe), expected=sorted(s["protected"]), **inp)
                if True:
                    b.check(a["threshold_upper"] == s["upper"], f"upper threshold in {name}", got=a["threshold_upper"], expected=s["upper"], **inp)
            else:
                b.check(a["algorithm_type"] == s["type"], "type of sensitivity analysis", got=a["algorithm_type"], expected=s["type"], **inp)
                b.check(set(a["species_safe"]) == s["protected"], "protected species in sensitivity analysis", got=sorted(a["species_safe"]), expected=sorted(s["protected"]), **inp)
                prev = calls[0][2] if s["method"] else None
                exp = (prev.filename, prev.error, list(prev.limbo_species)) if prev else (s["model"], 0.0, [])
                got = (a["model_file"], a["starting_error"], list(a["species_limbo"]))
                b.check(got == exp, "start of the sensitivity analysis", got=got, expected=exp, **inp)

    def random_input(sc, d):
        d = dict(d)
        d["method"] = rng.choice(["DRG", "DRGEP", "PFA", "DRG", "DRGEP", None])
        if d["method"] is None:
            del d["method"]
            d["sensitivity-analysis"] = True
            if rng.random() < 0.5:
                d.pop("targets", None)
        elif rng.random() < 0.5:
            d["sensitivity-analysis"] = rng.choice([True, True, False])
        if rng.random() < 0.5:
            d["sensitivity-type"] = rng.choice(["greedy", "initial"])
        if rng.random() < 0.5:
            d["upper-threshold"] = rng.choice([0.05, 0.3, 0.2])
        if rng.random() < 0.5:
            d["min-flame-speed"] = rng.choice([0.01, 0.2])
        d["error"] = rng.choice([1, 5.5, 10.0, 99])
        if sc.phase:
            d["phase-name"] = sc.phase
        items = list(d.items())
        rng.shuffle(items)
        return dict(items)

    def settings(sc, d, argv_threads, path, model):
        fns = {"ign": (sampling.parse_ignition_inputs, "autoignition-conditions"), "psr": (sampling.parse_psr_inputs, "psr-conditions"), "flame": (sampling.parse_flame_inputs, "laminar-flame-conditions")}
        s = {k: list(fn(model, d.get(key, {}), sc.phase)) for k, (fn, key) in fns.items()}
        prot = set(d.get("targets", [])) | set(d.get("retained-species", []))
        for k, (fn, key) in fns.items():
            for c in d.get(key, []):
                for m in ("fuel", "oxidizer", "reactants"):
                    prot |= set(c.get(m, {}))
        s.update(model=model, error=d["error"], method=d.get("method"), sa=bool(d.get("sensitivity-analysis")), targets=list(d.get("targets", [])), protected=prot, phase=sc.phase,
                 upper=d.get("upper-threshold") or (0.1 if d.get("sensitivity-analysis") else None), type=d.get("sensitivity-type", "initial"), speed=d.get("min-flame-speed"),
                 threads=argv_threads, path=path)
        return s

    b.section("settings of whole runs")
    for k in range(b.n(120, 1200)):
        if not b.time_left(0.6):
            break
        with scratch():
            sc = Scenario(rng, "DRG", n=8, phase=rng.choice(["", "", "ph"]))
            d, _ = inputs(rng, sc)
            d = random_input(sc, d)
            argv = ["-i", "in.yaml"] if rng.random() < 0.5 else ["--input", "in.yaml"]
            threads, path = 1, ""
            if rng.random() < 0.5:
                t = rng.choice([None, 1, 2, 7])
                argv += ["--num_threads"] + ([str(t)] if t is not None else [])
                threads = 0 if t is None else t
            if rng.random() < 0.5:
                path = rng.choice(["out", "a/b"])
                os.makedirs(path)
                argv += ["--path", path] if rng.random() < 0.5 else [f"--path={path}"]
            with open("in.yaml", "w") as f:
                yaml.safe_dump(d, f, sort_keys=False)
            b.case(d, argv)
            inp = dict(input=d, argv=argv)
            st = Stubs(rng)
            other = ["other", "--num_threads", "5", "--path", "zzz"]
            with st.on(), patched((sys, "argv", other)):
                _, e = b.expect("pymars", pm.pymars, argv, _inp=inp)
            if e is None:
                verify(st.calls, settings(sc, d, threads, path, sc.fname), inp)
    b.section("Chemkin model")
    for k in range(b.n(14, 80)):
        if not b.time_left(0.7):
            break
        with scratch():
            sc = Scenario(rng, "DRG", n=8, phase="")
            d, _ = inputs(rng, sc)
            d = random_input(sc, d)
            d["model"] = rng.choice(["mech.inp", "chem.dat", "mech.cti.inp"])
            open(d["model"], "w").write("!")
            argv = ["-i", "in.yaml"]
            path, th, tr = "", None, None
            if rng.random() < 0.5:
                path = "out"
                os.mkdir(path)
                argv += ["--path", path]
            if rng.random() < 0.7:
                th = "therm.dat"
                argv += ["--thermo", th]
            if rng.random() < 0.7:
                tr = "tran.dat"
                argv += ["--transport", tr]
            with open("in.yaml", "w") as f:
                yaml.safe_dump(d, f)
            b.case("chemkin", d, argv)
            conv = []

            def convert(*a, **k2):
                conv.append(bound(tools_convert, a, k2))
                return sc.fname
            tools_convert = tools.convert
            st = Stubs(rng)
            inp = dict(input=d, argv=argv)
            with st.on(), replaced_everywhere(tools_convert, convert):
                _, e = b.expect("pymars", pm.pymars, argv, _inp=inp)
            if e is None:
                b.check(len(conv) == 1 and conv[0] == dict(model_file=d["model"], thermo_file=th, transport_file=tr, path=path), "conversion of the Chemkin model", got=conv, **inp)
                verify(st.calls, settings(sc, d, 1, path, sc.fname), inp)
    b.section("conversion only")
    for k in range(b.n(10, 40)):
        with scratch():
            argv = ["--convert", "-m", "x.yaml"]
            want = dict(model_file="x.yaml", thermo_file=None, transport_file=None, path="")
            if rng.random() < .5:
                argv += ["--thermo", "t"]
                want["thermo_file"] = "t"
            if rng.random() < .5:
                argv += ["--transport", "u"]
                want["transport_file"] = "u"
            if rng.random() < .5:
                argv += ["--path", "d"]
                want["path"] = "d"
            conv = []
            tools_convert = tools.convert
            st = Stubs(rng)
            b.case(argv)
            with st.on(), replaced_everywhere(tools_convert, lambda *a, **k2: conv.append(bound(tools_convert, a, k2)) or ["a", "b"]):
                _, e = b.expect("pymars", pm.pymars, argv, _inp=dict(argv=argv))
            if e is None:
                b.check(conv == [want] and not st.calls, "conversion", got=conv, expected=want)
    b.section("inputs that must be rejected")
    for k in range(b.n(150, 1000)):
        if not b.time_left(0.95):
            break
        with scratch():
            sc = Scenario(rng, "DRG", n=8, phase=rng.choice(["", "ph"]))
            d, _ = inputs(rng, sc)
            d = random_input(sc, d)
            good = {k2: (list(v) if isinstance(v, list) else v) for k2, v in d.items()}
            conds = [c for c in ("autoignition-conditions", "psr-conditions", "laminar-flame-conditions") if c in d]
            what = rng.choice(["model", "model file", "error", "no error", "method", "no method", "no targets", "target", "retained", "no conditions", "condition", "reactant", "phase"])
            if what == "model":
                d.pop("model")
            elif what == "model file":
                d["model"] = "absent.yaml"
            elif what == "error":
                d["error"] = 0
            elif what == "no error":
                d.pop("error")
            elif what == "method":
                d["method"] = rng.choice(["drg", "DRGP", "SA", "DRGEPSA", "PFAX"])
                d.setdefault("targets", [sc.names[0]])
            elif what == "no method":
                d.pop("method", None)
                d.pop("sensitivity-analysis", None)
            elif what == "no targets":
                d["method"] = rng.choice(["DRG", "DRGEP", "PFA"])
                d["targets"] = []
                if rng.random() < .5:
                    del d["targets"]
            elif what == "target":
                d["targets"] = list(d.get("targets", [])) + ["QQ"]
            elif what == "retained":
                d["retained-species"] = ["QQ"] + list(d.get("retained-species", []))
            elif what == "no conditions":
                for c in conds:
                    d.pop(c)
            elif what == "condition":
                c = rng.choice(conds)
                d[c] = [dict(x) for x in d[c]]
                rng.choice(d[c])["temperature"] = -1
            elif what == "reactant":
                c = rng.choice(conds)
                d[c] = [dict(x) for x in d[c]]
                x = rng.choice(d[c])
                key = "reactants" if "reactants" in x else rng.choice(["fuel", "oxidizer"])
                x[key] = dict(x[key], QQ=1.0)
            elif what == "phase":
                d["phase-name"] = "nonsense"
            b.case(what, d)
            with open("in.yaml", "w") as f:
                yaml.safe_dump(d, f)
            st = Stubs(rng)
            bad = None
            with st.on():
                try:
                    pm.pymars(["-i", "in.yaml"])
                    bad = "accepted"
                except (Exception, SystemExit) as e:
                    if isinstance(e, SystemExit) and e.code in (0, None):
                        bad = "ended without error"
            b.check(bad is None and not st.calls, f"invalid input ({what}) was not rejected", input=d, steps=[c[0] for c in st.calls])
    b.section("library call")
    for k in range(b.n(40, 300)):
        with scratch():
            sc = Scenario(rng, "DRG", n=7)
            m = rng.choice(["DRG", "DRGEP", "PFA", None])
            sa = rng.random() < .6 or m is None
            upper = rng.choice([None, 0.2])
            ty = rng.choice(["greedy", "initial"])
            speed = rng.choice([None, 0.3])
            th = rng.choice([1, 4, 0])
            path = rng.choice(["", "q"])
            st = Stubs(rng)
            b.case(m, sa, upper, ty, speed, th, path, sc.world.seed)
            inp = dict(sc.info(), method_=m, sa=sa)
            with st.on():
                res, e = b.expect("main", pm.main, sc.fname, sc.limit, sc.ign, sc.psr, sc.flame, method=m, target_species=sc.targets, safe_species=sc.safe, phase_name=sc.phase,
                                  run_sensitivity_analysis=sa, upper_threshold=upper, sensitivity_type=ty, path=path, num_threads=th, min_flame_speed=speed, _inp=inp)
            if e is None:
                verify(st.calls, dict(method=m, sa=sa, error=sc.limit, phase=sc.phase, threads=th, path=path, speed=speed, ign=sc.ign, psr=sc.psr, flame=sc.flame, model=sc.fname,
                                      targets=sc.targets, protected=sc.protected(), upper=upper, type=ty), inp)
                b.check(st.calls and res is st.calls[-1][2] or (res is not None and st.calls and res == st.calls[-1][2]), "result of the run", **inp)


if __name__ == "__main__":
    main("C15", body)
