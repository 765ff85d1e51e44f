"""One simulation from its condition to its results (C16, C17, C18): constructed, set
up and evaluated by the real code; solvers are arbitrary."""
from .common import *
from pyvc.core import ProgExc
from pyvc.interp import Ext, ext, upd, CanteraError
from pyvc.lib_ct import ONE_ATM, MKX, MKEQ, MKYC, MKY, YOF, SOLUTION, Ob

S = Str
MAKERS = {"ignition": ("InputIgnition", "IgnitionSimulation"), "psr": ("InputPSR", "PSRSimulation"), "flame": ("InputLaminarFlame", "FlameSimulation")}


class Condition:
    """an arbitrary condition and the simulation made for it"""

    def __init__(self, ip, kind, extra=(), **kw):
        e = core.E
        self.ip = ip
        self.T, self.p, self.phi = e.const("temperature", R), e.const("pressure", R), e.const("equivalence_ratio", R)
        self.ctype = e.const("composition_type", S)
        e.assume(And(self.T > 0, self.p > 0, self.phi >= 0))
        self.mix = {}
        for k in ("fuel", "oxidizer", "reactants"):
            self.mix[k] = alloc("dict", C.symdict("cond:" + k, ()), z3.Const("comp:" + k, Ob))
        args = dict(temperature=self.T, pressure=self.p, equivalence_ratio=self.phi, composition_type=self.ctype, **self.mix)
        args.update(extra)
        self.inp, cls = MAKERS[kind]
        self.model, self.phase, self.path, self.idx = e.const("model", S), e.const("phase", S), e.const("path", S), e.const("idx", I)
        e.assume(And(ip.fs.c["has"](self.model), self.idx >= 0))
        self.mod = C.PHASE(ip.fs.c["mod"](self.model), self.phase)
        e.assume(C.NSP(self.mod) >= 1)
        self.props = ip.call(ip.fn("sampling", self.inp), [], args)
        self.sim = ip.call(ip.fn("simulation", cls), [self.idx, self.props, self.model], dict(phase_name=self.phase, path=self.path, **kw))
        self.P = self.p * real(ONE_ATM)
        m, T, P = self.mod, self.T, self.P
        c = {k: v.tag for k, v in self.mix.items()}
        self.start = z3.If(self.phi != 0, MKEQ(m, T, P, self.phi, c["fuel"], c["oxidizer"]),
                           z3.If(self.ctype == lit("mole"), MKX(m, T, P, c["reactants"]), MKYC(m, T, P, c["reactants"])))

    def check_start(self, gas, what):
        """the gas is in the state of the condition"""
        e = core.E
        if not (isinstance(gas, Ref) and gas.tag is SOLUTION):
            e.fail(f"{what} uses the model", repr(gas))
            raise PathEnd()
        k = z3.FreshConst(I, "!y")
        again = MKY(self.mod, self.T, self.P, core.lam([k], simp(YOF(self.start, k))))
        e.prove(f"{what} uses the given model and phase", gas.c["mod"] == self.mod if gas.c["mod"] is not None else z3.BoolVal(False))
        e.prove(f"{what} starts from the temperature and pressure of the condition", And(real(gas.c["T"]) == self.T, real(gas.c["P"]) == self.P))
        e.prove(f"{what} starts from the mixture of the condition", Or(gas.c["st"] == self.start, gas.c["st"] == again))

    def get(self, name):
        return self.ip.getattr(self.sim, name)

    def run(self, name, *a, **k):
        """(result, None) or (None, exception)"""
        try:
            return self.ip.call(self.get(name), list(a), k), None
        except ProgExc as ex:
            return None, ex


def tuple_of(ip, v, n):
    if isinstance(v, tuple) and len(v) == n:
        return v
    core.E.fail(f"{n} values are returned", repr(v))
    raise PathEnd()


# ------------------------------------------------------------------- flames
FV, FT, FY = z3.Function("flame.velocity", I, I, R), z3.Function("flame.T", I, I, R), z3.Function("flame.Y", I, I, I, R)
FP = z3.Const("flame.P", R)
FN = z3.Function("flame.points", I, I)


class Flame(Ext):
    """FreeFlame; the profile changes when it is solved (state 0: not solved)"""
    name = "FreeFlame"

    def m_set_refine_criteria(self, r, *a, **k):
        pass

    def m_solve(self, r, *a, **k):
        cond = r.c["cond"]
        cond.check_start(r.c["gas"], "the flame")
        upd(r, state=r.c["state"] + 1)
        r.c["log"].append("solve")
        if core.E.decide(r.c["fails"]):
            core.throw(CanteraError, "no convergence")

    def arr(self, r, f):
        s = z3.IntVal(r.c["state"])
        return alloc("arr", ArrC([Axis(FN(s))], lambda i: f(s, i)))

    def g_velocity(self, r):
        return self.arr(r, FV)

    def g_T(self, r):
        return self.arr(r, FT)

    def g_P(self, r):
        return FP

    def g_Y(self, r):
        s = z3.IntVal(r.c["state"])
        return alloc("arr", ArrC([Axis(C.NSP(r.c["cond"].mod)), Axis(FN(s))], lambda j, i: FY(s, i, j)))


FLAME = Flame()
SAMPLED = z3.Function("sampled", I, I, R)


def flame_contract(prop):
    def scene(ip):
        e = core.E
        width = e.const("width", R)
        floor = Opt(e.const("floor_given", B), e.const("floor", R))
        e.assume(And(width > 0, FN(1) >= 1, FN(0) >= 1))
        cn = Condition(ip, "flame", dict(width=width), min_flame_speed=floor)
        fails = e.const("solver fails", B)
        made = []

        def free(gas, grid=None, width=None, **k):
            made.append(width)
            f = ext(FLAME, gas=gas, cond=cn, state=0, fails=fails, log=[])
            return f
        ip.lib["%ct.FreeFlame"] = free
        cover(ip)
        _, ex = cn.run("setup_case")
        if ex is not None:
            e.fail("set up", str(ex))
            raise PathEnd()
        if len(made) != 1:
            e.fail("one flame", repr(made))
            raise PathEnd()
        e.prove("the given width is used", real(made[0]) == width)
        used = z3.If(floor.cond, floor.v, core.real(Fraction("0.05")))
        speed = FV(1, 0)
        ok = And(Not(fails), speed > used)
        return cn, ok, speed

    def solved(cn):
        f = cn.get("flame")
        if f.c["state"] != 1:
            core.E.fail("the flame is solved once", repr(f.c["log"]))
            raise PathEnd()
        return f

    @vc(prop, "FlameSimulation.calculate: the speed of a detected flame, or zero", functions=["simulation.BaseSimulation.__init__", "simulation.FlameSimulation.__init__", "simulation.FlameSimulation.setup_case", "simulation.BaseSimulation._setup_gas", "simulation.FlameSimulation.calculate", "simulation.FlameSimulation._flame_detected", "simulation.FlameSimulation._solve_flame"])
    def calculate(ip):
        e = core.E
        cn, ok, speed = scene(ip)
        d, ex = cn.run("calculate")
        if ex is not None:
            e.fail("a candidate without a flame is not an error", str(ex))
            return
        solved(cn)
        cover_end(ip, "a result")
        e.prove("the speed at the unburned side of a detected flame, otherwise zero", real(d) == z3.If(ok, speed, z3.RealVal(0)))
        e.prove("the value is kept", real(cn.get("flame_speed")) == real(d))

    def original(ip, name, *a):
        e = core.E
        cn, ok, speed = scene(ip)
        args = []

        def stub(ip_, b):
            vals = [v for k, v in b.items() if k not in ("cls", "self")]
            args.append(vals)
            return alloc("arr", ArrC([Axis(20), Axis(simp(2 + C.NSP(cn.mod)))], lambda i, j: SAMPLED(i, j)), "sampled")
        ip.contracts["simulation.BaseSimulation._sample_profile"] = stub
        d, ex = cn.run(name, *a)
        if ex is not None:
            if ex.exc.cls is not RuntimeError:
                e.fail("a missing flame is reported as RuntimeError", str(ex))
            e.prove("an error only without a flame", Not(ok))
            raise PathEnd()
        solved(cn)
        e.prove("no flame is an error for the original model", ok)
        return cn, d, speed, args

    @vc(prop, "FlameSimulation.run_case: the speed of a detected flame, or an error", functions=["simulation.FlameSimulation.run_case"])
    def run(ip):
        e = core.E
        cn, d, speed, _ = original(ip, "run_case")
        cover_end(ip, "a result")
        e.prove("the speed at the unburned side", real(d) == speed)
        e.prove("the value is kept", real(cn.get("flame_speed")) == speed)

    @vc(prop, "FlameSimulation.process_results: speed and states of the solved profile, or an error", functions=["simulation.FlameSimulation.process_results"])
    def process(ip):
        e = core.E
        cn, d, speed, args = original(ip, "process_results")
        cover_end(ip, "a result")
        v, data = tuple_of(ip, d, 2)
        e.prove("the speed at the unburned side", real(v) == speed)
        if len(args) != 1:
            e.fail("the profile is sampled once", repr(len(args)))
            return
        if not (isinstance(data, Ref) and data.tag == "sampled"):
            e.fail("the sampled states are returned", repr(data))
        T, P, Y = (A.arrc(x) for x in args[0])
        n, m = FN(1), C.NSP(cn.mod)
        i, s = e.const("i", I), e.const("s", I)
        e.assume(And(in_range(i, n), in_range(s, m)))
        e.prove("as many states as points", And(num(A.count(T.axes[0])) == n, num(A.count(P.axes[0])) == n, num(A.count(Y.axes[0])) == n, num(A.count(Y.axes[1])) == m))
        e.prove("temperatures of the solved profile", real(T.at(i)) == FT(1, i))
        e.prove("pressure of the flame", real(P.at(i)) == FP)
        e.prove("mass fractions of the solved profile", real(Y.at(i, s)) == FY(1, i, s))

    @vc(prop, "FlameSimulation.process_results(skip_data): the speed", functions=["simulation.FlameSimulation.process_results"])
    def skip(ip):
        cn, d, speed, args = original(ip, "process_results", True)
        cover_end(ip, "a result")
        core.E.prove("the speed at the unburned side", real(d) == speed)


# ------------------------------------------------------------------ reactors
POINTS = ("extinction", "log_mid", "near_0.1s")
PTAU, PT = ({k: z3.Function(f"psr.{k}.{w}", I, R) for k in POINTS} for w in ("tau", "T"))
PY = {k: z3.Function(f"psr.{k}.Y", I, I, R) for k in POINTS}


def psr_contract(prop):
    def scene(ip):
        e = core.E
        cn = Condition(ip, "psr")
        cn.calls = 0
        cn.fail = []
        cover(ip)

        def trace(ip_, b):
            gas = next(iter(b.values()))
            cn.check_start(gas, "the response curve")
            cn.calls += 1
            t = z3.IntVal(cn.calls)
            # the gas is used as scratch
            upd(gas, T=e.const("scratch.T", R), P=e.const("scratch.P", R), st=e.const("scratch", C.St))
            how = e.const("no curve", B)
            cn.fail.append(how)
            if e.decide(how):
                core.throw(CanteraError if e.decide(e.const("solver fails", B)) else RuntimeError, "no curve")
            m = C.NSP(cn.mod)
            pts = []
            for k in POINTS:
                y = alloc("arr", ArrC([Axis(m)], lambda i, k=k: PY[k](t, i)))
                pts.append((k, (PTAU[k](t), PT[k](t), y)))
            return alloc("dict", DictC(items=(("points", alloc("dict", DictC(items=tuple(pts)))),)))
        ip.contracts["psr_solver.trace_extinction_curve"] = trace
        _, ex = cn.run("setup_case")
        if ex is not None:
            e.fail("set up", str(ex))
            raise PathEnd()
        return cn

    def metrics(cn, d, t, zero=None):
        e = core.E
        a = A.arrc(d)
        if len(a.axes) != 1:
            e.fail("three values", repr(d))
            return
        e.prove("three values", num(A.count(a.axes[0])) == 3)
        for i, w in enumerate((PTAU["extinction"], PT["log_mid"], PT["near_0.1s"])):
            want = w(z3.IntVal(t))
            e.prove("residence time at extinction, temperatures at the midpoint and near 0.1 s" + (", or zeros" if zero is not None else ""),
                    real(a.at(z3.IntVal(i))) == (want if zero is None else z3.If(zero, z3.RealVal(0), want)))

    FN_ = ["simulation.PSRSimulation." + x for x in ("setup_case", "_detect", "_metrics")]

    def same(cn, d):
        a, b = A.arrc(cn.get("psr_metrics")), A.arrc(d)
        for i in range(3):
            core.E.prove("the value is kept", real(a.at(z3.IntVal(i))) == real(b.at(z3.IntVal(i))))

    @vc(prop, "PSRSimulation.calculate: the three metrics, or zeros", functions=FN_ + ["simulation.PSRSimulation.calculate"])
    def calculate(ip):
        e = core.E
        cn = scene(ip)
        for t in (1, 2):
            d, ex = cn.run("calculate")
            if ex is not None:
                e.fail("a candidate without a curve is not an error", str(ex))
                return
            if cn.calls != t:
                e.fail("the curve is traced once per evaluation", str(cn.calls))
                return
            metrics(cn, d, t, cn.fail[-1])
            same(cn, d)
        cover_end(ip, "a result")

    def original(ip, cn, name, *a):
        e = core.E
        n = cn.calls
        d, ex = cn.run(name, *a)
        if cn.calls != n + 1:
            e.fail("the curve is traced once per evaluation", str(cn.calls - n))
            raise PathEnd()
        if ex is not None:
            if ex.exc.cls is not RuntimeError:
                e.fail("a missing curve is reported as RuntimeError", str(ex))
            e.prove("an error only without a curve", cn.fail[-1])
            raise PathEnd()
        e.prove("no curve is an error for the original model", Not(cn.fail[-1]))
        return d

    @vc(prop, "PSRSimulation.run_case: the three metrics, or an error", functions=FN_ + ["simulation.PSRSimulation.run_case"])
    def run(ip):
        cn = scene(ip)
        d = original(ip, cn, "run_case")
        cover_end(ip, "a result")
        metrics(cn, d, 1)
        same(cn, d)

    for first in (None, "calculate", "process_results"):
        @vc(prop, "PSRSimulation.process_results: metrics and states of the three points, or an error" + (f" (after {first})" if first else ""), functions=FN_ + ["simulation.PSRSimulation.process_results"])
        def process(ip, first=first):
            e = core.E
            cn = scene(ip)
            t = 1
            if first:
                cn.run(first)
                t = 2
            d = original(ip, cn, "process_results")
            cover_end(ip, "a result")
            v, data = tuple_of(ip, d, 2)
            metrics(cn, v, t)
            same(cn, v)
            a = A.arrc(data)
            m = C.NSP(cn.mod)
            if len(a.axes) != 2:
                e.fail("a row per point", repr(data))
                return
            e.prove("three states of temperature, pressure and mass fractions", And(num(A.count(a.axes[0])) == 3, num(A.count(a.axes[1])) == 2 + m))
            s = e.const("s", I)
            e.assume(in_range(s, m))
            for i, k in enumerate(POINTS):
                i = z3.IntVal(i)
                e.prove(f"{k}: temperature of the point", real(a.at(i, z3.IntVal(0))) == PT[k](z3.IntVal(t)))
                e.prove(f"{k}: inlet pressure", real(a.at(i, z3.IntVal(1))) == cn.P)
                e.prove(f"{k}: mass fractions of the point", real(a.at(i, simp(s + 2))) == PY[k](z3.IntVal(t), s))

    @vc(prop, "PSRSimulation.process_results(skip_data): the metrics", functions=FN_ + ["simulation.PSRSimulation.process_results"])
    def skip(ip):
        cn = scene(ip)
        d = original(ip, cn, "process_results", True)
        cover_end(ip, "a result")
        metrics(cn, d, 1)
