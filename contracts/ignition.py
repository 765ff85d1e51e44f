"""Autoignition: the integration is a sequence of states TIME(k), TEMP(k), PRES(k),
Y(k, s), VAR(k, c) after k steps; step k+1 fails if FAIL(k).  All are arbitrary."""
import ast
from .common import *
from pyvc.core import ProgExc
from pyvc import loops
from pyvc.values import For
from pyvc.interp import Ext, ext, upd
from pyvc.interp import CanteraError
from .c06 import sk

TIME, TEMP, PRES = (z3.Function("ignition." + x, I, R) for x in ("time", "temperature", "pressure"))
YF = z3.Function("ignition.Y", I, I, R)
VAR = z3.Function("ignition.state", I, I, R)
FAIL = z3.Function("ignition.fails", I, B)
S = Str


class Net(Ext):
    """ReactorNet: one integration step at a time"""
    name = "ReactorNet"

    def setattr(self, r, n, v):
        if n != "preconditioner":
            raise Unsupported(f"setting {n} of the reactor network")

    def m_step(self, r):
        if core.E.decide(FAIL(num(r.c["j"]))):
            core.throw(CanteraError, "integration failed")
        upd(r, j=simp(num(r.c["j"]) + 1))
        return TIME(num(r.c["j"]))

    def m_reinitialize(self, r):
        pass

    def m_get_state(self, r):
        j = num(r.c["j"])
        return alloc("arr", ArrC([Axis(r.c["n_vars"])], lambda c: VAR(j, c)))

    def g_time(self, r):
        return TIME(num(r.c["j"]))


class Reac(Ext):
    name = "Reactor"

    def j(self, r):
        return num(r.c["net"].c["j"])

    def g_T(self, r):
        return TEMP(self.j(r))

    def g_Y(self, r):
        j = self.j(r)
        return alloc("arr", ArrC([Axis(r.c["m"])], lambda s: YF(j, s)))

    def g_phase(self, r):
        return ext(PHASEV, reac=r)

    g_thermo = g_phase


class PhaseV(Ext):
    name = "phase of the reactor"

    def g_P(self, r):
        return PRES(REAC.j(r.c["reac"]))

    def g_T(self, r):
        return REAC.g_T(r.c["reac"])

    def g_Y(self, r):
        return REAC.g_Y(r.c["reac"])


NET, REAC, PHASEV = Net(), Reac(), PhaseV()


class Case:
    """a simulation that is set up: its integration has not begun"""

    def __init__(self, ip, steady):
        e = core.E
        self.ip, self.steady = ip, steady
        self.net = ext(NET, j=z3.IntVal(0), rtol=e.const("rtol", R), atol=e.const("atol", R), n_vars=e.const("n_vars", I))
        self.reac = ext(REAC, net=self.net)
        cn = self.cn = prepared(ip, self.reac, self.net, lambda cn: cn.end == 0 if steady else cn.end > 0)
        upd(self.reac, m=C.NSP(cn.mod))
        self.sim, self.m, self.T0, self.end = cn.sim, C.NSP(cn.mod), cn.T, cn.end
        self.max_steps = num(cn.get("max_steps"))
        self.file = strt(cn.get("save_file"))
        k = z3.Int("k!")
        e.assume(And(TEMP(0) == self.T0, TIME(0) == 0))
        e.assume(z3.ForAll([k], Implies(k >= 1, TIME(k) > 0), patterns=[TIME(k)]))
        e.assume(And(self.net.c["n_vars"] >= 1, self.net.c["atol"] > 0, self.net.c["rtol"] > 0))

    def steps(self):
        return num(self.net.c["j"])

    def hot(self, k):
        return TEMP(k) >= self.T0 + 400

    def went(self):
        """the rise has been reached"""
        return And(EVER, HIT <= self.steps())

    def delay(self):
        return z3.If(self.went(), TIME(HIT), z3.RealVal(0))

    def residual(self, j):
        """relative change of the state in step j"""
        atol, n = self.net.c["atol"], self.net.c["n_vars"]
        ip = self.ip
        np = ip.lib["numpy"].d
        arr = alloc("arr", ArrC([Axis(n)], lambda c: (VAR(j, c) - VAR(j - 1, c)) / (MAXS(j, c) + atol)))
        return real(ip.binop(ast.Div(), np["linalg"].d["norm"].f(arr), np["sqrt"].f(n)))

    def settled(self, j):
        return self.residual(j) < 10 * self.net.c["rtol"]


HIT, EVER = z3.Const("first.hot", I), z3.Const("ever.hot", B)
MAXS = z3.Function("largest.state", I, I, R)       # over the steps so far


class Handlers(dict):
    """the contract of every loop of the simulations that integrates"""

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return True

    def get(self, key, d=None):
        return self.f if key[0].startswith("simulation.") else d


def same(a, b):
    if isinstance(b, tuple):
        return And(*[same(x, y) for x, y in zip(a, b)]) if isinstance(a, tuple) and len(a) == len(b) else z3.BoolVal(False)
    if isinstance(b, Ref) and b.kind == "arr":
        x, y = A.arrc(a), A.arrc(b)
        if len(x.axes) != 1:
            return z3.BoolVal(False)
        c, n = core.E.const("c", I), num(A.count(y.axes[0]))
        return And(num(A.count(x.axes[0])) == n, Implies(in_range(c, n), real(x.at(c)) == real(y.at(c))))
    return V.veq(a, b)


class Integration:
    """loops that integrate: after j steps, every history holds the states 0..j, flags
    tell whether the rise has been reached, delays are the time at which it was"""

    def __init__(self, sc, stops):
        """stops: loops end at the rise"""
        self.sc, self.ip, self.stops = sc, sc.ip, stops
        e = core.E
        q = z3.Int("q!")
        e.assume(Implies(EVER, And(HIT >= 1, sc.hot(HIT))))
        e.assume(z3.ForAll([q], Implies(And(q >= 1, Or(Not(EVER), q < HIT)), Not(sc.hot(q))), patterns=[TEMP(q)]))
        self.ip.loop_contracts = Handlers(self.handle)

    def handle(self, ip, loop):
        st = loop.ctx.st
        steps = any(isinstance(x, ast.Attribute) and x.attr in ("step", "_step", "advance") for x in ast.walk(st))
        isfor = hasattr(loop, "seq")
        if not steps:
            return loops.run_seq(loop.seq, loop.body, loop.ctx) if isfor else loops.plain_while(ip, loop)
        self.locate(loop)
        if isfor:
            n, _ = loops.items_of(loop)
            loops.inductive_for(ip, loop, "integration", lambda k: self.havoc(loop, k), lambda k, goal: self.facts(loop, k, goal))
        else:
            seq = [True, False, True]
            loops.inductive_while(ip, loop, "integration", lambda: self.havoc(loop, None), lambda: self.facts(loop, None, seq.pop(0)))

    def general(self, v):
        """the value as a function of the number of steps, from that at the start"""
        if is_z3(v):
            for f in (TIME, TEMP, PRES):
                if v.eq(f(z3.IntVal(0))):
                    return f
        if isinstance(v, Ref) and v.kind == "arr":
            a = A.arrc(v)
            if len(a.axes) == 1:
                c = z3.Int("c?")
                t = simp(a.at(c))
                for f, n in ((YF, self.sc.m), (VAR, self.sc.net.c["n_vars"])):
                    if t.eq(f(z3.IntVal(0), c)):
                        def g(k, f=f, n=n):
                            r = alloc("arr", ArrC([Axis(n)], lambda c: f(k, c)))
                            r.born = tuple(V.consts_of(k))
                            return r
                        g.fn = f
                        return g
        if isinstance(v, tuple):
            gs = [self.general(x) for x in v]
            if all(gs):
                return lambda k: tuple(g(k) for g in gs)
        return None

    def locate(self, loop):
        """what the loop changes, by the value it has at the start"""
        sc = self.sc
        core.E.prove("no steps before the loop", sc.steps() == 0)
        self.lists = []
        for r in core.E.heap:
            if r.kind == "list" and isinstance(r.c, tuple) and len(r.c) == 1 and isinstance(r.c[0], Elem):
                g = self.general(r.c[0].v)
                if g is not None:
                    self.lists.append((r, g))
        env = loop.ctx.env[-1].c
        self.vars = {nm: env[nm] for nm in loops.assigned_names(loop.ctx.st) if nm in env}
        self.flags, self.delays, self.largest = {}, {}, []
        for nm, v in self.vars.items():
            if isinstance(v, bool):
                self.flags[nm] = v
            elif v is None or core.is_num(v) and v == 0 or is_z3(v) and v.sort() == R and core.E.entails(v == 0):
                self.delays[nm] = v
            elif isinstance(v, Ref) and v.kind == "arr" and getattr(self.general(v), "fn", None) is VAR:
                self.largest.append(nm)
        self.delay0 = real(sc.sim.c["ignition_delay"])

    def havoc(self, loop, k):
        e, sc = core.E, self.sc
        upd(sc.net, j=e.const("steps", I) if k is None else k)
        j = sc.steps()
        for r, g in self.lists:
            i = z3.FreshConst(I, "i")
            V.setc(r, (For(i, simp(j + 1), (Elem(g(i)),)),))
        env = loop.ctx.env[-1]
        new = {}
        for nm in self.flags:
            new[nm] = e.const(nm, B)
        for nm, v in self.delays.items():
            new[nm] = Opt(e.const(nm + "?", B), e.const(nm, R)) if v is None else e.const(nm, R)
        for nm in self.largest:
            f = e.func("largest", I, R)
            new[nm] = alloc("arr", ArrC([Axis(sc.net.c["n_vars"])], lambda c: f(num(c))))
        V.setc(env, {**env.c, **new})
        self.kept = self.delay_used(loop)
        if self.kept:
            V.setc(sc.sim, {**sc.sim.c, "ignition_delay": e.const("delay", R)})

    def delay_used(self, loop):
        return True

    def facts(self, loop, k, goal):
        sc, e = self.sc, core.E
        j = sc.steps()
        out = [("the number of steps", And(j >= 0, j <= sc.max_steps) if k is not None else Or(j == 0, And(j > 0, TIME(j - 1) < sc.end)))]
        if self.stops:
            out.append(("the rise is not reached yet", Not(sc.went())))
        if k is not None:
            out.append(("one step per iteration", j == k))
            if self.largest:
                out.append(("steady state is not reached yet", Or(j == 0, Not(sc.settled(j)))))
        for r, g in self.lists:
            if goal:
                i = e.const("i", I)
                n = num(V.seq_len(r.c))
                out.append(("one entry per step", n == j + 1))
                if e.entails(n >= 1):
                    from pyvc.interp import get_noforks
                    out.append(("the history holds every step in order", Implies(in_range(i, j + 1), same(get_noforks(r.c, i), g(i)))))
        env = loop.ctx.env[-1].c
        for nm, v in self.flags.items():
            w = sc.went()
            out.append(("the flag tells whether the rise was reached", boolt(env[nm]) == (Not(w) if v else w)))
        for nm, v in self.delays.items():
            x = env[nm]
            if v is None:
                c, y = (x.cond, x.v) if isinstance(x, Opt) else (x is not None, x)
                out.append(("the delay", And(boolt(c) == sc.went(), True if y is None else Implies(sc.went(), real(y) == TIME(HIT)))))
            else:
                out.append(("the delay", real(x) == sc.delay()))
        out.append(("the delay kept", real(sc.sim.c["ignition_delay"]) == z3.If(sc.went(), TIME(HIT), self.delay0)))
        for nm in self.largest:
            c = e.const("c", I)
            a = A.arrc(env[nm])
            q = z3.Int("c!")
            if goal:
                out.append(("largest state so far", Implies(in_range(c, sc.net.c["n_vars"]), real(a.at(c)) == MAXS(j, c))))
            else:
                e.assume(z3.ForAll([q], real(a.at(q)) == MAXS(j, q)))
                e.assume(z3.ForAll([q], And(MAXS(0, q) == VAR(0, q), MAXS(j + 1, q) == z3.If(VAR(j + 1, q) > MAXS(j, q), VAR(j + 1, q), MAXS(j, q)))))
        if goal and self.largest:
            q = z3.Int("c!")
            e.assume(z3.ForAll([q], MAXS(0, q) == VAR(0, q)))
        return out


def calculate_contract(prop):
    for steady in (False, True):
        @vc(prop, f"IgnitionSimulation.calculate: first time of a 400 K rise, or zero ({'steps' if steady else 'end time'})", functions=["simulation.IgnitionSimulation.calculate", "simulation.IgnitionSimulation._step"])
        def check(ip, steady=steady):
            e = core.E
            sc = Case(ip, steady)
            Integration(sc, True)
            cover(ip)
            d = ip.call(ip.getattr(sc.sim, "calculate"), [], {})
            if not core.is_num(d) and not is_z3(d):
                e.fail("a delay is returned", repr(d))
                return
            d = real(d)
            cover_end(ip, "a result")
            j = sc.steps()
            ended = j >= sc.max_steps if steady else TIME(j) >= sc.end
            e.prove("the steps allowed are not exceeded", j <= sc.max_steps if steady else Or(j == 0, TIME(j - 1) < sc.end))
            e.prove("zero, or the time of the first step with a rise of 400 K", d == sc.delay())
            e.prove("zero only if the steps end, or fail, without the rise", Implies(Not(sc.went()), Or(FAIL(j), ended)))
            e.prove("the value is kept", real(ip.getattr(sc.sim, "ignition_delay")) == d)


def run_contract(prop):
    for steady in (False, True):
        @vc(prop, f"IgnitionSimulation.run_case, process_results: every step recorded, first time of a 400 K rise, or an error ({'steady state' if steady else 'end time'})", functions=["simulation.IgnitionSimulation.run_case", "simulation.IgnitionSimulation.process_results", "simulation.IgnitionSimulation._step"])
        def check(ip, steady=steady):
            e = core.E
            sc = Case(ip, steady)
            Integration(sc, False)
            cover(ip)
            has0 = ip.fs.c["has"]
            err = None
            try:
                d = ip.call(ip.getattr(sc.sim, "run_case"), [], {})
            except ProgExc as ex:
                err = ex
            j = sc.steps()
            ended = sc.settled(j) if steady else TIME(j) >= sc.end
            e.assume(True)
            if err is not None:
                if err.exc.cls is not RuntimeError:
                    e.fail("failures are reported as RuntimeError", str(err))
                out = And(j >= sc.max_steps, Not(sc.settled(j))) if steady else z3.BoolVal(False)
                e.prove("an error only if a step fails, steady state is not reached, or the temperature does not rise", Or(FAIL(j), out, Not(sc.went())))
                return
            cover_end(ip, "a result")
            if not core.is_num(d) and not is_z3(d):
                e.fail("a delay is returned, or an error reported", repr(d))
                return
            e.prove("the integration ended regularly", ended)
            e.prove("the rise was reached", sc.went())
            e.prove("the time of the first step with a rise of 400 K", And(real(d) == TIME(HIT)))
            e.prove("the value is kept", real(ip.getattr(sc.sim, "ignition_delay")) == real(d))
            stored = ip.fs.c["other"](sc.file)
            if not isinstance(stored, Ref):
                e.fail("the history is written to the file of the case", repr(ip.fs.c["log"]))
                return
            histories(sc, datasets(ip, stored))
            process(ip, sc, d)


def datasets(ip, groups):
    """the arrays stored in a file"""
    return [v for _, g in groups.c.items for _, v in g.c["data"].c.items if A.isarr(v)]


def histories(sc, stored):
    """time, temperature, pressure and mass fractions of every step are stored"""
    e = core.E
    j = sc.steps()
    i, s = e.const("i", I), e.const("s", I)
    snap = list(e.pc)
    e.assume(And(in_range(i, j + 1), in_range(s, sc.m)))
    for what, f in (("time", TIME), ("temperature", TEMP), ("pressure", PRES), ("mass fractions", YF)):
        for v in stored:
            a = A.arrc(v)
            if len(a.axes) != (2 if f is YF else 1):
                continue
            c = num(A.count(a.axes[0])) == j + 1
            c = And(c, num(A.count(a.axes[1])) == sc.m, real(a.at(i, s)) == YF(i, s)) if f is YF else And(c, real(a.at(i)) == f(i))
            if e.entails(c):
                e.ok(f"{what}: the start and every step, in order, are stored")
                break
        else:
            e.fail(f"{what}: the start and every step, in order, are stored", repr(stored))
    e.pc[:] = snap


def process(ip, sc, d):
    """process_results after run_case: the same delay, and states of the history"""
    from .cases import tuple_of
    e = core.E
    args = []

    def stub(ip_, b):
        args.append([v for k, v in b.items() if k not in ("cls", "self")])
        return alloc("arr", ArrC([Axis(20), Axis(simp(2 + sc.m))], lambda i, j: SAMPLED(i, j)), "sampled")
    ip.contracts["simulation.BaseSimulation._sample_profile"] = stub
    res, ex = sc.cn.run("process_results")
    if ex is not None:
        e.fail("results of a case that has run", str(ex))
        return
    d2, states = tuple_of(ip, res, 2)
    cover_end(ip, "results")
    e.prove("sampling gives the delay of the run", real(d2) == real(d))
    e.prove("the delay is kept", real(ip.getattr(sc.sim, "ignition_delay")) == real(d))
    if not (isinstance(states, Ref) and states.tag == "sampled"):
        e.fail("the sampled states are returned", repr(states))
    if len(args) != 1 or len(args[0]) != 3:
        e.fail("the history is sampled once", repr(args))
        return
    t, p, y = (A.arrc(x) for x in args[0])
    n = sc.steps() + 1
    i, s = e.const("i", I), e.const("s", I)
    e.assume(And(in_range(i, n), in_range(s, sc.m)))
    e.prove("all steps are sampled from", And(*[num(A.count(x.axes[0])) == n for x in (t, p, y)], num(A.count(y.axes[1])) == sc.m))
    e.prove("temperature, pressure and mass fractions of the steps", And(real(t.at(i)) == TEMP(i), real(p.at(i)) == PRES(i), real(y.at(i, s)) == YF(i, s)))
    del ip.contracts["simulation.BaseSimulation._sample_profile"]
    res, ex = sc.cn.run("process_results", True)
    if ex is not None:
        e.fail("results of a case that has run", str(ex))
        return
    e.prove("the delay alone, if asked for", real(res) == real(d))


# ------------------------------------------------------------- set up, results
SAMPLED = z3.Function("sampled", I, I, R)


def prepared(ip, reac=None, net=None, which=None):
    """a simulation constructed and set up from an arbitrary condition"""
    from .cases import Condition
    e = core.E
    kind = e.const("kind", S)
    end, steps = e.const("end_time", R), e.const("max_steps", I)
    e.assume(And(Or(kind == lit("constant volume"), kind == lit("constant pressure")), end >= 0, steps >= 0))
    cn = Condition(ip, "ignition", dict(kind=kind, end_time=end, max_steps=steps))
    cn.end = end
    if which is not None:
        e.assume(which(cn))
    made = dict(reactor=[], net=[])

    def reactor(name):
        def make(gas, **k):
            cn.check_start(gas, "the reactor")
            made["reactor"].append(name)
            r = reac or ext(REACTOR, gas=gas)
            made["object"] = r
            return r
        return make
    for nm in ("IdealGasConstPressureMoleReactor", "IdealGasMoleReactor", "IdealGasConstPressureReactor", "IdealGasReactor"):
        ip.lib["%ct." + nm] = reactor(nm)

    def network(reactors=(), **k):
        made["net"].append([g.v for g in ip.iter_seq(reactors)] if isinstance(reactors, Ref) else list(reactors))
        return net or ext(NETWORK)
    ip.lib["%ct.ReactorNet"] = network
    ip.lib["%ct.AdaptivePreconditioner"] = lambda *a, **k: ext(NETWORK)
    cover(ip)
    _, ex = cn.run("setup_case")
    if ex is not None:
        e.fail("set up", str(ex))
        raise PathEnd()
    cn.kind, cn.end, cn.steps, cn.made = kind, end, steps, made
    return cn


class Reactor(Ext):
    name = "Reactor"

    def g_phase(self, r):
        return r.c["gas"]

    g_thermo = g_phase

    def s_volume(self, r, v):
        pass


class Network(Ext):
    name = "ReactorNet"

    def setattr(self, r, n, v):
        if n != "preconditioner":
            raise Unsupported(f"setting {n} of the reactor network")


REACTOR, NETWORK = Reactor(), Network()


def setup_contract(prop):
    @vc(prop, "IgnitionSimulation.setup_case: the reactor of the condition, in its initial state", functions=["simulation.IgnitionSimulation.setup_case", "simulation.BaseSimulation._setup_gas", "simulation.BaseSimulation.__init__"])
    def check(ip):
        e = core.E
        cn = prepared(ip)
        cover_end(ip, "set up")
        m = cn.made
        if len(m["reactor"]) != 1 or len(m["net"]) != 1 or len(m["net"][0]) != 1 or m["net"][0][0] is not m["object"] or cn.get("reac") is not m["object"]:
            e.fail("one reactor, integrated by the network", repr(m))
            return
        const_p = "ConstPressure" in m["reactor"][0]
        e.prove("the reactor of the given kind", (cn.kind == lit("constant pressure")) == z3.BoolVal(const_p))
        e.prove("the given end time", real(cn.get("time_end")) == cn.end)
        e.prove("the given number of steps, or 10000", num(cn.get("max_steps")) == z3.If(cn.steps != 0, cn.steps, 10000))
        e.prove("no delay yet", real(cn.get("ignition_delay")) == 0)
        if cn.get("sim").tag is not NETWORK:
            e.fail("the network is kept", repr(cn.get("sim")))
