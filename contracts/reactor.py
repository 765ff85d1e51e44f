"""The steady reactor equations (C21, C20): residual, Jacobian, continuation."""
from .common import *
from pyvc import ring
from pyvc.lib_numpy import FINITE
from pyvc.core import ProgExc
from pyvc.interp import Ext, ext, upd, CanteraError

AR = z3.ArraySort(I, R)
F = z3.Function
RHO, HM, CP, MW = (F("gas." + n, R, R, AR, R) for n in ("density", "enthalpy", "cp", "mean weight"))
WDOT, DDT, PMH = (F("gas." + n, R, R, AR, I, R) for n in ("production", "d production/dT", "partial enthalpy"))
DDC = F("gas.d production/dC", R, R, AR, I, I, R)
NORMED = F("normalised", AR, AR)
UNSET = z3.Const("a pressure that was not set", R)


def lam(f):
    k = z3.FreshConst(I, "!y")
    return core.lam([k], simp(real(f(k))))


class Gas(Ext):
    """an ideal gas: properties are functions of temperature, pressure and mass
    fractions; setting a state and evaluating kinetics may fail"""
    name = "Solution"

    def may_fail(self, r, what):
        f = r.c["fail"].get(what)
        if f is not None and core.E.decide(f):
            core.throw(CanteraError, what)

    def st(self, r):
        return r.c["T"], r.c["P"], r.c["Y"]

    def vecof(self, r, f):
        s = self.st(r)
        return alloc("arr", ArrC([Axis(r.c["n"])], lambda k: f(*s, k)))

    def g_n_species(self, r):
        return r.c["n"]

    g_n_total_species = g_n_species

    def m_set_unnormalized_mass_fractions(self, r, Y):
        self.may_fail(r, "mass fractions")
        a = A.arrc(Y)
        upd(r, Y=lam(lambda k: a.at(k)), P=UNSET)       # (at constant density)

    def s_TP(self, r, v):
        T, P = v if isinstance(v, tuple) else [g.v for g in v.c]
        self.may_fail(r, "state")
        upd(r, T=r.c["T"] if T is None else real(T), P=r.c["P"] if P is None else real(P))

    def s_TPY(self, r, v):
        T, P, Y = v
        self.may_fail(r, "state")
        a = A.arrc(Y)
        upd(r, T=r.c["T"] if T is None else real(T), P=r.c["P"] if P is None else real(P), Y=NORMED(lam(lambda k: a.at(k))))

    def g_T(self, r):
        return r.c["T"]

    def g_P(self, r):
        return r.c["P"]

    def g_Y(self, r):
        Y = r.c["Y"]
        return alloc("arr", ArrC([Axis(r.c["n"])], lambda k: z3.Select(Y, k)))

    def g_molecular_weights(self, r):
        return alloc("arr", ArrC([Axis(r.c["n"])], lambda k: WT(k)))

    def g_net_production_rates(self, r):
        self.may_fail(r, "kinetics")
        return self.vecof(r, WDOT)

    def g_net_production_rates_ddT(self, r):
        return self.vecof(r, DDT)

    def g_net_production_rates_ddCi(self, r):
        s, n = self.st(r), r.c["n"]
        return alloc("arr", ArrC([Axis(n), Axis(n)], lambda k, i: DDC(*s, k, i)))

    def g_partial_molar_enthalpies(self, r):
        return self.vecof(r, PMH)

    def g_density(self, r):
        return RHO(*self.st(r))

    g_density_mass = g_density

    def g_enthalpy_mass(self, r):
        return HM(*self.st(r))

    def g_cp_mass(self, r):
        return CP(*self.st(r))

    g_cp = g_cp_mass

    def g_mean_molecular_weight(self, r):
        return MW(*self.st(r))

    def m_equilibrate(self, r, *a, **k):
        e = core.E
        upd(r, T=e.const("equilibrium.T", R), P=e.const("equilibrium.P", R), Y=z3.Const("equilibrium.Y", AR))


GAS = Gas()
WT = F("gas.weights", I, R)


class Setting:
    """arbitrary arguments of residual and Jacobian"""

    def __init__(self, ip, fails=True):
        e = core.E
        self.n = n = e.const("n_species", I)
        e.assume(n >= 1)
        i, a, b, Y = z3.Int("i!"), z3.Real("a!"), z3.Real("b!"), z3.Const("Y!", AR)
        e.assume(z3.ForAll([i], WT(i) > 0, patterns=[WT(i)]))
        e.assume(z3.ForAll([a, b, Y], RHO(a, b, Y) > 0, patterns=[RHO(a, b, Y)]))
        self.fail = {k: e.const("failing " + k, B) for k in ("mass fractions", "state", "kinetics")} if fails else {}
        self.gas = ext(GAS, n=n, T=e.const("T before", R), P=e.const("P before", R), Y=z3.Const("Y before", AR), fail=self.fail)
        self.Y, self.yf = vec("Y", n)
        self.Yin, self.yin = vec("Y_in", n)
        self.T, self.tau, self.P, self.hin, self.hs = (e.const(k, R) for k in ("T", "tau", "P", "h_in", "h_scale"))
        e.assume(And(self.hs > 0, self.P > 0))
        self.W, _ = vec("gas.weights", n)

    def state(self):
        f = self.yf
        return self.T, self.P, lam(lambda k: f(k))


def residual_contract(prop):
    @vc(prop, "psr_solver._core_residual: species and enthalpy balance at the given state; large for unphysical states and failed evaluations", functions=["psr_solver._core_residual"])
    def check(ip):
        e = core.E
        s = Setting(ip)
        n = s.n
        keep = [(r, r.c) for r in (s.Y, s.Yin, s.W)]
        cover(ip)
        try:
            res = ip.verify_call(ip.fn("psr_solver", "_core_residual"), [s.gas, s.Y, s.T, s.tau, s.P, s.Yin, s.hin, s.hs, s.W], {})
        except ProgExc as ex:
            e.fail("no exception", str(ex))
            return
        cover_end(ip, "a residual")
        r = A.arrc(res)
        if len(r.axes) != 1:
            e.fail("one residual per species and the energy balance", repr(res))
            return
        e.prove("one residual per species and the energy balance", num(A.count(r.axes[0])) == n + 1)
        k, q = e.const("k", I), z3.Int("q!")
        e.assume(in_range(k, n))
        st = s.state()
        bad = Or(s.T <= 0, z3.Exists([q], And(q >= 0, q < n, Not(FINITE(s.yf(q))))), *s.fail.values())
        want = (s.yf(k) - s.yin(k)) - s.tau * WDOT(*st, k) * WT(k) / RHO(*st)
        e.prove("species balance at the given state and pressure", Implies(Not(bad), real(r.at(k)) == want))
        e.prove("enthalpy balance at the given state and pressure", Implies(Not(bad), real(r.at(n)) == (HM(*st) - s.hin) / s.hs))
        big = lambda x: Or(x >= 100, x <= -100)
        e.prove("a large residual for unphysical states and failed evaluations", Implies(bad, And(big(real(r.at(k))), big(real(r.at(n))))))
        for a, c in keep:
            if a.c is not c:
                e.fail("arguments unchanged", repr(a))


def jacobian_contract(prop):
    @vc(prop, "psr_solver._core_jacobian: the derivatives of the residual", functions=["psr_solver._core_jacobian"])
    def check(ip):
        e = core.E
        s = Setting(ip, fails=False)
        n = s.n
        e.assume(s.T > 0)
        keep = [(r, r.c) for r in (s.Y, s.W)]
        cover(ip)
        try:
            res = ip.verify_call(ip.fn("psr_solver", "_core_jacobian"), [s.gas, s.Y, s.T, s.tau, s.P, s.hs, s.W], {})
        except ProgExc as ex:
            e.fail("no exception", str(ex))
            return
        cover_end(ip, "a matrix")
        a = A.arrc(res)
        if len(a.axes) != 2:
            e.fail("a matrix", repr(res))
            return
        e.prove("one row per equation, one column per unknown", And(num(A.count(a.axes[0])) == n + 1, num(A.count(a.axes[1])) == n + 2))
        k, j = e.const("k", I), e.const("j", I)
        e.assume(And(in_range(k, n), in_range(j, n)))
        st = s.state()
        rho, mw, W, Y = RHO(*st), MW(*st), WT, s.yf
        # ideal gas: C_i = rho Y_i / W_i, d rho/dY_j = -rho M / W_j, d rho/dT = -rho / T
        drho_y, drho_t = -rho * mw / W(j), -rho / s.T
        w = WDOT(*st, k)

        def total(f):
            i = z3.FreshConst(I, "i")
            return core.mk_sum(i, n, f(i))
        dw_y = total(lambda i: DDC(*st, k, i) * (drho_y * Y(i) / W(i) + z3.If(i == j, rho / W(i), z3.RealVal(0))))
        dw_t = DDT(*st, k) + total(lambda i: DDC(*st, k, i) * (drho_t * Y(i) / W(i)))
        ds_y = W(k) * (dw_y / rho - w * drho_y / (rho * rho))
        ds_t = W(k) * (dw_t / rho - w * drho_t / (rho * rho))
        at = lambda x, y: real(a.at(x, y))
        same = e.decide(k == j)
        ring.equal("species balance by mass fraction", at(k, j), z3.RealVal(1 if same else 0) - s.tau * ds_y)
        ring.equal("species balance by temperature", at(k, n), -s.tau * ds_t)
        ring.equal("species balance by residence time", at(k, n + 1), -(W(k) * w / rho))
        ring.equal("energy balance by mass fraction", at(n, j), PMH(*st, j) / W(j) / s.hs)
        ring.equal("energy balance by temperature", at(n, n), CP(*st) / s.hs)
        ring.equal("energy balance by residence time", at(n, n + 1), 0)
        for x, c in keep:
            if x.c is not c:
                e.fail("arguments unchanged", repr(x))
