"""C02, C03, C04: interaction coefficients."""
from .common import *


def setup(ip):
    e = core.E
    m = e.const("model", Mod)
    sol = C.solution(ip, m)
    n, r = C.NSP(m), C.NRX(m)
    T, P = e.const("T", R), e.const("P", R)
    Y, yf = vec("Y", n)
    e.assume(n >= 1)
    k = z3.Int("y!")
    st = C.MKY(m, T, P, core.lam(k, yf(k)))
    cover(ip)
    w = lambda i, j: C.PS(m, i, j) * C.NROP(m, st, j) - C.RS(m, i, j) * C.NROP(m, st, j)
    w = lambda i, j: (C.PS(m, i, j) - C.RS(m, i, j)) * C.NROP(m, st, j)
    inv = lambda b, j: Or(C.PS(m, b, j) != 0, C.RS(m, b, j) != 0)
    return e, m, sol, n, r, (T, P, Y), st, w, inv


def ssum(n, f):
    k = z3.FreshConst(I, "s!k")
    return core.mk_sum(k, n, f(k))


def abs_(x):
    return z3.If(x >= 0, x, -x)


def max_(a, b):
    return z3.If(a >= b, a, b)


def run(prop, mod, fname, spec):
    @vc(prop, f"{mod}.{fname}: published formula", functions=[f"{mod}.{fname}"])
    def check(ip):
        e, m, sol, n, r, state, st, w, inv = setup(ip)
        ycon = state[2].c
        res = ip.verify_call(ip.fn(mod, fname), [state, sol], {})
        c = A.content(res)
        e.prove("the matrix is square over the species", And(num(c.axes[0].n) == n, num(c.axes[1].n) == n) if len(c.axes) == 2 else False)
        a, b = z3.Int("A"), z3.Int("B")
        e.assume(And(in_range(a, n), in_range(b, n)))
        val = real(c.at(a, b))
        e.prove("zero on the diagonal", Implies(a == b, val == 0))
        # exact zeros of single terms: a product vanishes exactly when a factor does
        want, den = spec(n, r, w, inv, a, b)
        e.prove("zero where the denominator vanishes", Implies(den == 0, val == 0))
        e.prove("coefficient equals the formula", Implies(And(a != b, den != 0), val == want))
        e.prove("state used is the given one", boolt(sol.c["st"] == st))
        if state[2].c is not ycon:
            e.fail("mass fractions unchanged", "")


def drg(n, r, w, inv, a, b):
    num_ = ssum(r, lambda j: z3.If(inv(b, j), abs_(w(a, j)), 0))
    den = ssum(r, lambda j: abs_(w(a, j)))
    return num_ / den, den


def prodcons(r, w, a):
    return (ssum(r, lambda j: z3.If(w(a, j) > 0, w(a, j), 0)), ssum(r, lambda j: z3.If(w(a, j) < 0, -w(a, j), 0)))


def drgep(n, r, w, inv, a, b):
    s = ssum(r, lambda j: z3.If(inv(b, j), w(a, j), 0))
    den = max_(*prodcons(r, w, a))
    return abs_(s) / den, den


def pfa(n, r, w, inv, a, b):
    def first(x, y, sg):
        f = ssum(r, lambda j: z3.If(And(inv(y, j), sg * w(x, j) > 0), sg * w(x, j), 0))
        d = max_(*prodcons(r, w, x))
        return z3.If(d != 0, f / d, 0)
    den = max_(*prodcons(r, w, a))
    sec = lambda sg: ssum(n, lambda m: z3.If(Or(m == a, m == b), 0, first(a, m, sg) * first(m, b, sg)))
    return first(a, b, 1) + first(a, b, -1) + sec(1) + sec(-1), den


run("C02", "drg", "create_drg_matrix", drg)
run("C03", "drgep", "create_drgep_matrix", drgep)
run("C04", "pfa", "create_pfa_matrix", pfa)
