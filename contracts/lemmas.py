"""Lemmas over finite sums, proved by induction and used as instances."""
from .common import *

_f, _g = z3.Function("lemma.a", I, I), z3.Function("lemma.b", I, I)


def prove_full_cover(prop):
    """sum a + sum b over 0..n-1 with a(k)+b(k) >= 1 is at least n, by the excess of any
    one summand more: if it is n, every a(k)+b(k) is 1"""
    @vc(prop, "lemma: counts that add up to n partition the n positions")
    def check(ip):
        e = core.E
        m, j, k = e.const("m", I), e.const("j", I), z3.FreshConst(I, "k")
        S = lambda f, n: z3.Function("lemma.S" + f.name(), I, I)(n)     # S(n) = sum of f over 0..n-1
        e.assume(And(m >= 0, j >= 0))
        for f in (_f, _g):
            e.assume(And(S(f, z3.IntVal(0)) == 0, S(f, m + 1) == S(f, m) + f(m)))
        e.assume(forall([k], Implies(And(k >= 0, k <= m), _f(k) + _g(k) >= 1)))
        H = lambda n: S(_f, n) + S(_g, n) >= n + ite(j < n, _f(j) + _g(j) - 1, z3.IntVal(0))
        e.prove("base", H(z3.IntVal(0)))
        e.prove("step", Implies(H(m), H(m + 1)))


def full_cover(e, n, a, b):
    """use of the lemma for summands a(k), b(k); both are proved to cover every position"""
    k = e.const("k", I)
    ok = e.prover.valid(list(e.pc) + [in_range(k, n)], a(k) + b(k) >= 1, lemmas=True) == "yes"
    if not ok:
        return False
    k = z3.FreshConst(I, "k")
    S = core.mk_sum(k, n, a(k)) + core.mk_sum(k, n, b(k))
    j = z3.FreshConst(I, "j")
    e.assume(Implies(S == n, forall([j], Implies(in_range(j, n), a(j) + b(j) == 1))))
    return True


def prove_complement(prop):
    """the positions that satisfy a condition and those that do not add up to all"""
    @vc(prop, "lemma: a count and that of the complement add up to n")
    def check(ip):
        e = core.E
        m = e.const("m", I)
        P = z3.Function("lemma.p", I, B)
        Sp, Sn = z3.Function("lemma.Sp", I, I), z3.Function("lemma.Sn", I, I)
        one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
        e.assume(And(m >= 0, Sp(0) == 0, Sn(0) == 0, Sp(m + 1) == Sp(m) + one(P(m)), Sn(m + 1) == Sn(m) + one(Not(P(m)))))
        e.prove("base", Sp(0) + Sn(0) == 0)
        e.prove("step", Implies(Sp(m) + Sn(m) == m, Sp(m + 1) + Sn(m + 1) == m + 1))


def complement(e, n, p):
    """use of the lemma for condition p(k)"""
    k = z3.FreshConst(I, "k")
    one = lambda c: z3.If(boolt(c), z3.IntVal(1), z3.IntVal(0))
    e.assume(core.mk_sum(k, n, one(p(k))) + core.mk_sum(k, n, one(Not(p(k)))) == n)
