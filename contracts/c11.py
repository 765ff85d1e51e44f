from .common import *


@vc("C11", "sampling.calculate_error: spec", functions=["sampling.calculate_error"])
def calculate_error(ip):
    e = core.E
    n = e.const("n", I)
    e.assume(n >= 1)
    o, of = vec("orig", n)
    t, tf = vec("cand", n)
    k = z3.Int("k0")
    e.assume(forall([k], Implies(in_range(k, n), of(k) > 0)))
    e.assume(forall([k], Implies(in_range(k, n), tf(k) >= 0)))
    cover(ip)
    r = ip.verify_call(ip.fn("sampling", "calculate_error"), [o, t], {})
    r = real(r)
    dev = lambda k: z3.If(of(k) >= tf(k), of(k) - tf(k), tf(k) - of(k)) / of(k)
    zero = exists([k], And(in_range(k, n), tf(k) == 0))
    e.prove("any zero metric gives 100", Implies(zero, r == 100))
    e.prove("no deviation exceeds the error", Implies(Not(zero), forall([k], Implies(in_range(k, n), r >= 100 * dev(k)))))
    e.prove("the error is one of the deviations", Implies(Not(zero), exists([k], And(in_range(k, n), r == 100 * dev(k)))))
    e.prove("zero exactly when all metrics agree", (r == 0) == forall([k], Implies(in_range(k, n), of(k) == tf(k))))
    e.prove("arguments unchanged", And(A.content(o).at(k) == of(k), A.content(t).at(k) == tf(k)))
