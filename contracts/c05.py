"""C05: species reached at a threshold; union over the sampled states."""
from .common import *
from pyvc import lib_nx as NX


def matrix_adj(mf, n, thr):
    i, j = z3.FreshConst(I, "!gi"), z3.FreshConst(I, "!gj")
    return core.lam([i, j], simp(And(in_range(i, n), in_range(j, n), mf(i, j) >= thr)))


def names_of(e, n):
    names, _ = strlist("names", n, distinct=True)
    f, p = z3.Function("names", I, Str), z3.Function("names.pos", Str, I)
    return names, f, p


def sublist(name, n, f, p, m):
    """a list of m strings, each one of the n names"""
    lst, _ = strlist(name, m)
    g = z3.Function(name, I, Str)
    k = z3.FreshConst(I, "k")
    core.E.assume(forall([k], Implies(in_range(k, m), And(in_range(p(g(k)), n), f(p(g(k))) == g(k)))))
    return lst, g


def reached(mf, n, thr, p, f, g, nt):
    """x is reached from one of the targets g(0..nt-1)"""
    adj = matrix_adj(mf, n, thr)

    def pred(x):
        t = z3.FreshConst(I, "t")
        q = p(x)
        return And(in_range(q, n), f(q) == x, exists([t], And(in_range(t, nt), NX.REACH(adj, n, p(g(t)), q))))
    return pred


def search(mod, fname):
    @vc("C05", f"{mod}.{fname}: exactly the reachable species, once each", functions=[f"{mod}.{fname}", f"{mod}.graph_search"])
    def check(ip):
        e = core.E
        n, nt, thr = e.const("n", I), e.const("n_targets", I), e.const("threshold", R)
        e.assume(And(n >= 1, nt >= 0, thr > 0))
        names, f, p = names_of(e, n)
        M, mf = mat("matrix", n, n)
        tg, g = sublist("targets", n, f, p, nt)
        cover(ip)
        keep = [x.c for x in (names, M, tg)]
        res = ip.verify_call(ip.fn(mod, fname), [M, names, tg, thr], {})
        x = z3.Const("x", Str)
        pred = reached(mf, n, thr, p, f, g, nt)
        e.prove("a species is kept exactly when a target reaches it", boolt(ip.contains(res, x)) == pred(x))
        ln = num(ip.length(res))
        i, j = z3.Int("i1"), z3.Int("i2")
        e.assume(And(in_range(i, ln), in_range(j, ln), i != j))
        e.prove("every species once", strt(ip.getitem(res, i)) != strt(ip.getitem(res, j)))
        if any(a is not b.c for a, b in zip(keep, (names, M, tg))):
            e.fail("arguments unchanged", "")


search("drg", "trim_drg")
search("pfa", "trim_pfa")

# the union over the sampled states: exactly the species reached in one of them are kept
from .candidates import graph_method     # noqa: E402
from . import lemmas as L                # noqa: E402

L.prove_full_cover("C05")
graph_method("C05", "drg", "reduce_drg", "exact")
graph_method("C05", "pfa", "reduce_pfa", "exact")
