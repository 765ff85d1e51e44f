"""Shared pieces of the contracts: symbolic arguments and the runner."""
import time, traceback
import z3
from fractions import Fraction
from pyvc import core, values as V, arrays as A, interp as IP, lib_ct as C, lib_misc as LM
from pyvc.core import (I, R, B, Str, And, Or, Not, Implies, ite, boolt, num, real, strt, is_z3, in_range, forall, exists, simp,
                       Unsupported, ProgExc, PathEnd, lit, Ref, E)
from pyvc.values import Elem, IfS, For, DictC, SetC, ArrC, Axis, Opt, alloc, setc
from pyvc.interp import Interp, NTV, Native, INLINE
from pyvc.lib_ct import Mod, Ob, St


def vec(name, n, sort=R):
    f = z3.Function(name, I, sort)
    return alloc("arr", ArrC([Axis(n)], lambda i: f(i))), f


def mat(name, n, m):
    f = z3.Function(name, I, I, R)
    return alloc("arr", ArrC([Axis(n), Axis(m)], lambda i, j: f(i, j))), f


def strlist(name, n, distinct=False):
    """list of n strings"""
    f = z3.Function(name, I, Str)
    if distinct:
        p = z3.Function(name + ".pos", Str, I)
        C.declare_index(name, f, p, [], lambda: n)
    elif is_z3(n):
        # some position of each element
        p = z3.Function(name + ".some", Str, I)
        i = z3.Int("i!")
        E.prover.axiom(name, z3.ForAll([i], Implies(And(i >= 0, i < n), And(p(f(i)) >= 0, p(f(i)) < n, f(p(f(i))) == f(i))), patterns=[f(i)]))
        V.CHOOSE[name] = (p, n)
    k = z3.FreshConst(I, "k")
    return alloc("list", (For(k, n, (Elem(f(k)),)),)), f


class VC:
    """one verification run: a function of the code, its contract"""

    def __init__(self, prop, name, fn, functions=(), bounded=False):
        self.prop, self.name, self.fn, self.functions, self.bounded = prop, name, fn, functions, bounded


REGISTRY = {}


def vc(prop, name, functions=(), bounded=None):
    def deco(f):
        REGISTRY.setdefault(prop, []).append(VC(prop, name, f, functions, bounded))
        return f
    return deco


class Result:
    pass


def run_vc(v, timeout=120):
    core.new_engine()
    e = core.E
    e.deadline = time.time() + timeout
    e.covers, e.seen_covers = {}, set()
    t0 = time.time()
    r = Result()
    r.name, r.prop = v.name, v.prop
    r.error = None
    try:
        r.paths = e.explore(lambda: v.fn(Interp()))
    except Unsupported as ex:
        r.paths = 0
        r.error = f"not within the verifier's reach: {ex}"
    except ProgExc as ex:
        r.paths = 0
        r.error = f"exception escapes: {ex}"
    except RecursionError:
        r.paths = 0
        r.error = "verifier recursion limit"
    except Exception as ex:
        r.paths = 0
        r.error = "verifier failure: " + "".join(traceback.format_exception(ex))[-1500:]
    for name, ok in e.covers.items():
        if ok:
            e.ok(f"vacuity: {name}")
        elif not r.error:
            e.fail(f"vacuity: {name}", "no path gets here without contradiction")
    r.obligs = e.obligs
    r.wall = time.time() - t0
    r.solver = e.prover.time
    r.queries = e.prover.queries
    r.assumptions = sorted(e.assumptions)
    r.covered = sorted(e.covered)
    return r


def cover(ip, name="preconditions are satisfiable"):
    """vacuity check: the path condition so far must not be contradictory"""
    e = core.E
    key = ("cover", name, tuple(p.get_id() for p in e.pc) if len(e.pc) < 6 else len(e.pc))
    if key in e.seen_covers:
        return
    e.seen_covers.add(key)
    r = e.prover._check(list(e.pc) + e.prover.relevant(e.pc), 3000)
    if r == z3.unsat:
        e.fail(f"vacuity: {name}", "the assumptions of the contract contradict each other")
    else:
        e.ok(f"vacuity: {name}")


def cover_end(ip, name):
    """vacuity check of a place that some path must reach with satisfiable assumptions"""
    e = core.E
    d = e.covers
    if d.get(name):
        return
    # (only a contradiction found quickly counts against the path)
    d[name] = e.prover._check(list(e.pc) + e.prover.relevant(e.pc), 2000) != z3.unsat


TRUST = ["pyvc (this repository): translation of the Python subset to verification conditions, loop rules and prover front end",
         "z3", "floating-point arithmetic treated as real arithmetic, integers unbounded",
         "functions under contract are called as their callers in the package call them (types as documented)"]
TRUSTED = {}


def trust(prop, *texts):
    TRUSTED.setdefault(prop, []).extend(texts)


def trusted(prop):
    return TRUST + TRUSTED.get(prop, [])
