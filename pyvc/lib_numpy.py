"""numpy as pymars uses it."""
import z3
from fractions import Fraction
from . import core, values as V, arrays as A
from .core import *
from .core import E
from .values import Elem, IfS, For, SeqArr, Axis, ArrC, alloc, setc
from .interp import Native, LibMod, TypeV, ExcCls, Ext, ext, LinAlgError, merge
from .lib import native, absval, SQRT, EXP, LOG, NullCtx

SIGN = z3.Function("SIGN", R, R)


def fun1(f, x):
    if A.isarr(x):
        return A.map1(x, lambda t: f(real(t)))
    return f(real(x))


def sqrt(t):
    t = simp(t)
    r = SQRT(t)
    E.assume(Implies(t >= 0, And(r >= 0, r * r == t))) if not core.decls_in(t).keys() & {"!s", "!m"} else None
    return r


def isclose(a, b, rtol, atol):
    a, b = real(a), real(b)
    d, m = absval(a - b), absval(b)
    return d <= num(atol) + num(rtol) * m


class Pool:
    pass


def make(ip, m):
    d = {}
    np = LibMod("numpy", d)
    m["numpy"] = np
    d["ndarray"] = TypeV("ndarray")
    d["newaxis"] = None
    d["pi"] = Fraction("3.141592653589793")
    for t in ("float64", "float_", "double"):
        d[t] = TypeV("float")
    d["int64"] = TypeV("int")
    d["bool_"] = TypeV("bool")

    def arr(x):
        if A.isarr(x):
            return x
        if isinstance(x, Ref) and x.kind == "list":
            return A.from_seq(x.c)
        if isinstance(x, tuple):
            return A.from_seq(tuple(Elem(y) for y in x))
        if isinstance(x, Ref) and x.kind == "set":
            raise Unsupported("array of a set")
        return x

    @native(d)
    def array(x, dtype=None, copy=True):
        r = arr(x)
        return A.copy(r) if A.isarr(r) else r

    @native(d)
    def asarray(x, dtype=None):
        return arr(x)
    d["asanyarray"] = d["ascontiguousarray"] = d["asarray"]

    @native(d)
    def copy(x):
        return A.copy(arr(x))

    @native(d)
    def atleast_1d(x):
        x = arr(x)
        if A.isarr(x):
            if A.ndim(x) == 0:
                c = A.arrc(x)
                return A.mk([Axis(1)], lambda i: c.at())
            return x
        x = ip.force(x)
        if x is None:
            raise Unsupported("array of None")
        return A.mk([Axis(1)], lambda i: x)

    @native(d)
    def atleast_2d(x):
        x = arr(x)
        if not A.isarr(x):
            x = d["atleast_1d"].f(x)
        c = A.arrc(x)
        if len(c.axes) == 0:
            return A.mk([Axis(1), Axis(1)], lambda i, j: c.at())
        if len(c.axes) == 1:
            return A.mk([Axis(1), c.axes[0]], lambda i, j: c.at(j))
        return x

    @native(d)
    def zeros(shape, dtype=None):
        if isinstance(shape, Ref) and shape.kind == "list":
            shape = tuple(ip.concrete(shape.c))
        return A.zeros(shape)

    @native(d)
    def ones(shape, dtype=None):
        return A.zeros(shape, Fraction(1))

    @native(d)
    def empty(shape, dtype=None):
        if not isinstance(shape, tuple):
            shape = (shape,)
        f = E.func("empty", *[I] * len(shape), R)
        return A.mk([Axis(n) for n in shape], lambda *ix: f(*ix))

    @native(d)
    def full(shape, v, dtype=None):
        return A.zeros(shape, v)

    @native(d)
    def zeros_like(x, dtype=None):
        c = A.arrc(arr(x))
        return A.mk(c.axes, lambda *ix: Fraction(0))

    @native(d)
    def full_like(x, v):
        c = A.arrc(arr(x))
        return A.mk(c.axes, lambda *ix: v)

    @native(d)
    def eye(n):
        return A.mk([Axis(n), Axis(n)], lambda i, j: ite(i == j, Fraction(1), Fraction(0)) if not i.eq(j) else Fraction(1))
    d["identity"] = d["eye"]

    @native(d)
    def diag_indices(n):
        return A.Diag(n)

    @native(d)
    def arange(*a):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if all(isinstance(x, (int, Fraction)) for x in (lo, hi, st)):
            import math
            n = __import__("builtins").max(0, math.ceil(Fraction(hi - lo) / Fraction(st)))
            if n <= 64:
                # floating point: values are start + i*step
                return A.from_seq(tuple(Elem(lo + i * st) for i in range(n)))
        if st == 1 and all(isinstance(x, int) or is_z3(x) and x.sort() == I for x in (lo, hi)):
            return A.mk([Axis(simp(num(hi) - num(lo)))], lambda i: simp(num(lo) + i))
        raise Unsupported("arange")

    @native(d)
    def linspace(a, b, n=50, **k):
        if k or not isinstance(n, int):
            raise Unsupported("linspace")
        return A.from_seq(tuple(Elem(a + (b - a) * Fraction(i, n - 1)) for i in range(n)))

    @native(d)
    def where(c, *ab):
        if not ab:
            c = arr(c)
            cc = A.arrc(c)
            if len(cc.axes) != 1:
                raise Unsupported("np.where of a matrix condition")
            ax = cc.axes[0]
            g = lambda i: And(A.tb(cc.at(i)), ax.guard(i) if ax.guard else True)
            return (alloc("arr", ArrC([Axis(ax.n, g)], lambda i: i, (ax.n, ax.guard))),)
        return A.mapn(lambda c, a, b: A.ite_v(A.tb(c), a, b), c, *ab)

    @native(d)
    def nonzero(c):
        return d["where"].f(c)

    @native(d)
    def flatnonzero(c):
        return d["where"].f(c)[0]

    @native(d)
    def abs(x):
        return absval(arr(x))
    d["absolute"] = d["fabs"] = d["abs"]

    def mm(sgn):
        def f(a, b):
            def g(x, y):
                if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
                    return max(x, y) if sgn > 0 else min(x, y)
                p, q = core.coerce2(x, y)
                return simp(z3.If(p >= q if sgn > 0 else p <= q, p, q))
            a, b = arr(a), arr(b)
            if A.isarr(a) or A.isarr(b):
                return A.map2(g, a, b)
            return g(a, b)
        return f
    d["maximum"], d["minimum"] = Native("np.maximum", mm(1)), Native("np.minimum", mm(-1))

    @native(d)
    def sum(x, axis=None):
        x = arr(x)
        return A.reduce_sum(x, axis) if A.isarr(x) else x

    @native(d)
    def max(x, axis=None):
        return A.reduce_minmax(arr(x), 1)
    d["amax"] = d["max"]

    @native(d)
    def min(x, axis=None):
        return A.reduce_minmax(arr(x), -1)
    d["amin"] = d["min"]

    @native(d)
    def any(x, axis=None):
        x = arr(x)
        return A.bool_fold(x, False) if A.isarr(x) else ip.truth_term(x)

    @native(d)
    def all(x, axis=None):
        x = arr(x)
        return A.bool_fold(x, True) if A.isarr(x) else ip.truth_term(x)

    @native(d)
    def argmin(x):
        return A.argmin(arr(x))

    @native(d)
    def argmax(x):
        return A.argmin(arr(x), -1)

    @native(d)
    def delete(x, i):
        x = arr(x)
        c = A.arrc(x)
        n = c.axes[0].n
        it = A.norm_index(x, i, c.axes[0])
        return A.mk([Axis(simp(num(n) - 1))], lambda j: c.at(simp(z3.If(j >= it, j + 1, j))))

    @native(d)
    def append(x, y):
        return A.concatenate((Elem(arr(x)), Elem(d["atleast_1d"].f(y))))

    def resolved(s):
        """the parts that are there, when there are few"""
        s = tuple(s)
        if __import__("builtins").any(not isinstance(g, (Elem, V.IfS)) for g in s):
            return s
        out = ()
        for g in s:
            if isinstance(g, V.IfS):
                out += resolved(g.a if core.E.decide(g.c) else g.b)
            else:
                out += (g,)
        return out

    @native(d)
    def concatenate(xs, axis=0):
        s = resolved(ip.iter_seq(xs))
        rs = A.first_row(s)
        if rs is None:
            throw(ValueError, "need at least one array to concatenate")
        return A.concatenate(s)
    d["hstack"] = d["concatenate"]

    @native(d)
    def vstack(xs):
        s = resolved(ip.iter_seq(xs))
        if __import__("builtins").all(isinstance(g, Elem) for g in s):
            vs = [arr(g.v) for g in s]
            if not vs:
                throw(ValueError, "need at least one array to concatenate")
            out = ()
            for v in vs:
                if A.ndim(v) == 1:
                    out += (Elem(v),)
                else:
                    out += A.rows(v)
            return alloc("arr", SeqArr(out, 2))
        raise Unsupported("vstack of a symbolic list")

    @native(d)
    def column_stack(xs):
        vs = [A.arrc(arr(g.v)) for g in ip.iter_seq(xs)]
        n = vs[0].axes[0].n
        for v in vs[1:]:
            if not A.same_len(n, v.axes[0].n):
                throw(ValueError, "dimension mismatch")
        def el(i, j):
            t = vs[-1].at(i)
            for q in reversed(range(len(vs) - 1)):
                t = A.ite_v(j == q, vs[q].at(i), t)
            return t
        return A.mk([Axis(n), Axis(len(vs))], el)

    @native(d)
    def outer(a, b):
        return A.outer(arr(a), arr(b))

    @native(d)
    def dot(a, b):
        return A.matmul(arr(a), arr(b))
    d["matmul"] = d["dot"]

    @native(d)
    def fill_diagonal(a, v):
        A.write(a, lambda ix, old: A.ite_v(ix[0] == ix[1], v, old))

    @native(d)
    def diag(a):
        c = A.arrc(arr(a))
        if len(c.axes) == 1:
            return A.mk([c.axes[0], c.axes[0]], lambda i, j: A.ite_v(i == j, c.at(i), Fraction(0)))
        return A.mk([c.axes[0]], lambda i: c.at(i, i))

    @native(d)
    def sign(x):
        def f(t):
            t = num(t)
            return simp(z3.If(t > 0, z3.RealVal(1), z3.If(t < 0, z3.RealVal(-1), z3.RealVal(0))))
        return A.map1(x, f) if A.isarr(x) else f(x)

    @native(d)
    def sqrt_(x):
        return fun1(sqrt, arr(x))
    d["sqrt"] = d.pop("sqrt_")

    @native(d)
    def exp(x):
        return fun1(lambda t: EXP(t), arr(x))

    @native(d)
    def log(x):
        return fun1(lambda t: LOG(t), arr(x))

    @native(d)
    def isfinite(x):
        # numbers are reals: finiteness is the definedness of the value
        if A.isarr(x):
            return A.map1(x, lambda t: FINITE(real(t)))
        return FINITE(real(x))

    @native(d)
    def isnan(x):
        f = lambda t: Not(FINITE(real(t)))
        return A.map1(x, f) if A.isarr(x) else f(x)

    @native(d)
    def isclose_(a, b, rtol=Fraction("1e-05"), atol=Fraction("1e-08"), equal_nan=False):
        a, b = arr(a), arr(b)
        if A.isarr(a) or A.isarr(b):
            return A.map2(lambda x, y: isclose(x, y, rtol, atol), a, b)
        return isclose(a, b, rtol, atol)
    d["isclose"] = d.pop("isclose_")

    @native(d)
    def allclose(a, b, rtol=Fraction("1e-05"), atol=Fraction("1e-08"), equal_nan=False):
        r = d["isclose"].f(a, b, rtol, atol)
        return A.bool_fold(r, True) if A.isarr(r) else r

    @native(d)
    def array_equal(a, b):
        a, b = A.arrc(arr(a)), A.arrc(arr(b))
        if len(a.axes) != len(b.axes):
            return False
        eqn = And(*[num(x.n) == num(y.n) for x, y in zip(a.axes, b.axes)])
        if not E.decide(eqn):
            return False
        r = A.mapn(lambda x, y: num(x) == num(y), alloc("arr", a), alloc("arr", b))
        return A.bool_fold(r, True)

    @native(d)
    def errstate(**k):
        return ext(NULLCTX)

    @native(d)
    def size(x):
        return A.size(arr(x)) if A.isarr(arr(x)) else 1

    @native(d)
    def shape(x):
        return ip.getattr(arr(x), "shape")

    @native(d)
    def isscalar(x):
        return not isinstance(x, Ref)

    @native(d)
    def multiply(a, b):
        import ast
        return ip.binop(ast.Mult(), arr(a), arr(b))

    @native(d)
    def divide(a, b, out=None, where=None):
        import ast
        r = ip.binop(ast.Div(), arr(a), arr(b))
        if where is not None:
            if out is None:
                raise Unsupported("np.divide with where but without out")
            r = A.mapn(lambda w, x, o: A.ite_v(A.tb(w), x, o), where, r, out)
            A.assign_all(out, r)
            return out
        return r

    @native(d)
    def subtract(a, b):
        import ast
        return ip.binop(ast.Sub(), arr(a), arr(b))

    @native(d)
    def add(a, b):
        import ast
        return ip.binop(ast.Add(), arr(a), arr(b))

    @native(d)
    def nan_to_num(x, **k):
        raise Unsupported("nan_to_num")

    @native(d)
    def count_nonzero(x):
        c = A.map1(arr(x), lambda t: ite(A.tb(t), 1, 0))
        return A.reduce_sum(c)

    @native(d)
    def genfromtxt(path, delimiter=None, **k):
        return ip.lib["%genfromtxt"](path, delimiter)
    d["loadtxt"] = d["genfromtxt"]

    @native(d)
    def savetxt(path, data, delimiter=" ", **k):
        return ip.lib["%savetxt"](path, arr(data), delimiter)

    la = {}
    d["linalg"] = LibMod("numpy.linalg", la)
    la["LinAlgError"] = ExcCls(LinAlgError)

    @native(la)
    def norm(x):
        c = A.map1(arr(x), lambda t: simp(real(t) * real(t)))
        s = A.reduce_sum(c)
        r = NORM(real(s))
        return r

    @native(la)
    def solve(a, b):
        return ip.lib["%linsolve"](a, b)
    m["numpy.linalg"] = d["linalg"]


FINITE = z3.Function("FINITE", R, B)
NORM = z3.Function("NORM", R, R)
NULLCTX = NullCtx()
