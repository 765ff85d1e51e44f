"""numpy arrays as functions of their indices (elements are reals, integers or truth values)."""
import z3
from fractions import Fraction
from . import core, values as V
from .core import (E, Ref, Unsupported, NeedsInvariant, throw, I, R, B, Str, And, Or, Not, Implies, ite, boolt, num, real, is_z3, is_num,
                   is_bool, is_str, in_range, forall, exists, simp, mk_sum, contains, lam)
from .values import Elem, IfS, For, ArrC, SeqArr, View, Axis, alloc, setc


def isarr(v):
    return isinstance(v, Ref) and v.kind == "arr"


def mk(axes, el, pos=None):
    return alloc("arr", ArrC(axes, el, pos))


def const_len(n):
    n = simp(num(n))
    return n.as_long() if z3.is_int_value(n) else None


def content(v):
    """ArrC or SeqArr of an array value"""
    if isinstance(v, Ref):
        v = v.c
    if isinstance(v, View):
        base, imap = v.base, v.imap
        bc = content(base)
        if not isinstance(bc, ArrC):
            raise Unsupported("view of an array of variable parts")
        return ArrC(v.axes, lambda *ix: bc.at(*imap(*ix)))
    return v


def arrc(v):
    """content as indexed array"""
    c = content(v)
    if isinstance(c, SeqArr):
        return seq_to_arrc(c)
    return c


def seq_to_arrc(c):
    from .interp import get_noforks
    if c.ndim == 1:
        s = c.seq
        if len(s) == 1 and isinstance(s[0], For) and len(s[0].body) == 1 and isinstance(s[0].body[0], IfS) and not s[0].body[0].b \
                and len(s[0].body[0].a) == 1 and isinstance(s[0].body[0].a[0], Elem):
            f = s[0]
            g = f.body[0]
            return ArrC([Axis(f.n, lambda i: z3.substitute(boolt(g.c), (f.k, num(i))))],
                        lambda i: V.subst(g.a[0].v, [(f.k, num(i))]))
        return ArrC([Axis(V.seq_len(s))], lambda i: get_noforks(s, i))
    rows_ = c.seq
    r0 = first_row(rows_)
    if r0 is None:
        raise Unsupported("empty array of rows")
    ax = arrc(r0).axes
    return ArrC([Axis(V.seq_len(rows_))] + list(ax), lambda i, *ix: row_at(rows_, i, ix))


def row_at(rows_, i, ix):
    from .interp import get_noforks, merge
    r = get_noforks(rows_, i)
    return arrc(r).at(*ix)


def first_row(seq):
    for g in seq:
        if isinstance(g, Elem):
            return g.v
        if isinstance(g, For):
            r = first_row(g.body)
            if r is not None:
                return r
        if isinstance(g, IfS):
            r = first_row(g.a) or first_row(g.b)
            if r is not None:
                return r
    return None


def ndim(v):
    c = v.c
    if isinstance(c, SeqArr):
        return c.ndim
    return len(c.axes)


def axes(v):
    c = v.c
    if isinstance(c, SeqArr):
        return arrc(v).axes
    return c.axes


def sort_of_content(c):
    if isinstance(c, SeqArr):
        c = seq_to_arrc(c)
    ix = [z3.FreshConst(I, "x") for _ in c.axes]
    v = c.at(*ix)
    return scalar_sort(v)


def scalar_sort(v):
    if is_z3(v):
        return v.sort()
    if isinstance(v, bool):
        return B
    if isinstance(v, int):
        return I
    if isinstance(v, Fraction):
        return R
    return None


def count(ax):
    """number of elements along an axis"""
    if ax.guard is None:
        return ax.n
    k = z3.FreshConst(I, "!c")
    g = boolt(ax.guard(k))
    t = mk_sum(k, num(ax.n), z3.If(g, z3.IntVal(1), z3.IntVal(0)))
    j = z3.FreshConst(I, "j")
    gj = boolt(ax.guard(j))
    E.assume(Or(And(t == 0, forall([j], Implies(in_range(j, ax.n), Not(gj)))),
                And(t > 0, exists([j], And(in_range(j, ax.n), gj)))))
    return t


def length(v):
    return count(axes(v)[0]) if not isinstance(v.c, SeqArr) else V.seq_len(v.c.seq)


def size(v):
    if isinstance(v.c, SeqArr):
        n = V.seq_len(v.c.seq)
        if v.c.ndim == 1:
            return n
    out = 1
    for a in axes(v):
        c = count(a)
        out = simp(num(out) * num(c)) if is_z3(out) or is_z3(c) else out * c
    return out


def truth(v):
    c = arrc(v)
    if all(const_len(a.n) == 1 and a.guard is None for a in c.axes):
        x = c.at(*[0] * len(c.axes))
        return x if is_bool(x) else num(x) != 0
    throw(ValueError, "truth value of an array is ambiguous")


def rows(v):
    c = content(v)
    if isinstance(c, SeqArr):
        return c.seq
    ax = c.axes[0]
    n = const_len(ax.n)
    def row(i):
        return c.at(i) if len(c.axes) == 1 else getitem(v, i, check=False)
    if n is not None and ax.guard is None and n <= 40:
        return tuple(Elem(row(i)) for i in range(n))
    k = E.const("k", I) if not E.generics else z3.FreshConst(I, "k")
    if len(c.axes) == 1:
        x = c.at(k)
    else:
        # rows of a generic index: substitutable objects
        x = alloc("arr", ArrC(c.axes[1:], lambda *ix: c.at(k, *ix)))
        x.born = (x.born or ()) + (k,)
    if ax.guard is not None:
        return (For(k, ax.n, (IfS(boolt(ax.guard(k)), (Elem(x),), ()),)),)
    return (For(k, ax.n, (Elem(x),)),)


# ------------------------------------------------------------- elementwise
def map1(v, f):
    c = content(v)
    if isinstance(c, SeqArr) and c.ndim == 1:
        from .interp import map_seq
        return alloc("arr", SeqArr(map_seq(c.seq, f)))
    c = arrc(v)
    return mk(c.axes, lambda *ix: f(c.at(*ix)))


def same_len(a, b):
    a, b = simp(num(a)), simp(num(b))
    if a.eq(b):
        return True
    return E.decide(a == b)


def same_guard(a, b, n):
    if a is None and b is None:
        return True
    if a is None or b is None:
        return False
    k = z3.FreshConst(I, "g")
    x, y = boolt(a(k)), boolt(b(k))
    if x.eq(y) or simp(x).eq(simp(y)):
        return True
    return E.prover.valid(E.pc + [in_range(k, n)], x == y) == "yes"


def broadcast(xs):
    """common axes and per-array index maps"""
    nd = max(len(c.axes) for c in xs)
    out = []
    one = [[False] * nd for _ in xs]
    for d in range(nd):
        cand = None
        for j, c in enumerate(xs):
            off = d - (nd - len(c.axes))
            if off < 0:
                one[j][d] = None
                continue
            ax = c.axes[off]
            if const_len(ax.n) == 1 and ax.guard is None:
                one[j][d] = True
                continue
            if cand is None:
                cand = ax
            else:
                if cand.guard is not None or ax.guard is not None:
                    if not (same_len(cand.n, ax.n) and same_guard(cand.guard, ax.guard, cand.n)):
                        raise Unsupported("arrays of different filtered lengths combined")
                elif not same_len(cand.n, ax.n):
                    throw(ValueError, "operands could not be broadcast together")
        out.append(cand if cand is not None else Axis(1))
    maps = []
    for j, c in enumerate(xs):
        o = nd - len(c.axes)
        def m(*ix, j=j, o=o):
            return tuple(z3.IntVal(0) if one[j][d] else ix[d] for d in range(o, nd))
        maps.append(m)
    return out, maps


def asarrc(x):
    if isarr(x):
        return arrc(x)
    if isinstance(x, Ref) and x.kind == "list":
        return arrc(from_seq(x.c))
    return ArrC((), lambda: x)


def map2(f, a, b, div=False):
    for x, y in ((a, b), (b, a)):
        if isarr(x) and isinstance(x.c, SeqArr) and x.c.ndim == 1 and not isarr(y):
            from .interp import map_seq
            g = (lambda t: f(t, b)) if x is a else (lambda t: f(a, t))
            return alloc("arr", SeqArr(map_seq(x.c.seq, g)))
    return mapn(f, a, b)


def mapn(f, *vs):
    cs = [asarrc(v) for v in vs]
    axs, maps = broadcast(cs)
    if not axs:
        return f(*[c.at() for c in cs])
    return mk(axs, lambda *ix: f(*[c.at(*m(*ix)) for c, m in zip(cs, maps)]))


def where_content(c, a, b):
    x, y = arrc(a), arrc(b)
    from .interp import merge
    if len(x.axes) != len(y.axes):
        raise Unsupported("merge of arrays of different dimension")
    for p, q in zip(x.axes, y.axes):
        if not (simp(num(p.n)).eq(simp(num(q.n))) and p.guard is None and q.guard is None):
            if p.guard is None and q.guard is None:
                if len(x.axes) == 1:
                    return alloc("arr", SeqArr(V.mk_if(c, as_seq(a), as_seq(b))))
            raise Unsupported("merge of arrays of different shape")
    return mk(x.axes, lambda *ix: merge(c, x.at(*ix), y.at(*ix)))


def as_seq(v):
    return rows(v)


# ------------------------------------------------------------- reductions
def reduce_sum(v, axis=None):
    c = arrc(v)
    if axis is None:
        if len(c.axes) == 1:
            axis = 0
        else:
            r = v
            while isarr(r):
                r = reduce_sum(r, 0)
            return r
    if axis < 0:
        axis += len(c.axes)
    ax = c.axes[axis]

    def el(*ix):
        n = const_len(ax.n)
        if n is not None and ax.guard is None and n <= 12:
            t = 0
            for i in range(n):
                x = c.at(*ix[:axis], i, *ix[axis:])
                t = V.add(t, x) if not is_bool(x) else V.add(t, num(x))
            return t
        k = z3.FreshConst(I, "s")
        x = num(c.at(*ix[:axis], k, *ix[axis:]))
        if ax.guard is not None:
            x = z3.If(boolt(ax.guard(k)), x, z3.RealVal(0) if x.is_real() else z3.IntVal(0))
        return from_bound(k, ax.n, x)
    rest = c.axes[:axis] + c.axes[axis + 1:]
    if not rest:
        return el()
    return mk(rest, el)


def from_bound(k, n, x):
    """sum with a canonical bound variable"""
    return core.mk_sum(k, num(n), x)


def reduce_minmax(v, sgn):
    """maximum (1) or minimum (-1) of all elements; ValueError when empty"""
    from .loops import maxfold
    c = arrc(v)
    if len(c.axes) != 1:
        raise Unsupported("max over several axes")
    ax = c.axes[0]
    n = const_len(ax.n)
    if n is not None and ax.guard is None:
        if n == 0:
            throw(ValueError, "zero-size array to reduction operation")
        t = c.at(0)
        for i in range(1, n):
            x = c.at(i)
            t = ite(num(t) >= num(x) if sgn > 0 else num(t) <= num(x), t, x)
        return t
    cnt = count(ax)
    if not E.decide(num(cnt) > 0):
        throw(ValueError, "zero-size array to reduction operation")
    kk = z3.FreshConst(I, "!m")
    f = real(c.at(kk))
    M = MAXOF if sgn > 0 else MINOF
    g = And(in_range(kk, ax.n), ax.guard(kk) if ax.guard is not None else True)
    t = M(lam(kk, simp(f)), lam(kk, simp(boolt(g))))
    j = z3.FreshConst(I, "j")
    gj, fj = z3.substitute(g, (kk, j)), z3.substitute(f, (kk, j))
    E.assume(forall([j], Implies(gj, (fj <= t) if sgn > 0 else (fj >= t))))
    E.assume(exists([j], And(gj, fj == t)))
    return t


MAXOF = z3.Function("MAXOF", z3.ArraySort(I, R), z3.ArraySort(I, B), R)
MINOF = z3.Function("MINOF", z3.ArraySort(I, R), z3.ArraySort(I, B), R)
ARGMIN = z3.Function("ARGMIN", z3.ArraySort(I, R), I, I)


def argmin(v, sgn=1):
    c = arrc(v)
    if len(c.axes) != 1 or c.axes[0].guard is not None:
        raise Unsupported("argmin over this array")
    n = c.axes[0].n
    if not E.decide(num(n) > 0):
        throw(ValueError, "attempt to get argmin of an empty sequence")
    kk = z3.FreshConst(I, "!m")
    f = simp(real(c.at(kk)) * sgn)
    arr = lam(kk, f)
    t = ARGMIN(arr, num(n))
    if getattr(E, "name_argmin", False):
        # (the caller guarantees that the array does not depend on a bound variable)
        u = E.const("argmin", I)
        E.assume(u == t)
        t = u
    j = z3.FreshConst(I, "j")
    fj = lambda x: z3.substitute(f, (kk, x))
    E.assume(And(t >= 0, t < num(n)))
    E.assume(forall([j], Implies(in_range(j, n), fj(t) <= fj(j))))
    E.assume(forall([j], Implies(And(j >= 0, j < t), fj(t) < fj(j))))
    return t


def bool_fold(v, isall):
    c = arrc(v)
    vs = [z3.FreshConst(I, "q") for _ in c.axes]
    ns = [const_len(a.n) for a in c.axes]
    if len(ns) == 1 and ns[0] is not None and c.axes[0].guard is None:
        xs = [tb(c.at(i)) for i in range(ns[0])]
        return And(*xs) if isall else Or(*xs)
    x = tb(c.at(*vs))
    rng = And(*[And(in_range(q, a.n), a.guard(q) if a.guard is not None else True) for q, a in zip(vs, c.axes)])
    return forall(vs, Implies(rng, x)) if isall else exists(vs, And(rng, x))


def tb(x):
    return boolt(x) if is_bool(x) else num(x) != 0


# ------------------------------------------------------------- construction
def zeros(shape, val=Fraction(0)):
    if not isinstance(shape, tuple):
        shape = (shape,)
    return mk([Axis(n) for n in shape], lambda *ix: val)


def from_seq(seq):
    """np.array(list)"""
    seq = tuple(seq)
    if not seq:
        return mk([Axis(0)], lambda i: Fraction(0))
    r = first_row(seq)
    from .interp import NTV
    if r is None:
        return alloc("arr", SeqArr(seq))
    if isarr(r):
        return alloc("arr", SeqArr(seq, 1 + ndim(r)))
    if isinstance(r, Ref) and r.kind == "list" or isinstance(r, tuple):
        from .interp import map_seq
        return alloc("arr", SeqArr(map_seq(seq, lambda x: from_seq(x.c if isinstance(x, Ref) else tuple(Elem(y) for y in x))), 1 + (1)))
    if all(isinstance(g, Elem) for g in seq):
        vals = [g.v for g in seq]
        if not all(is_num(x) or is_bool(x) for x in vals):
            raise Unsupported("array of non-numbers")
        def el(i):
            i = simp(num(i))
            if z3.is_int_value(i) and 0 <= i.as_long() < len(vals):
                return vals[i.as_long()]
            t = vals[-1]
            for j in reversed(range(len(vals) - 1)):
                t = ite(i == j, vals[j], t)
            return t
        return mk([Axis(len(vals))], el)
    if len(seq) == 1 and isinstance(seq[0], For) and V.simple_for(seq[0]):
        f = seq[0]
        if is_num(f.body[0].v) or is_bool(f.body[0].v):
            return mk([Axis(f.n)], lambda i: V.subst(f.body[0].v, [(f.k, num(i))]))
    return alloc("arr", SeqArr(seq))


def copy(v):
    return alloc("arr", content(v))


def concatenate(parts):
    """of a list of 1-d arrays given as a sequence"""
    out = cat_seq(parts)
    if all(isinstance(g, Elem) for g in out):
        return from_seq(out)
    return alloc("arr", norm_seqarr(out))


def norm_seqarr(seq):
    return SeqArr(seq)


def cat_seq(parts):
    out = ()
    for g in parts:
        if isinstance(g, Elem):
            x = g.v
            if isinstance(x, Ref) and x.kind == "list":
                x = from_seq(x.c)
            if not isarr(x):
                throw(ValueError, "zero-dimensional arrays cannot be concatenated")
            out += tuple(rows(x))
        elif isinstance(g, IfS):
            out += V.mk_if(g.c, cat_seq(g.a), cat_seq(g.b))
        elif isinstance(g, For):
            out += (For(g.k, g.n, cat_seq(g.body)),)
        else:
            raise Unsupported("concatenation of a set")
    return out


# ------------------------------------------------------------- indexing
def norm_index(v, i, ax):
    """non-negative index of an axis; raises IndexError on the failing path"""
    if isinstance(i, bool):
        i = int(i)
    if is_z3(i) and i.sort() == R or isinstance(i, Fraction):
        throw(IndexError, "only integers are valid indices")
    if ax.guard is not None:
        raise Unsupported("integer index into a filtered axis")
    n = num(ax.n)
    if isinstance(i, int) and i < 0:
        if not E.decide(n >= -i):
            throw(IndexError, "index out of bounds")
        return simp(n + i)
    it = num(i)
    if is_z3(i) and not E.entails(it >= 0):
        if not E.decide(it >= 0):
            if not E.decide(it >= -n):
                throw(IndexError, "index out of bounds")
            return simp(it + n)
    if not E.decide(it < n):
        throw(IndexError, "index out of bounds")
    return it


def slice_bounds(s, ax):
    if s.step not in (None, 1):
        raise Unsupported("array slice step")
    if ax.guard is not None:
        if s.start is None and s.stop is None:
            return None
        raise Unsupported("slice of a filtered axis")
    n = num(ax.n)
    def nb(x, dflt):
        if x is None:
            return dflt
        if isinstance(x, Fraction) or is_z3(x) and x.sort() == R:
            throw(TypeError, "slice indices must be integers")
        if isinstance(x, int) and x < 0:
            t = n + x
        else:
            t = num(x)
        if E.entails(And(t >= 0, t <= n)):
            return simp(t)
        if E.entails(t >= 0):
            return simp(z3.If(t > n, n, t))
        return simp(z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t)))
    lo, hi = nb(s.start, z3.IntVal(0)), nb(s.stop, n)
    ln = simp(hi - lo)
    if not E.entails(ln >= 0):
        ln = simp(z3.If(ln > 0, ln, z3.IntVal(0)))
    return lo, ln


class Diag:
    """np.diag_indices(n)"""
    def __init__(self, n):
        self.n = n


def getitem(v, idx, check=True):
    if not isinstance(idx, tuple):
        idx = (idx,)
    c0 = v.c
    if isinstance(c0, SeqArr) and c0.ndim >= 2 and len(idx) == 1 and not isinstance(idx[0], slice) and not isarr(idx[0]):
        return V.seq_get(c0.seq, idx[0])
    if isinstance(c0, SeqArr) and c0.ndim == 1 and len(idx) == 1 and not isinstance(idx[0], slice) and not isarr(idx[0]):
        return V.seq_get(c0.seq, idx[0])
    if len(idx) == 1 and isinstance(idx[0], Diag):
        c = arrc(v)
        return mk([Axis(idx[0].n)], lambda i: c.at(i, i))
    if isinstance(c0, SeqArr):
        base = alloc("arr", arrc(v))
    else:
        base = v
    axs = axes(base)
    # boolean mask of full shape
    if len(idx) == 1 and isarr(idx[0]) and len(axs) == 1:
        m = arrc(idx[0])
        if sort_of_content(m) == B:
            c = arrc(base)
            ax = axs[0]
            same_len(ax.n, m.axes[0].n)
            return mk([Axis(ax.n, lambda i: And(m.at(i), ax.guard(i) if ax.guard else True))], lambda i: c.at(i))
    new_axes, plan, gather = [], [], False
    d = 0
    for ix in idx:
        if ix is None:
            new_axes.append(Axis(1))
            plan.append(("new", len(new_axes) - 1))
            continue
        if d >= len(axs):
            throw(IndexError, "too many indices for array")
        ax = axs[d]
        if isinstance(ix, slice):
            b = slice_bounds(ix, ax)
            if b is None or (z3.is_int_value(simp(b[0])) and simp(b[0]).as_long() == 0 and simp(b[1]).eq(simp(num(ax.n)))):
                new_axes.append(ax)
                plan.append(("keep", len(new_axes) - 1, None))
            else:
                new_axes.append(Axis(b[1]))
                plan.append(("keep", len(new_axes) - 1, b[0]))
            d += 1
        elif isarr(ix) or isinstance(ix, Ref) and ix.kind == "list":
            ia = arrc(ix) if isarr(ix) else arrc(from_seq(ix.c))
            if len(ia.axes) != 1:
                raise Unsupported("index array of several dimensions")
            if sort_of_content(ia) == B:
                ax2 = ax
                new_axes.append(Axis(ax.n, lambda i, ia=ia, ax2=ax2: And(ia.at(i), ax2.guard(i) if ax2.guard else True)))
                plan.append(("keep", len(new_axes) - 1, None))
            else:
                gather = True
                if ia.pos is not None:
                    n0, g0 = ia.pos
                    if not (simp(num(n0)).eq(simp(num(ax.n))) or E.entails(num(n0) == num(ax.n))) or not same_guard(g0, ax.guard, ax.n):
                        raise Unsupported("positions of one filtered axis used to index another")
                elif ax.guard is not None:
                    raise Unsupported("index array into a filtered axis")
                new_axes.append(ia.axes[0])
                plan.append(("gather", len(new_axes) - 1, ia))
            d += 1
        elif isinstance(ix, (int, Fraction)) or is_z3(ix):
            plan.append(("fix", norm_index(base, ix, ax) if check else num(ix)))
            d += 1
        else:
            raise Unsupported("array index")
    while d < len(axs):
        new_axes.append(axs[d])
        plan.append(("keep", len(new_axes) - 1, None))
        d += 1

    def imap(*ix):
        out = []
        for p in plan:
            if p[0] == "fix":
                out.append(p[1])
            elif p[0] == "keep":
                out.append(ix[p[1]] if p[2] is None else simp(ix[p[1]] + p[2]))
            elif p[0] == "gather":
                out.append(num(p[2].at(ix[p[1]])))
        return tuple(out)
    if not new_axes:
        return arrc(base).at(*imap())
    if gather or any(isinstance(p, tuple) and p[0] == "gather" for p in plan) or any(isarr(x) for x in idx):
        c = arrc(base)
        return mk(new_axes, lambda *ix: c.at(*imap(*ix)))

    def back(*bix):
        conds, out, d = [], {}, 0
        for p in plan:
            if p[0] == "fix":
                conds.append(bix[d] == p[1])
                d += 1
            elif p[0] == "keep":
                x = bix[d] if p[2] is None else simp(bix[d] - p[2])
                if p[2] is not None:
                    conds.append(in_range(x, new_axes[p[1]].n))
                out[p[1]] = x
                d += 1
            else:
                out[p[1]] = z3.IntVal(0)
        return And(*conds), tuple(out[i] for i in range(len(new_axes)))
    return alloc("arr", View(base, new_axes, imap, back))


def write(v, cond_val):
    """replace the elements of v: cond_val(idx, old) -> new"""
    c = v.c
    if isinstance(c, View):
        base, back = c.base, c.back

        def through(bix, old):
            cnd, vix = back(*bix)
            return ite_v(cnd, cond_val(vix, old), old)
        write(base, through)
        return
    c = arrc(v)
    setc(v, ArrC(c.axes, lambda *ix: cond_val(ix, c.at(*ix)), None))


def ite_v(c, a, b):
    c = simp(boolt(c))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return simp(ite(c, a, b))


def assign_all(v, r):
    """v[...] = r (in place)"""
    if isarr(r):
        rc = arrc(r)
        axs, maps = broadcast([arrc(v), rc])
        if len(axs) != ndim(v):
            throw(ValueError, "non-broadcastable output operand")
        m = maps[1]
        write(v, lambda ix, old: keep_sort(old, rc.at(*m(*ix))))
    else:
        write(v, lambda ix, old: r)


def keep_sort(old, new):
    return new


def setitem(v, idx, val):
    if isinstance(v.c, SeqArr):
        setc(v, arrc(v))
    if isinstance(idx, Diag):
        rc = asarrc(val)
        def f(ix, old):
            return ite_v(ix[0] == ix[1], rc.at(*([ix[0]] if rc.axes else [])), old)
        write(v, f)
        return
    if not isinstance(idx, tuple):
        idx = (idx,)
    if len(idx) == ndim(v) and all(isinstance(i, (int, Fraction, bool)) or is_z3(i) for i in idx):
        ns = [norm_index(v, i, ax) for i, ax in zip(idx, axes(v))]
        if isarr(val):
            vc = arrc(val)
            if all(const_len(a.n) == 1 for a in vc.axes):
                val = vc.at(*[0] * len(vc.axes))
            else:
                throw(ValueError, "setting an array element with a sequence")
        if not (is_num(val) or is_bool(val)):
            if val is None:
                throw(TypeError, "float() argument must not be None")
            raise Unsupported("array element of this type")
        write(v, lambda ix, old: ite_v(And(*[a == b for a, b in zip(ix, ns)]), val, old))
        return
    if len(idx) == 1 and isarr(idx[0]) and sort_of_content(arrc(idx[0])) == B:
        m = arrc(idx[0])
        if isarr(val):
            raise Unsupported("masked assignment of an array")
        write(v, lambda ix, old: ite_v(m.at(*ix[:len(m.axes)]), val, old))
        return
    t = getitem(v, idx)
    if not isarr(t) or not isinstance(t.c, View):
        raise Unsupported("assignment through an index array")
    if isinstance(val, Ref) and val.kind == "list":
        val = from_seq(val.c)
    elif isinstance(val, tuple):
        val = from_seq(tuple(Elem(x) for x in val))
    assign_all(t, val)


def matmul(a, b):
    x, y = arrc(a), arrc(b)
    la, fy = x.axes[-1], y.axes[0]
    same_len(la.n, fy.n)
    if la.guard or fy.guard:
        raise Unsupported("matrix product over a filtered axis")

    def el(*ix):
        ia, ib = ix[:len(x.axes) - 1], ix[len(x.axes) - 1:]
        k = z3.FreshConst(I, "s")
        return from_bound(k, la.n, real(x.at(*ia, k)) * real(y.at(k, *ib)))
    axs = x.axes[:-1] + y.axes[1:]
    if not axs:
        return el()
    return mk(axs, el)


def outer(a, b):
    x, y = arrc(a), arrc(b)
    return mk([x.axes[0], y.axes[0]], lambda i, j: simp(num(x.at(i)) * num(y.at(j))))
