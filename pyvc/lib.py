"""Behaviour of builtins and of the libraries pymars uses (all of it assumed)."""
import ast
import z3
from fractions import Fraction
from . import core, values as V, arrays as A
from .core import (E, Ref, Unsupported, NeedsInvariant, ExcV, throw, I, R, B, Str, And, Or, Not, Implies, ite, boolt, num, real, strt,
                   is_z3, is_num, is_bool, is_str, in_range, forall, exists, simp, mk_sum, contains)
from .values import Elem, IfS, For, Hole, SetSeg, StrV, Fmt, Join, DictC, SetC, ArrC, SeqArr, Axis, Opt, alloc, setc, mk_str, str_parts
from .interp import (Native, LibMod, TypeV, ExcCls, Ext, ext, upd, RangeV, DictView, Wrapped, Cls, Fn, NTV, CanteraError, LinAlgError,
                     map_seq, merge, kterm, BoundM, OwnedFn, ProgExc)

STARTSWITH = z3.Function("STARTSWITH", Str, Str, B)
ENDSWITH = z3.Function("ENDSWITH", Str, Str, B)
SQRT = z3.Function("SQRT", R, R)
EXP = z3.Function("EXP", R, R)
LOG = z3.Function("LOG", R, R)
UNDER = {}


def native(ns, name=None):
    def deco(f):
        ns[name or f.__name__] = Native(name or f.__name__, f)
        return f
    return deco


# =================================================================== builtins
def builtins(ip):
    d = {}
    for t in ("int", "float", "str", "bool", "list", "tuple", "dict", "set", "frozenset", "object", "type"):
        d[t] = TypeV(t)
    for ex in (Exception, BaseException, ValueError, TypeError, KeyError, IndexError, AttributeError, RuntimeError, NotImplementedError,
               AssertionError, SystemExit, SystemError, OSError, IOError, FileNotFoundError, ImportError, ZeroDivisionError, StopIteration,
               ArithmeticError, LookupError, NameError, KeyboardInterrupt, Warning, UserWarning):
        d[ex.__name__] = ExcCls(ex)
    d["True"], d["False"], d["None"] = True, False, None
    d["NotImplemented"] = None

    @native(d)
    def len(x):
        return ip.length(x)

    @native(d)
    def range(*a):
        a = [ip.idx(x) for x in a]
        if __builtins_len(a) == 1:
            return RangeV(0, a[0], 1)
        return RangeV(a[0], a[1], a[2] if __builtins_len(a) > 2 else 1)

    @native(d)
    def enumerate(x, start=0):
        s = ip.iter_seq(x)
        return alloc("list", enum_seq(s, start))

    @native(d)
    def zip(*xs, strict=False):
        return alloc("list", zip_seq([ip.iter_seq(x) for x in xs]))

    @native(d)
    def reversed(x):
        s = ip.iter_seq(x)
        return alloc("list", rev_seq(s))

    @native(d)
    def sorted(x, key=None, reverse=False):
        return alloc("list", sort_seq(ip, ip.iter_seq(x), key, reverse))

    @native(d)
    def map(f, *xs):
        if __builtins_len(xs) != 1:
            raise Unsupported("map over several sequences")
        out = alloc("list", ())
        from . import loops

        def body(v):
            r = ip.call(f, [v], {})
            setc(out, out.c + (Elem(r),))
        loops.run_for(ip, ip.iter_seq(xs[0]), body, None, [], None, "map")
        return out

    @native(d)
    def filter(f, x):
        out = alloc("list", ())
        from . import loops

        def body(v):
            if ip.truth(v if f is None else ip.call(f, [v], {})):
                setc(out, out.c + (Elem(v),))
        loops.run_for(ip, ip.iter_seq(x), body, None, [], None, "filter")
        return out

    @native(d)
    def all(x):
        return fold_bool(ip, x, True)

    @native(d)
    def any(x):
        return fold_bool(ip, x, False)

    @native(d)
    def sum(x, start=0):
        if A.isarr(x):
            return A.reduce_sum(x, 0)
        return V_sum(ip, ip.iter_seq(x), start)

    def minmax(sgn):
        def f(*a, key=None, default=None):
            if key is not None:
                raise Unsupported("min/max with key")
            if __builtins_len(a) == 1:
                x = a[0]
                if A.isarr(x):
                    return A.reduce_minmax(x, sgn)
                s = ip.iter_seq(x)
                if not __builtins_all(isinstance(g, Elem) for g in s):
                    return A.reduce_minmax(A_from(s), sgn)
                a = [g.v for g in s]
                if not a:
                    if default is not None:
                        return default
                    throw(ValueError, "min/max of an empty sequence")
            t = ip.force(a[0])
            for x in a[1:]:
                x = ip.force(x)
                if x is None or t is None:
                    throw(TypeError, "comparison with None")
                if isinstance(t, (int, Fraction)) and isinstance(x, (int, Fraction)):
                    t = (x if x > t else t) if sgn > 0 else (x if x < t else t)
                else:
                    t = simp(ite(num_ge(t, x) if sgn > 0 else num_ge(x, t), t, x))
            return t
        return f
    d["max"] = Native("max", minmax(1))
    d["min"] = Native("min", minmax(-1))

    @native(d)
    def abs(x):
        return absval(x)

    @native(d)
    def isinstance_(x, t):
        return isinst(ip, x, t)
    d["isinstance"] = d.pop("isinstance_")

    @native(d)
    def issubclass(a, b):
        if isinstance(a, ExcCls) and isinstance(b, ExcCls):
            return __builtins_issub(a.py, b.py)
        raise Unsupported("issubclass")

    @native(d)
    def print(*a, **k):
        return None

    @native(d)
    def callable(x):
        if isinstance(x, (Fn, Native, BoundM, Cls, OwnedFn)):
            return True
        if isinstance(x, Ref) and x.kind == "ext" and hasattr(x.tag, "callable"):
            return x.tag.callable(x)
        return False

    @native(d)
    def getattr(o, n, *dflt):
        if isinstance(n, StrV) or is_z3(n):
            raise Unsupported("symbolic attribute name")
        if dflt:
            if not hasattr_(ip, o, n):
                return dflt[0]
        return ip.getattr(o, n)

    @native(d)
    def hasattr(o, n):
        return hasattr_(ip, o, n)

    @native(d)
    def setattr(o, n, v):
        ip.setattr(o, n, v)

    @native(d)
    def dir(o):
        if isinstance(o, Ref) and o.kind == "ext" and "dir" in o.tag.__class__.__dict__:
            return o.tag.dir(o)
        raise Unsupported("dir()")

    @native(d)
    def id(o):
        raise Unsupported("id()")

    @native(d)
    def iter(o):
        return alloc("list", ip.iter_seq(o))

    @native(d)
    def next(o, *dflt):
        if isinstance(o, Ref) and o.kind == "ext" and hasattr_py(o.tag, "next"):
            return o.tag.next(o)
        if isinstance(o, Ref) and o.kind == "list":
            # first element of a generator that is used once
            s = o.c
            if V.seq_len(s) == 0:
                if dflt:
                    return dflt[0]
                throw(StopIteration)
            L = V.seq_len(s)
            if E.decide(num(L) > 0):
                x = V.seq_get(s, 0)
                setc(o, ip.seq_slice(s, slice(1, None)))
                return x
            if dflt:
                return dflt[0]
            throw(StopIteration)
        raise Unsupported("next()")

    @native(d)
    def round(x, n=None):
        raise Unsupported("round()")

    @native(d)
    def repr(x):
        return mk_str((Elem(Fmt(x, "r")),))

    @native(d)
    def format(x, spec=""):
        return mk_str(ip.fmt(x, spec))

    @native(d)
    def open(path, mode="r", **k):
        return ip.lib["%open"](path, mode)

    @native(d)
    def divmod(a, b):
        raise Unsupported("divmod")

    @native(d)
    def pow(a, b):
        return ip.scalar_op("Pow", a, b)
    d["staticmethod"] = Native("staticmethod", lambda f: Wrapped("static", f))
    d["classmethod"] = Native("classmethod", lambda f: Wrapped("class", f))
    d["property"] = Native("property", lambda f: Wrapped("property", f))
    return d


import builtins as _b
__builtins_len, __builtins_all, __builtins_issub, hasattr_py = _b.len, _b.all, _b.issubclass, _b.hasattr


def num_ge(a, b):
    x, y = core.coerce2(a, b)
    return x >= y


def absval(x):
    if A.isarr(x):
        return A.map1(x, absval)
    if isinstance(x, (int, Fraction)):
        return -x if x < 0 else x
    x = num(x)
    zero = z3.RealVal(0) if x.is_real() else z3.IntVal(0)
    return simp(z3.If(x >= zero, x, -x))


def A_from(s):
    return A.from_seq(s)


def enum_seq(s, start):
    if not s:
        return ()
    if _b.all(isinstance(g, Elem) for g in s):
        return tuple(Elem((V.add(start, i), g.v)) for i, g in _b.enumerate(s))
    if _b.len(s) == 1 and isinstance(s[0], For) and V.simple_for(s[0]):
        f = s[0]
        return (For(f.k, f.n, (Elem((simp(f.k + num(start)), f.body[0].v)),)),)
    out, off = [], start
    for g in s:
        if isinstance(g, Elem):
            out.append(Elem((off, g.v)))
            off = V.add(off, 1)
        elif isinstance(g, For) and V.simple_for(g):
            out.append(For(g.k, g.n, (Elem((simp(g.k + num(off)), g.body[0].v)),)))
            off = V.add(off, V.for_len(g))
        elif isinstance(g, For) and _b.len(s) == 1:
            L = V.for_len(g)
            k = z3.FreshConst(I, "k")
            from .interp import get_noforks
            return (For(k, L, (Elem((simp(k + num(start)), get_noforks(s, k))),)),)
        elif isinstance(g, SetSeg):
            from .loops import set_enum
            return enum_seq(tuple(set_enum(x.set) if isinstance(x, SetSeg) else x for x in s), start)
        else:
            raise Unsupported("enumerate over a nested sequence")
    return tuple(out)


def zip_seq(ss):
    from .interp import get_noforks
    if not ss or _b.any(not s for s in ss):
        return ()
    if _b.all(_b.all(isinstance(g, Elem) for g in s) for s in ss):
        return tuple(Elem(tuple(g.v for g in gs)) for gs in _b.zip(*ss))
    # equal shapes: element by element
    def shape(s):
        return [type(g).__name__ for g in s]
    Ls = [V.seq_len(s) for s in ss]
    n = Ls[0]
    for L in Ls[1:]:
        a, b = num(n), num(L)
        if simp(a).eq(simp(b)) or E.entails(a <= b):
            continue
        if E.entails(b <= a):
            n = L
        else:
            n = simp(z3.If(a <= b, a, b))
    k = z3.FreshConst(I, "k")
    if all_simple_for(ss):
        return (For(k, n, (Elem(tuple(V.inst(s[0], k)[0].v for s in ss)),)),)
    return (For(k, n, (Elem(tuple(get_noforks(s, k) for s in ss)),)),)


def all_simple_for(ss):
    return _b.all(_b.len(s) == 1 and isinstance(s[0], For) and V.simple_for(s[0]) for s in ss)


def rev_seq(s):
    out = []
    for g in _b.reversed(s):
        if isinstance(g, Elem):
            out.append(g)
        elif isinstance(g, IfS):
            out.append(IfS(g.c, rev_seq(g.a), rev_seq(g.b)))
        elif isinstance(g, For):
            out.append(For(g.k, g.n, rev_seq(V.subst(g.body, [(g.k, num(g.n) - 1 - g.k)]))))
        else:
            raise Unsupported("reversed")
    return tuple(out)


def sort_seq(ip, s, key, reverse):
    """sorted(): a permutation of the input, ordered by key"""
    if _b.len(s) <= 1 and _b.all(isinstance(g, Elem) for g in s):
        return tuple(s)
    kname = None
    if key is None:
        kf = lambda v: v
    else:
        kf = lambda v: ip.call(key, [v], {})
    if _b.all(isinstance(g, Elem) for g in s):
        ks = [kf(g.v) for g in s]
        if _b.all(isinstance(k, str) for k in ks) or _b.all(isinstance(k, (int, Fraction)) for k in ks):
            return tuple(g for _, g in _b.sorted(_b.zip(ks, s), key=lambda t: t[0], reverse=reverse))
    if reverse:
        raise Unsupported("sorted(reverse=True)")
    return ip.lib["%sort"](ip, s, kf)


def fold_bool(ip, x, isall):
    if A.isarr(x):
        return A.bool_fold(x, isall)
    s = ip.iter_seq(x)
    return seq_bool(ip, s, isall)


def seq_bool(ip, s, isall):
    out = []
    for g in s:
        if isinstance(g, Elem):
            out.append(boolt(ip.truth_term(g.v)))
        elif isinstance(g, IfS):
            a, b = seq_bool(ip, g.a, isall), seq_bool(ip, g.b, isall)
            out.append(ite(g.c, boolt(a), boolt(b)))
        elif isinstance(g, For):
            k = z3.FreshConst(I, "k")
            r = in_range(k, g.n)
            b = boolt(seq_bool(ip, V.subst(g.body, [(g.k, k)]), isall))
            out.append(forall([k], Implies(r, b)) if isall else exists([k], And(r, b)))
        elif isinstance(g, SetSeg):
            x = z3.FreshConst(Str, "x")
            raise Unsupported("all/any over a set")
        else:
            raise NeedsInvariant("all/any over a list that is being built")
    r = simp(And(*out) if isall else Or(*out))
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def V_sum(ip, s, start):
    t = start
    for g in s:
        if isinstance(g, Elem):
            if A.isarr(g.v) or A.isarr(t):
                t = ip.binop(ast.Add(), t, g.v)
            else:
                t = ip.scalar_op("Add", t, g.v)
        elif isinstance(g, IfS):
            t = V.add(t, ite(g.c, num(V_sum(ip, g.a, 0)), num(V_sum(ip, g.b, 0))))
        elif isinstance(g, For):
            kk = z3.FreshConst(I, "!s")
            b = num(V_sum(ip, V.subst(g.body, [(g.k, kk)]), 0))
            t = V.add(t, mk_sum(kk, num(g.n), b))
        else:
            raise Unsupported("sum over a set")
    return t


def isinst(ip, x, t):
    if isinstance(t, tuple):
        return _b.any(isinst(ip, x, y) for y in t)
    if isinstance(t, TypeV):
        n = t.name
        if n == "list":
            return isinstance(x, Ref) and x.kind == "list"
        if n == "dict":
            return isinstance(x, Ref) and x.kind == "dict"
        if n == "tuple":
            return isinstance(x, (tuple, NTV))
        if n == "str":
            return is_str(x) or isinstance(x, StrV)
        if n == "bool":
            return is_bool(x)
        if n == "int":
            return is_bool(x) or isinstance(x, int) or is_z3(x) and x.sort() == I
        if n == "float":
            return isinstance(x, Fraction) or is_z3(x) and x.sort() == R
        if n == "set":
            return isinstance(x, Ref) and x.kind == "set"
        if n == "ndarray":
            return A.isarr(x)
        if n == "object":
            return True
    if isinstance(t, Cls):
        if isinstance(x, NTV):
            return x.cls is t
        return isinstance(x, Ref) and x.kind == "obj" and t in x.tag.mro()
    if isinstance(t, ExcCls):
        return isinstance(x, ExcV) and _b.issubclass(x.cls, t.py)
    raise Unsupported("isinstance")


def hasattr_(ip, o, n):
    if isinstance(o, Ref) and o.kind == "ext":
        return o.tag.hasattr(o, n)
    try:
        ip.getattr(o, n)
        return True
    except ProgExc as e:
        if e.exc.cls is AttributeError:
            return False
        raise


def construct(ip, t, args, kw):
    n = t.name
    if n == "list":
        if not args:
            return alloc("list", ())
        return alloc("list", ip.iter_seq(args[0]))
    if n == "tuple":
        s = ip.iter_seq(args[0]) if args else ()
        if _b.all(isinstance(g, Elem) for g in s):
            return tuple(g.v for g in s)
        return alloc("list", s)
    if n == "dict":
        d = alloc("dict", DictC(items=()))
        if args:
            a = args[0]
            if isinstance(a, Ref) and a.kind == "dict":
                setc(d, a.c)
            else:
                from . import loops

                def body(v):
                    k, x = ip.unpack(v, [ast.Name("a"), ast.Name("b")])
                    ip.dict_set(d, k, x)
                loops.run_for(ip, ip.iter_seq(a), body, None, [], None, "dict")
        for k, v in kw.items():
            ip.setitem(d, k, v)
        return d
    if n in ("set", "frozenset"):
        if not args:
            return ip.mkset(())
        a = args[0]
        if isinstance(a, Ref) and a.kind == "set":
            return alloc("set", a.c)
        if isinstance(a, Ref) and a.kind == "dict" and not a.c.concrete:
            c = a.c
            return alloc("set", SetC(lambda x: c.has(strt(x)), c.keys))
        return ip.mkset(ip.iter_seq(a))
    if n == "str":
        if not args:
            return ""
        return mk_str(ip.fmt(args[0]))
    if n == "bool":
        x = ip.truth_term(args[0]) if args else False
        return x
    if n == "int":
        x = args[0] if args else 0
        x = ip.force(x)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, Fraction):
            return int(x)
        if is_z3(x) and x.sort() == I:
            return x
        if is_z3(x) and x.sort() == B:
            return num(x)
        if is_z3(x) and x.sort() == R:
            # truncation towards zero
            return simp(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                throw(ValueError, x)
        raise Unsupported("int()")
    if n == "float":
        x = args[0] if args else 0
        x = ip.force(x)
        if isinstance(x, str):
            if x in ("inf", "-inf", "nan"):
                raise Unsupported("infinite or undefined number")
            try:
                return Fraction(x)
            except ValueError:
                throw(ValueError, x)
        if isinstance(x, (bool, int, Fraction)):
            return Fraction(x)
        if is_z3(x) and x.sort() != Str:
            return real(x)
        if A.isarr(x):
            return A.arrc(x).at(*[0] * _b.len(A.arrc(x).axes))
        if x is None:
            throw(TypeError, "float(None)")
        raise Unsupported("float()")
    if n == "type":
        x = args[0]
        if isinstance(x, Ref) and x.kind == "obj":
            return x.tag
        if isinstance(x, Ref) and x.kind == "ext" and hasattr_py(x.tag, "type_of"):
            return x.tag.type_of(x)
        raise Unsupported("type()")
    if n == "object":
        return alloc("obj", {}, Cls("object", [], None))
    if n == "ArgumentParser":
        return ip.lib["%argparser"](*args, **kw)
    raise Unsupported(f"construction of {n}")


# =================================================================== methods
def method(ip, o, n):
    if isinstance(o, str) or isinstance(o, StrV) or is_str(o):
        f = getattr_py(StrM, n)
        if f is None:
            raise Unsupported(f"str.{n}")
        return Native("str." + n, lambda *a, **k: f(ip, o, *a, **k))
    if isinstance(o, Ref):
        T = {"list": ListM, "dict": DictM, "set": SetM, "arr": ArrM}.get(o.kind)
        if T is None:
            raise Unsupported(f"attribute {n} of {o.kind}")
        p = getattr_py(T, "g_" + n)
        if p is not None:
            return p(ip, o)
        f = getattr_py(T, n)
        if f is None:
            if hasattr_py({"list": list, "dict": dict, "set": set}.get(o.kind, object), n) or o.kind == "arr":
                raise Unsupported(f"{o.kind}.{n}")
            throw(AttributeError, n)
        return Native(f"{o.kind}.{n}", lambda *a, **k: f(ip, o, *a, **k))
    if isinstance(o, tuple):
        if n == "index":
            def index(x):
                for i, y in _b.enumerate(o):
                    if ip.truth(ip.equal(y, x)):
                        return i
                throw(ValueError, "not in tuple")
            return Native("tuple.index", index)
        if n == "count":
            raise Unsupported("tuple.count")
        throw(AttributeError, n)
    if isinstance(o, (int, Fraction, bool)) or is_z3(o):
        if n == "size":
            return 1
        if n == "shape":
            return ()
        if n == "ndim":
            return 0
        if n == "real":
            return o
        if n == "item":
            return Native("item", lambda: o)
        if n == "copy":
            return Native("copy", lambda: o)
        if n == "is_integer":
            return Native("is_integer", lambda: z3.IsInt(real(o)))
        throw(AttributeError, n)
    if isinstance(o, TypeV):
        if o.name == "dict" and n == "fromkeys":
            def fromkeys(it, v=None):
                d = alloc("dict", DictC(items=()))
                for k in ip.concrete(ip.iter_seq(it)):
                    ip.setitem(d, k, v)
                return d
            return Native("dict.fromkeys", fromkeys)
        if n == "__name__":
            return o.name
    if isinstance(o, DictView):
        raise Unsupported(f"attribute {n} of a view")
    throw(AttributeError, n)


def getattr_py(T, n):
    v = T.__dict__.get(n)
    if isinstance(v, staticmethod):
        return v.__func__
    return v


class StrM:
    def join(ip, sep, it):
        s = ip.iter_seq(it)
        if _b.all(isinstance(g, Elem) for g in s):
            out = ()
            for i, g in _b.enumerate(s):
                if not (is_str(g.v) or isinstance(g.v, StrV)):
                    throw(TypeError, "join of non-strings")
                if i:
                    out += str_parts(sep)
                out += str_parts(g.v)
            return mk_str(out)
        if isinstance(sep, str) and sep == "":
            return mk_str(flat_parts(s))
        return StrV((Elem(Fmt(Join(sep, norm_join(s)))),))

    def format(ip, s, *a, **k):
        import string
        if not isinstance(s, str):
            raise Unsupported("format of a symbolic template")
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(Elem(lit))
            if field is not None:
                if "{" in (spec or ""):
                    raise Unsupported("nested format field")
                m = field
                if m == "":
                    v = a[auto]
                    auto += 1
                elif m.isdigit():
                    v = a[int(m)]
                elif m.isidentifier():
                    if m not in k:
                        throw(KeyError, m)
                    v = k[m]
                else:
                    raise Unsupported("format field")
                parts += list(ip.fmt(v, spec or ""))
        return mk_str(parts)

    def startswith(ip, s, p, *a):
        if isinstance(p, tuple):
            r = [StrM.startswith(ip, s, x) for x in p]
            return ip.anyof(r)
        if isinstance(s, str) and isinstance(p, str):
            return s.startswith(p)
        if isinstance(p, str) and isinstance(s, StrV) and s.parts and isinstance(s.parts[0], Elem) and isinstance(s.parts[0].v, str) and _b.len(s.parts[0].v) >= _b.len(p):
            return s.parts[0].v.startswith(p)
        return STARTSWITH(strt(s), strt(p))

    def endswith(ip, s, p, *a):
        if isinstance(p, tuple):
            return ip.anyof([StrM.endswith(ip, s, x) for x in p])
        if isinstance(s, str) and isinstance(p, str):
            return s.endswith(p)
        return ENDSWITH(strt(s), strt(p))

    def _conc(name):
        def f(ip, s, *a):
            if isinstance(s, str) and _b.all(isinstance(x, (str, int)) for x in a):
                r = getattr(s, name)(*a)
                if isinstance(r, list):
                    return alloc("list", tuple(Elem(x) for x in r))
                return r
            if name in ("lower", "upper", "strip", "rstrip", "lstrip", "replace", "capitalize", "title", "casefold"):
                g = z3.Function("str." + name, *[Str] * (1 + _b.len(a)), Str)
                return g(strt(s), *[strt(x) for x in a])
            raise Unsupported(f"str.{name} of a symbolic string")
        return f
    for _n in ("lower", "upper", "strip", "rstrip", "lstrip", "split", "splitlines", "replace", "find", "isdigit", "capitalize", "title",
               "count", "index", "rfind", "rsplit", "partition", "rpartition", "isalpha", "zfill", "casefold", "isspace"):
        locals()[_n] = _conc(_n)

    def _pad(name, ch):
        def f(ip, s, w, fill=" "):
            if isinstance(s, str) and isinstance(w, int):
                return getattr(s, name)(w, fill)
            if fill != " " or not isinstance(w, int):
                raise Unsupported("padding")
            return mk_str((Elem(Fmt(s, f"{ch}{w}")),))
        return f
    ljust, rjust, center = _pad("ljust", "<"), _pad("rjust", ">"), _pad("center", "^")


def flat_parts(s):
    out = []
    for g in s:
        if isinstance(g, Elem):
            out += list(str_parts(g.v))
        elif isinstance(g, IfS):
            out += list(V.mk_if(g.c, flat_parts(g.a), flat_parts(g.b)))
        elif isinstance(g, For):
            out.append(For(g.k, g.n, tuple(flat_parts(g.body))))
        else:
            raise Unsupported("join of a set")
    return tuple(out)


def norm_join(s):
    return map_seq(s, lambda v: mk_str(str_parts(v)))


class ListM:
    def append(ip, o, x):
        setc(o, o.c + (Elem(x),))

    def extend(ip, o, it):
        s = ip.iter_seq(it)
        if _b.any(isinstance(g, SetSeg) for g in s):
            from .loops import set_enum
            s = tuple(set_enum(g.set) if isinstance(g, SetSeg) else g for g in s)
        setc(o, o.c + tuple(s))

    def insert(ip, o, i, x):
        if i == 0:
            setc(o, (Elem(x),) + o.c)
        elif isinstance(i, int) and _b.all(isinstance(g, Elem) for g in o.c):
            l = list(o.c)
            l.insert(i, Elem(x))
            setc(o, tuple(l))
        else:
            raise Unsupported("list.insert")

    def pop(ip, o, i=-1):
        return ip.list_pop(o, i)

    def remove(ip, o, x):
        if _b.all(isinstance(g, Elem) for g in o.c):
            for i, g in _b.enumerate(o.c):
                if ip.truth(ip.equal(g.v, x)):
                    l = list(o.c)
                    l.pop(i)
                    setc(o, tuple(l))
                    return
            throw(ValueError, "not in list")
        raise Unsupported("list.remove")

    def copy(ip, o):
        return alloc("list", o.c)

    def clear(ip, o):
        setc(o, ())

    def sort(ip, o, key=None, reverse=False):
        setc(o, sort_seq(ip, o.c, key, reverse))

    def reverse(ip, o):
        setc(o, rev_seq(o.c))

    def index(ip, o, x):
        if _b.all(isinstance(g, Elem) for g in o.c):
            for i, g in _b.enumerate(o.c):
                if ip.truth(ip.equal(g.v, x)):
                    return i
            throw(ValueError, "not in list")
        if not E.decide(V.seq_contains(o.c, x)):
            throw(ValueError, "not in list")
        s = o.c
        if _b.len(s) == 1 and isinstance(s[0], For) and V.simple_for(s[0]):
            j = E.const("idx", I)
            q = z3.FreshConst(I, "q")
            el = lambda t: V.veq(V.inst(s[0], t)[0].v, x)
            E.assume(And(in_range(j, s[0].n), el(j), forall([q], Implies(in_range(q, j), Not(el(q))))))
            return j
        raise Unsupported("list.index")

    def count(ip, o, x):
        raise Unsupported("list.count")


class DictM:
    def get(ip, o, k, dflt=None):
        k = ip.key(k)
        d = o.c
        if d.concrete:
            for k2, v in d.items:
                e = ip.equal(k2, k)
                if e is True or (e is not False and E.decide(e)):
                    return v
            return dflt
        from .loops import DictHole
        if isinstance(d, DictHole):
            for k2, v in _b.reversed(d.log):
                e = ip.equal(k2, k)
                if e is True or (e is not False and E.decide(e)):
                    return v
            raise NeedsInvariant("entry of a dictionary that is being built")
        kt = kterm(k)
        h = simp(boolt(d.has(kt)))
        if z3.is_true(h):
            return d.get(kt)
        if z3.is_false(h):
            return dflt
        v = d.get(kt)
        try:
            return merge(h, v, dflt)
        except Unsupported:
            return v if E.decide(h) else dflt

    def keys(ip, o):
        return DictView(o.c, "keys")

    def values(ip, o):
        return DictView(o.c, "values")

    def items(ip, o):
        return DictView(o.c, "items")

    def copy(ip, o):
        return alloc("dict", o.c)

    def update(ip, o, other=None, **kw):
        if other is not None:
            ip.dict_update(o, other)
        for k, v in kw.items():
            ip.setitem(o, k, v)

    def setdefault(ip, o, k, dflt=None):
        if ip.truth(ip.dict_has(o.c, k)):
            return ip.dict_get(o.c, k)
        ip.setitem(o, k, dflt)
        return dflt

    def pop(ip, o, k, *dflt):
        if o.c.concrete:
            k = ip.key(k)
            for i, (k2, v) in _b.enumerate(o.c.items):
                if ip.truth(ip.equal(k2, k)):
                    setc(o, DictC(items=o.c.items[:i] + o.c.items[i + 1:]))
                    return v
            if dflt:
                return dflt[0]
            throw(KeyError, k)
        raise Unsupported("dict.pop")

    def clear(ip, o):
        setc(o, DictC(items=()))


class SetM:
    def add(ip, o, x):
        c = o.c
        items = c.items + (x,) if c.items is not None else None
        seq = c.seq + (Elem(x),) if c.seq is not None else None
        setc(o, SetC(lambda t: Or(c.pred(t), ip.equal(t, x)), seq, items))

    def update(ip, o, *others):
        for other in others:
            if isinstance(other, Ref) and other.kind == "set":
                oc = other.c
                pred, oseq, oitems = oc.pred, oc.seq, oc.items
            else:
                s = ip.iter_seq(other)
                pred, oseq = (lambda t, s=s: V.seq_contains(s, t)), s
                oitems = tuple(g.v for g in s) if _b.all(isinstance(g, Elem) for g in s) else None
            c = o.c
            setc(o, SetC(lambda t, c=c, pred=pred: Or(c.pred(t), pred(t)),
                         c.seq + oseq if c.seq is not None and oseq is not None else None,
                         c.items + oitems if c.items is not None and oitems is not None else None))

    def discard(ip, o, x):
        c = o.c
        setc(o, SetC(lambda t: And(c.pred(t), Not(ip.equal(t, x)))))

    def remove(ip, o, x):
        if not ip.truth(o.c.pred(x)):
            throw(KeyError, x)
        SetM.discard(ip, o, x)

    def union(ip, o, *others):
        n = alloc("set", o.c)
        SetM.update(ip, n, *others)
        return n

    def _as(ip, x):
        return x.c if isinstance(x, Ref) and x.kind == "set" else ip.mkset(ip.iter_seq(x)).c

    def intersection(ip, o, other):
        a, b = o.c, SetM._as(ip, other)
        return alloc("set", SetC(lambda t: And(a.pred(t), b.pred(t))))

    def difference(ip, o, other):
        a, b = o.c, SetM._as(ip, other)
        return alloc("set", SetC(lambda t: And(a.pred(t), Not(b.pred(t)))))

    def issubset(ip, o, other):
        a, b = o.c, SetM._as(ip, other)
        x = z3.FreshConst(Str, "x")
        return forall([x], Implies(a.pred(x), b.pred(x)))

    def issuperset(ip, o, other):
        a, b = o.c, SetM._as(ip, other)
        x = z3.FreshConst(Str, "x")
        return forall([x], Implies(b.pred(x), a.pred(x)))

    def isdisjoint(ip, o, other):
        a, b = o.c, SetM._as(ip, other)
        x = z3.FreshConst(Str, "x")
        return forall([x], Not(And(a.pred(x), b.pred(x))))

    def copy(ip, o):
        return alloc("set", o.c)


class ArrM:
    def g_shape(ip, o):
        if isinstance(o.c, SeqArr) and o.c.ndim == 2:
            r = A.first_row(o.c.seq)
            return (V.seq_len(o.c.seq), A.count(A.axes(r)[0]))
        return tuple(A.count(a) for a in A.axes(o))

    def g_size(ip, o):
        return A.size(o)

    def g_ndim(ip, o):
        return A.ndim(o)

    def g_T(ip, o):
        c = A.arrc(o)
        return A.mk(c.axes[::-1], lambda *ix: c.at(*ix[::-1]))

    def copy(ip, o, order=None):
        return A.copy(o)

    def astype(ip, o, t, **k):
        if isinstance(t, TypeV) and t.name == "float":
            return A.map1(o, lambda x: real(x) if is_z3(x) else Fraction(x))
        if isinstance(t, TypeV) and t.name == "bool":
            return A.map1(o, A.tb)
        raise Unsupported("astype")

    def sum(ip, o, axis=None):
        return A.reduce_sum(o, axis)

    def max(ip, o, axis=None):
        return A.reduce_minmax(o, 1)

    def min(ip, o, axis=None):
        return A.reduce_minmax(o, -1)

    def any(ip, o, axis=None):
        return A.bool_fold(o, False)

    def all(ip, o, axis=None):
        return A.bool_fold(o, True)

    def argmin(ip, o):
        return A.argmin(o)

    def tolist(ip, o):
        return alloc("list", A.rows(o))

    def flatten(ip, o):
        if A.ndim(o) == 1:
            return A.copy(o)
        raise Unsupported("flatten")
    ravel = flatten

    def transpose(ip, o):
        return ArrM.g_T(ip, o)

    def dot(ip, o, b):
        return A.matmul(o, b)

    def item(ip, o):
        c = A.arrc(o)
        return c.at(*[0] * _b.len(c.axes))

    def fill(ip, o, v):
        A.assign_all(o, v)


# =================================================================== modules
class NullCtx(Ext):
    name = "context"


def make(ip):
    from . import lib_numpy, lib_ct, lib_misc
    m = {}
    lib_misc.make(ip, m)
    lib_numpy.make(ip, m)
    lib_ct.make(ip, m)
    return m
