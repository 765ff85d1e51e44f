"""Composite values: sequences as trees, strings, dictionaries, sets, arrays."""
import z3
from fractions import Fraction
from . import core
from .core import (E, Ref, Unsupported, NeedsInvariant, I, R, B, Str, And, Or, Not, ite, boolt, num, real, strt, is_z3, is_num,
                   is_bool, is_str, in_range, exists, forall, mk_sum, simp, lit)


# ------------------------------------------------------------------ sequences
class Elem:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"[{self.v}]"


class IfS:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"If({self.c}? {self.a} : {self.b})"


class For:
    """concatenation of body over 0 <= k < n"""
    __slots__ = ("k", "n", "body")

    def __init__(self, k, n, body):
        self.k, self.n, self.body = k, n, body

    def __repr__(self):
        return f"For({self.k}<{self.n}: {self.body})"


class Hole:
    """unknown prefix (placeholder of a carried list)"""
    __slots__ = ("h",)

    def __init__(self, h):
        self.h = h

    def __repr__(self):
        return f"Hole({self.h})"


def mk_if(c, a, b):
    c = simp(boolt(c))
    if z3.is_true(c):
        return tuple(a)
    if z3.is_false(c):
        return tuple(b)
    if not a and not b:
        return ()
    if a == b:
        return tuple(a)
    return (IfS(c, tuple(a), tuple(b)),)


def mk_for(n, fn, kname="k"):
    """For over a fresh index; fn(k) -> seq tuple"""
    if isinstance(n, int) and n <= 0:
        return ()
    k = E.const(kname, I)
    return (For(k, n, tuple(fn(k))),)


def inst(f, j):
    """body of For f at index j"""
    return subst(f.body, [(f.k, num(j))])


def seq_len(s):
    total = 0
    for g in s:
        if isinstance(g, Elem):
            total = add(total, 1)
        elif isinstance(g, IfS):
            total = add(total, ite(g.c, num(seq_len(g.a)), num(seq_len(g.b))))
        elif isinstance(g, For):
            total = add(total, for_len(g))
        elif isinstance(g, Hole):
            raise NeedsInvariant("length of a list that is being built")
        elif isinstance(g, SetSeg):
            from .loops import set_enum
            total = add(total, num(set_enum(g.set).n))
        else:
            raise Unsupported(f"length of {g!r}")
    return total


def for_len(g):
    b = seq_len(g.body)
    if isinstance(b, int):
        n = num(g.n)
        if b == 0:
            return 0
        if isinstance(g.n, int):
            return b * max(g.n, 0)
        nn = n if E.entails(n >= 0) else z3.If(n >= 0, n, z3.IntVal(0))
        return nn * b if b != 1 else nn
    return mk_sum(g.k, g.n, num(b))


def add(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a + b
    a, b = core.coerce2(a, b)
    return simp(a + b)


def seq_get(s, i):
    """element at (symbolic) index i; i must be within bounds and non-negative"""
    if any(isinstance(g, SetSeg) for g in s):
        from .loops import set_enum
        s = tuple(set_enum(g.set) if isinstance(g, SetSeg) else g for g in s)
    if isinstance(i, int) and i < 0:
        # from the end
        j = -i
        for g in reversed(s):
            if isinstance(g, Elem):
                j -= 1
                if j == 0:
                    return g.v
            else:
                break
        L = seq_len(s)
        if isinstance(L, int):
            if L + i < 0:
                core.throw(IndexError, 'index out of range')
            return seq_get(s, L + i)
        if not E.decide(num(L) >= -i):
            core.throw(IndexError, 'index out of range')
        return seq_get(s, simp(num(L) + i))
    rest = i
    for pos, g in enumerate(s):
        if isinstance(g, Elem):
            L = 1
        elif isinstance(g, For) and simple_for(g):
            L = for_len(g)
        elif isinstance(g, IfS):
            if E.decide(g.c):
                return seq_get(g.a + s[pos + 1:], rest)
            return seq_get(g.b + s[pos + 1:], rest)
        elif isinstance(g, For):
            L = for_len(g)
            if block_of(g) is not None:
                if pos == len(s) - 1:
                    c = And(num(rest) >= 0, num(rest) < num(L))
                else:
                    c = num(rest) < num(L)
                if E.decide(c):
                    b = block_of(g)
                    return seq_get(inst(g, simp(num(rest) / b)), simp(num(rest) % b))
                rest = add(rest, -L if isinstance(L, int) else -num(L))
                continue
            if isinstance(L, int) or len(s) == 1:
                # opaque element of a filtered or nested sequence
                return filtered_get(g, rest)
            raise Unsupported("element of a nested sequence")
        else:
            raise NeedsInvariant("element of a list that is being built")
        if pos == len(s) - 1:
            c = And(num(rest) >= 0, num(rest) < num(L))
        else:
            c = num(rest) < num(L)
        if E.decide(c):
            if isinstance(g, Elem):
                return g.v
            return inst(g, rest)[0].v
        rest = add(rest, -L if isinstance(L, int) else -num(L))
    core.throw(IndexError, 'index out of range')


def block_of(g):
    """number of elements per iteration when it is the same constant for all"""
    if len(g.body) == 1 and (isinstance(g.body[0], SetSeg) or isinstance(g.body[0], IfS) and not (g.body[0].a and g.body[0].b)):
        return None
    try:
        b = seq_len(g.body)
    except Unsupported:
        return None
    b = simp(num(b))
    return b.as_long() if z3.is_int_value(b) and b.as_long() > 0 else None


def simple_for(g):
    return len(g.body) == 1 and isinstance(g.body[0], Elem)


def filtered_get(g, i, total=False):
    """i-th element of a filtered For: introduced through a position function whose
    axioms say that the position satisfies the filter and that the filter's hits are
    enumerated in increasing order"""
    if len(g.body) == 1 and isinstance(g.body[0], IfS) and not g.body[0].b and len(g.body[0].a) == 1 and isinstance(g.body[0].a[0], Elem):
        key = ("filtered", g.body[0].c.get_id(), num(g.n).get_id())
        pos = E.run_memo.get(key)
        if pos is None:
            pos = E.func("pos", I, I)
            E.run_memo[key] = pos
            E.run_memo[("keep", key)] = g
            i1, i2 = z3.Ints("i1 i2")
            m = num(for_len(g))
            c = g.body[0].c
            E.assume(forall([i1], core.Implies(And(i1 >= 0, i1 < m),
                     And(in_range(pos(i1), g.n), z3.substitute(c, (g.k, pos(i1)))))))
            E.assume(forall([i1, i2], core.Implies(And(i1 >= 0, i1 < i2, i2 < m), pos(i1) < pos(i2))))
        m = num(for_len(g))
        if not total and not E.decide(And(num(i) >= 0, num(i) < m)):
            core.throw(IndexError, 'index out of range')
        return subst(g.body[0].a[0].v, [(g.k, pos(num(i)))])
    raise Unsupported("element of a nested sequence")


# inverse functions: decl name of an injective element function -> inverse builder
INVERSE = {}
# element functions of whole lists: (some index of an element if it is one, length)
CHOOSE = {}


def hit_index(g, arg, j):
    """(index m into For g, in range) such that arg[k := m] == j, or None"""
    k = g.k
    if arg.eq(k):
        return j, in_range(j, g.n)
    if not core.contains(arg, k):
        return None
    if z3.is_app(arg) and arg.decl().kind() == z3.Z3_OP_ITE:
        # a list without its element c: If(k >= c, k + 1, k)
        c, a, b = arg.children()
        if b.eq(k) and z3.is_ge(c) and c.arg(0).eq(k) and not core.contains(c.arg(1), k) and z3.simplify(a - k).eq(z3.IntVal(1)):
            c = c.arg(1)
            return ite(j < c, j, j - 1), Or(And(j < c, in_range(j, g.n)), And(j - 1 >= c, in_range(j - 1, g.n)))
        return None
    c = z3.simplify(arg - k)
    if core.contains(c, k):
        return None
    return j - c, in_range(j - c, g.n)


def seq_contains(s, x):
    """z3 Bool: x (scalar) is an element of s"""
    out = []
    for g in s:
        if isinstance(g, Elem):
            out.append(veq(g.v, x))
        elif isinstance(g, IfS):
            out.append(And(g.c, seq_contains(g.a, x)))
            out.append(And(Not(g.c), seq_contains(g.b, x)))
        elif isinstance(g, For):
            out.append(for_contains(g, x))
        elif isinstance(g, SetSeg):
            out.append(g.pred(x))
        else:
            raise NeedsInvariant("membership in a list that is being built")
    return Or(*out)


def for_contains(g, x):
    # For(k, n, [If(c,] Elem(f(k)) ) with f injective: no quantifier needed
    e = g.body[0] if len(g.body) == 1 else None
    c = True
    while isinstance(e, IfS) and not e.b and len(e.a) == 1:
        c = And(c, e.c)
        e = e.a[0]
    if isinstance(e, Elem) and is_z3(e.v) and z3.is_app(e.v) and e.v.decl().name() in INVERSE and e.v.sort() == Str:
        ar = e.v.num_args()
        if not any(core.contains(e.v.arg(i), g.k) for i in range(ar - 1)):
            xt = strt(x)
            j = INVERSE[e.v.decl().name()](*[e.v.arg(i) for i in range(ar - 1)], xt)
            h = hit_index(g, e.v.arg(ar - 1), j)
            if h:
                m, ok = h
                return And(ok, e.v.decl()(*e.v.children()[:-1], j) == xt, z3.substitute(boolt(c), (g.k, m)))
    if isinstance(e, Elem) and c is True and is_z3(e.v) and z3.is_app(e.v) and e.v.decl().name() in CHOOSE and e.v.num_args() == 1 and e.v.arg(0).eq(g.k):
        p, n = CHOOSE[e.v.decl().name()]
        if is_z3(g.n) and g.n.eq(n):
            xt = strt(x)
            return And(in_range(p(xt), n), e.v.decl()(p(xt)) == xt)
    k = z3.FreshConst(I, "m")
    return exists([k], And(in_range(k, g.n), seq_contains(subst(g.body, [(g.k, k)]), x)))


class SetSeg:
    """the elements of a set in some unknown order, each once"""
    __slots__ = ("pred", "set")

    def __init__(self, setc):
        self.set = setc
        self.pred = setc.pred


# -------------------------------------------------------------------- strings
class StrV:
    """string with symbolic parts; parts is a Seq whose elements are str or Fmt"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return f"StrV{self.parts}"

    def as_term(self):
        template, args = [], []
        for g in merge_lits(self.parts):
            if not isinstance(g, Elem):
                raise Unsupported("string built in a loop used as an atom")
            if isinstance(g.v, str):
                template.append(g.v)
            else:
                a = g.v.value
                if isinstance(a, StrV):
                    a = a.as_term()
                if isinstance(a, str):
                    a = lit(a)
                if isinstance(a, (bool, int, Fraction)):
                    a = num(a)
                if not is_z3(a):
                    raise Unsupported(f"formatted object in an atom: {type(a).__name__}")
                template.append("{" + g.v.spec + "}")
                args.append(a)
        if not args:
            return lit("".join(template))
        if template == ["{}"] and args[0].sort() == Str:
            return args[0]
        name = "fmt:" + "".join(template)
        f = z3.Function(name, *[a.sort() for a in args], Str)
        # a template with one hole is injective
        if len(args) == 1 and "." not in "".join(t for t in template if t[:1] == "{"):
            inv = z3.Function("inv:" + name, Str, args[0].sort())
            x = z3.Const("x", args[0].sort())
            E.prover.axiom(name, z3.ForAll([x], inv(f(x)) == x))
        return f(*args)


class Fmt:
    """a formatted value inside a string"""
    __slots__ = ("value", "spec")

    def __init__(self, value, spec=""):
        self.value, self.spec = value, spec

    def __repr__(self):
        return f"Fmt({self.value}:{self.spec})"


class Join:
    """separator.join(seq) of a symbolic sequence of strings"""
    __slots__ = ("sep", "seq")

    def __init__(self, sep, seq):
        self.sep, self.seq = sep, tuple(seq)

    def __repr__(self):
        return f"Join({self.sep!r},{self.seq})"


def str_parts(v):
    if isinstance(v, StrV):
        return v.parts
    if isinstance(v, str):
        return (Elem(v),) if v else ()
    if is_str(v):
        return (Elem(Fmt(v)),)
    if isinstance(v, Opt) and E.entails(v.cond):
        return str_parts(v.v)
    raise Unsupported(f"string expected, got {type(v).__name__}")


def mk_str(parts):
    parts = merge_lits(parts)
    if not parts:
        return ""
    if len(parts) == 1 and isinstance(parts[0], Elem):
        if isinstance(parts[0].v, str):
            return parts[0].v
        if isinstance(parts[0].v, Fmt) and parts[0].v.spec == "" and is_str(parts[0].v.value):
            return parts[0].v.value
    return StrV(parts)


def merge_lits(parts):
    out = []
    for g in parts:
        if isinstance(g, Elem) and isinstance(g.v, str):
            if not g.v:
                continue
            if out and isinstance(out[-1], Elem) and isinstance(out[-1].v, str):
                out[-1] = Elem(out[-1].v + g.v)
                continue
        if isinstance(g, Elem) and isinstance(g.v, Fmt) and isinstance(g.v.value, StrV) and g.v.spec == "":
            for h in merge_lits(g.v.value.parts):
                if isinstance(h, Elem) and isinstance(h.v, str) and out and isinstance(out[-1], Elem) and isinstance(out[-1].v, str):
                    out[-1] = Elem(out[-1].v + h.v)
                else:
                    out.append(h)
            continue
        out.append(g)
    return tuple(out)


# ---------------------------------------------------------- dicts, sets, arrays
class DictC:
    """dictionary content.  Concrete keys live in ``items`` (ordered tuple of
    (key, value) with Python str/int keys); symbolic dictionaries have has/get
    closures and optionally the key sequence."""
    __slots__ = ("items", "has", "get", "keys", "hole")

    def __init__(self, items=None, has=None, get=None, keys=None):
        self.items, self.has, self.get, self.keys = items, has, get, keys

    @property
    def concrete(self):
        return self.items is not None


class SetC:
    __slots__ = ("pred", "seq", "items")

    def __init__(self, pred, seq=None, items=None):
        self.pred, self.seq, self.items = pred, seq, items


class Axis:
    """array axis: positions 0<=i<n, those with guard(i) only"""
    __slots__ = ("n", "guard")

    def __init__(self, n, guard=None):
        self.n, self.guard = n, guard

    def __repr__(self):
        return f"Axis({self.n}{'|filtered' if self.guard else ''})"


class ArrC:
    __slots__ = ("axes", "el", "memo", "pos")

    def __init__(self, axes, el, pos=None):
        self.axes, self.memo, self.pos = tuple(axes), {}, pos
        self.el = el

    def at(self, *idx):
        idx = [num(i) for i in idx]
        key = tuple(i.get_id() for i in idx)
        if key not in self.memo:
            self.memo[key] = (idx, self.el(*idx))
        return self.memo[key][1]


class SeqArr:
    """array whose first axis is a sequence tree (concatenations of variable parts);
    elements are scalars or rows"""
    __slots__ = ("seq", "ndim")

    def __init__(self, seq, ndim=1):
        self.seq, self.ndim = tuple(seq), ndim


class View:
    """array content referring to another array: idx of the view -> idx of the base"""
    __slots__ = ("base", "axes", "imap", "back")

    def __init__(self, base, axes, imap, back):
        self.base, self.axes, self.imap, self.back = base, tuple(axes), imap, back


# ------------------------------------------------------------------ substitution
def subst(v, pairs):
    """capture-avoiding replacement of generic constants in a value"""
    pairs = [(a, num(b) if isinstance(b, int) else b) for a, b in pairs]
    pairs = [(a, b) for a, b in pairs if isinstance(a, z3.FuncDeclRef) or not a.eq(b)]
    if not pairs:
        return v
    return _subst(v, pairs)


def zsub(t, pairs):
    cs = [p for p in pairs if not isinstance(p[0], z3.FuncDeclRef)]
    fs = [p for p in pairs if isinstance(p[0], z3.FuncDeclRef)]
    if fs:
        names = core.decls_in(t)
        fs = [p for p in fs if p[0].name() in names]
        for p in fs:
            t = z3.substitute_funs(t, p)
    return z3.substitute(t, *cs) if cs else t


def _clo(f, pairs, sorts):
    def g(*idx):
        fr = [z3.FreshConst(s, "a") for s in sorts]
        r = f(*fr)
        r = subst(r, pairs)
        return subst(r, list(zip(fr, idx)))
    return g


def _clo1(f, pairs):
    """as _clo, for one argument of any sort"""
    def g(x):
        if not is_z3(x):
            x = num(x) if not isinstance(x, str) else lit(x)
        fr = z3.FreshConst(x.sort(), "a")
        return subst(subst(f(fr), pairs), [(fr, x)])
    return g


def _subst(v, pairs):
    if v is None or isinstance(v, (bool, int, Fraction, str)):
        return v
    if is_z3(v):
        return zsub(v, pairs)
    if isinstance(v, tuple):
        r = tuple(_subst(x, pairs) for x in v)
        if hasattr(v, "_fields"):
            return type(v)(*r)
        return r
    if isinstance(v, Elem):
        return Elem(_subst(v.v, pairs))
    if isinstance(v, IfS):
        return IfS(zsub(boolt(v.c), pairs), _subst(v.a, pairs), _subst(v.b, pairs))
    if isinstance(v, For):
        ps = [(a, b) for a, b in pairs if isinstance(a, z3.FuncDeclRef) or not a.eq(v.k)]
        k, body = v.k, v.body
        if any(core.contains(b, v.k) for a, b in ps):
            k = z3.FreshConst(I, "k")
            body = _subst(body, [(v.k, k)])
        n = v.n if not is_z3(v.n) else zsub(v.n, ps) if ps else v.n
        return For(k, n, _subst(body, ps) if ps else body)
    if isinstance(v, (Hole, SetSeg)):
        if isinstance(v, SetSeg):
            return SetSeg(_subst(v.set, pairs))
        return v
    if isinstance(v, StrV):
        return mk_str(_subst(v.parts, pairs))
    if isinstance(v, Fmt):
        return Fmt(_subst(v.value, pairs), v.spec)
    if isinstance(v, Join):
        return Join(_subst(v.sep, pairs), _subst(v.seq, pairs))
    if isinstance(v, DictC):
        if v.concrete:
            return DictC(items=tuple((_subst(k, pairs), _subst(x, pairs)) for k, x in v.items))
        return DictC(has=_clo1(v.has, pairs), get=_clo1(v.get, pairs),
                     keys=None if v.keys is None else _subst(v.keys, pairs))
    if isinstance(v, SetC):
        return SetC(_clo(v.pred, pairs, [Str]), None if v.seq is None else _subst(v.seq, pairs),
                    None if v.items is None else _subst(v.items, pairs))
    if isinstance(v, Axis):
        return Axis(_subst(v.n, pairs), None if v.guard is None else _clo(v.guard, pairs, [I]))
    if isinstance(v, ArrC):
        pos = v.pos
        if pos is not None and pos[1] is not None:
            pos = (_subst(pos[0], pairs), _clo(pos[1], pairs, [I]))
        elif pos is not None:
            pos = (_subst(pos[0], pairs), None)
        return ArrC([_subst(a, pairs) for a in v.axes], _clo(v.el, pairs, [I] * len(v.axes)), pos)
    if isinstance(v, SeqArr):
        return SeqArr(_subst(v.seq, pairs), v.ndim)
    if isinstance(v, View):
        return View(_subst(v.base, pairs), [_subst(a, pairs) for a in v.axes],
                    _clo(v.imap, pairs, [I] * len(v.axes)), v.back if v.back is None else _clo(v.back, pairs, [I] * len(array(v.base).axes)))
    if isinstance(v, dict):
        return {k: _subst(x, pairs) for k, x in v.items()}
    if isinstance(v, Ref):
        return ref_subst(v, pairs)
    if hasattr(v, "subst"):
        return v.subst(pairs)
    return v


def array(v):
    return v.c if isinstance(v, Ref) else v


def consts_of(t):
    """constants in a term (any of them may be a bound variable of the sequence)"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if not is_z3(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        elif z3.is_app(x):
            todo.extend(x.children())
    return out


def ref_subst(r, pairs):
    born = r.born or ()
    ps = [(a, b) for a, b in pairs if not isinstance(a, z3.FuncDeclRef) and any(a.eq(k) for k in born)]
    if not ps:
        return r
    key = ("clone", r.oid, tuple((a.get_id(), b.get_id()) for a, b in ps))
    got = E.run_memo.get(key)
    if got is not None:
        return got[0]
    if r.oid in E.run_memo.get("dirty", set()):
        raise Unsupported("element of a sequence of objects that were modified in place")
    n = Ref(r.kind, None, r.tag)
    E.run_memo[key] = (n, ps)
    n.born = tuple(k for k in born if not any(k.eq(a) for a, _ in ps)) + tuple(E.generics) + tuple(x for _, b in ps for x in consts_of(b))
    E.run_memo[("family", n.oid)] = r.oid
    n.c = _subst(r.c, ps)
    return n


def alloc(kind, c, tag=None):
    r = Ref(kind, c, tag)
    if E.generics:
        r.born = tuple(E.generics)
    return r


def setc(r, c):
    """the only way programs write to objects"""
    fam = E.run_memo.get(("family", r.oid))
    if fam is not None:
        E.run_memo["dirty"] = E.run_memo.get("dirty", frozenset()) | {fam}
    r.c = c


# --------------------------------------------------------------------- equality
def veq(a, b):
    """z3 Bool: equality of two values as Python's == sees it (scalars, strings,
    tuples, lists of equal shape)"""
    if a is b:
        return z3.BoolVal(True)
    if a is None or b is None:
        if isinstance(a, Opt):
            return Not(a.cond)
        if isinstance(b, Opt):
            return Not(b.cond)
        return z3.BoolVal(a is None and b is None)
    if is_num(a) and is_num(b) or is_num(a) and is_bool(b) or is_bool(a) and is_num(b):
        if not is_z3(a) and not is_z3(b):
            return z3.BoolVal(a == b)
        x, y = core.coerce2(a, b)
        return z3.BoolVal(True) if x.eq(y) else x == y
    if is_bool(a) and is_bool(b):
        return boolt(a) == boolt(b)
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a == b)
    if is_str(a) and is_str(b):
        x, y = strt(a), strt(b)
        return z3.BoolVal(True) if x.eq(y) else x == y
    if isinstance(a, (StrV, str)) and isinstance(b, (StrV, str)) or (isinstance(a, StrV) and is_str(b)) or (isinstance(b, StrV) and is_str(a)):
        return strt(a) == strt(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return And(*[veq(x, y) for x, y in zip(a, b)])
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.kind == b.kind == "list":
            sa, sb = a.c, b.c
            if all(isinstance(g, Elem) for g in sa + sb):
                if len(sa) != len(sb):
                    return z3.BoolVal(False)
                return And(*[veq(x.v, y.v) for x, y in zip(sa, sb)])
        if a.kind == b.kind == "dict":
            if not a.c.concrete and not b.c.concrete:
                x = z3.FreshConst(Str, "x")
                return forall([x], And(boolt(a.c.has(x)) == boolt(b.c.has(x)), core.Implies(a.c.has(x), veq(a.c.get(x), b.c.get(x)))))
        if a.kind == "obj" or a.kind == "ext":
            return z3.BoolVal(False) if a.kind != b.kind else ext_eq(a, b)
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return a == b
    kinds = (type(a).__name__, type(b).__name__)
    simple = (str, bool, int, Fraction)
    if isinstance(a, simple) and isinstance(b, Ref) or isinstance(b, simple) and isinstance(a, Ref):
        return z3.BoolVal(False)
    raise Unsupported(f"comparison of {kinds[0]} and {kinds[1]}")


def ext_eq(a, b):
    ka, kb = a.c.get("key"), b.c.get("key")
    if ka is not None and kb is not None and a.tag == b.tag and a.kind == b.kind:
        return veq(tuple(ka), tuple(kb))
    return z3.BoolVal(a is b)


class Opt:
    """value that is None unless cond"""
    __slots__ = ("cond", "v")

    def __init__(self, cond, v):
        self.cond, self.v = cond, v

    def subst(self, pairs):
        return Opt(zsub(self.cond, pairs), _subst(self.v, pairs))
