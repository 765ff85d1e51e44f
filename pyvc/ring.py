"""Equality of rational expressions with sums: both sides are multiplied out into
monomials over atoms with integer exponents (denominators must be products of atoms that
are proved nonzero); sums are split into sums of monomials, factors that do not depend on
the index are moved out, and summands that differ at one index only are resolved."""
from fractions import Fraction
import z3
from . import core
from .core import And, Not, simp, in_range, is_z3, R


class NotRing(Exception):
    pass


def add(p, q, c=1):
    out = dict(p)
    for m, v in q.items():
        out[m] = out.get(m, 0) + c * v
        if out[m] == 0:
            del out[m]
    return out


def mono(a, b, sgn=1):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + sgn * e
        if d[k] == 0:
            del d[k]
    return tuple(sorted(d.items(), key=repr))


def mul(p, q):
    out = {}
    for m, v in p.items():
        for n, w in q.items():
            out = add(out, {mono(m, n): v * w})
    return out


class Ring:
    def __init__(self):
        self.keep = []
        self.depends = {}       # atom -> bound indices in it
        self.depth = 0

    def decided(self, c):
        if core.E.entails(c):
            return True
        if core.E.entails(Not(c)):
            return False
        return None

    def atom(self, t, idx):
        self.keep.append(t)
        key = ("a", str(t.sexpr()))
        self.depends[key] = frozenset(i for i in idx if core.contains(t, i))
        return {((key, 1),): Fraction(1)}

    def nf(self, t, idx=()):
        t = core.real(t) if not is_z3(t) else t
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {(): f} if f else {}
        if z3.is_int_value(t):
            return {(): Fraction(t.as_long())} if t.as_long() else {}
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            out = {}
            for c in ch:
                out = add(out, self.nf(c, idx))
            return out
        if k == z3.Z3_OP_SUB:
            out = self.nf(ch[0], idx)
            for c in ch[1:]:
                out = add(out, self.nf(c, idx), -1)
            return out
        if k == z3.Z3_OP_UMINUS:
            return add({}, self.nf(ch[0], idx), -1)
        if k == z3.Z3_OP_MUL:
            out = {(): Fraction(1)}
            for c in ch:
                out = mul(out, self.nf(c, idx))
            return out
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
            n = ch[1].as_long() if z3.is_int_value(ch[1]) else ch[1].numerator_as_long()
            p = self.nf(ch[0], idx)
            if n < 0:
                p, n = self.inverse(ch[0], p), -n
            out = {(): Fraction(1)}
            for _ in range(n):
                out = mul(out, p)
            return out
        if k == z3.Z3_OP_DIV:
            return mul(self.nf(ch[0], idx), self.inverse(ch[1], self.nf(ch[1], idx)))
        if k == z3.Z3_OP_TO_REAL:
            return self.nf(ch[0], idx) if z3.is_int_value(ch[0]) else self.atom(t, idx)
        if k == z3.Z3_OP_ITE:
            d = self.decided(ch[0])
            if d is None:
                raise NotRing(ch[0])
            return self.nf(ch[1] if d else ch[2], idx)
        if t.decl().eq(core.SUM):
            return self.sum(t, idx)
        return self.atom(t, idx)

    def inverse(self, t, p):
        if len(p) != 1 or not core.E.entails(t != 0):
            raise NotRing(t)
        (m, v), = p.items()
        return {tuple(sorted(((k, -e) for k, e in m), key=repr)): 1 / v}

    def sum(self, t, idx):
        lam, n = t.children()
        if not z3.is_quantifier(lam):
            return self.atom(t, idx)
        e = core.E
        self.depth += 1
        i = z3.Const(f"ring!{self.depth}", core.I)
        body = simp(z3.substitute_vars(lam.body(), i))
        snap = list(e.pc)
        try:
            e.assume(in_range(i, n))
            extra, body = self.points(body, i, n, idx)
            p = self.nf(body, idx + (i,))
        finally:
            e.pc[:] = snap
            self.depth -= 1
        out = extra
        for m, v in p.items():
            dep = tuple((k, x) for k, x in m if i in self.depends[k])
            free = tuple((k, x) for k, x in m if i not in self.depends[k])
            key = ("sum", n.sexpr(), dep)
            self.depends[key] = frozenset(j for k, _ in dep for j in self.depends[k] if not j.eq(i)) | frozenset(j for j in idx if core.contains(n, j))
            out = add(out, {mono(free, ((key, 1),)): v})
        return out

    def points(self, body, i, n, idx):
        """summands that differ at an index only: (their differences, the others)"""
        e = core.E
        extra = {}
        while True:
            c = self.point(body, i)
            if c is None:
                return extra, body
            at = [x for x in c.children() if not core.contains(x, i)]
            if len(at) != 1 or not e.entails(in_range(at[0], n)):
                raise NotRing(c)
            yes = simp(z3.substitute(body, (c, z3.BoolVal(True))))
            no = simp(z3.substitute(body, (c, z3.BoolVal(False))))
            for x, s in ((yes, 1), (no, -1)):
                extra = add(extra, self.nf(simp(z3.substitute(x, (i, at[0]))), idx), s)
            body = no

    def point(self, t, i):
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EQ and core.contains(x, i) and any(y.eq(i) for y in x.children()) and self.decided(x) is None:
                return x
            todo.extend(x.children())
        return None


def equal(name, a, b):
    """obligation a == b"""
    e = core.E
    a, b = simp(core.real(a)), simp(core.real(b))
    r = Ring()
    why = ""
    try:
        p, q = r.nf(a), r.nf(b)
        if add(p, q, -1) == {}:
            e.ok(name)
            return True
        why = f"difference of the normal forms: {add(p, q, -1)}"[:1500]
    except NotRing as ex:
        why = f"not a rational expression: {ex}"[:500]
    return e.prove(name, a == b, hint=why)
