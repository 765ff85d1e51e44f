"""Core of pyvc: terms, prover, heap, path exploration.

Scalars are plain Python constants (None, bool, int, Fraction, str) or z3 terms
(Int/Real arithmetic, Bool, and the uninterpreted sort Str for strings and other
hashable atoms).  Floats of the program are mathematical reals.
"""
import z3, time, itertools
from fractions import Fraction

Str = z3.DeclareSort("Str")
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """The code leaves the subset the verifier understands (never a refutation)."""


class NeedsInvariant(Unsupported):
    pass


class PathEnd(Exception):
    """This path needs no further exploration (e.g. end of an inductive step)."""


class NoJoin(Exception):
    """Alternatives that cannot be joined into one value."""


class ExcV:
    """exception object of the program; cls is a Python exception class"""
    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)


class ProgExc(Exception):
    """exception raised by the interpreted program"""

    def __init__(self, exc):
        self.exc = exc

    def __str__(self):
        return f"{self.exc.cls.__name__}{self.exc.args}"


def throw(cls, *args):
    raise ProgExc(ExcV(cls, args))


# ------------------------------------------------------------------ literals
_lits = {}


def lit(s):
    t = _lits.get(s)
    if t is None:
        t = z3.Const('"' + s + '"', Str)
        _lits[s] = t
        _lit_ids[t.get_id()] = s
    return t


_lit_ids = {}


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or isinstance(v, z3.ArithRef)


def is_bool(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def is_str(v):
    return isinstance(v, str) or (is_z3(v) and v.sort() == Str)


def num(v):
    """z3 arithmetic term of a number (bools count as 0/1)."""
    if isinstance(v, z3.ArithRef):
        return v
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v.numerator)) / z3.RealVal(str(v.denominator)) if v.denominator != 1 else z3.RealVal(str(v.numerator))
    if isinstance(v, float):
        return num(Fraction(repr(v)))
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if type(v).__name__ == "Opt" and E.entails(v.cond):
        return num(v.v)
    raise Unsupported(f"number expected, got {type(v).__name__}")


def real(v):
    t = num(v)
    return z3.ToReal(t) if t.is_int() else t


def boolt(v):
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise Unsupported(f"truth value expected, got {type(v).__name__}")


def strt(v):
    if isinstance(v, str):
        return lit(v)
    if is_z3(v) and v.sort() == Str:
        return v
    if hasattr(v, "as_term"):
        return v.as_term()
    if type(v).__name__ == "Opt" and E.entails(v.cond):
        return strt(v.v)
    raise Unsupported(f"string expected, got {type(v).__name__}")


def coerce2(a, b):
    a, b = num(a), num(b)
    if a.is_int() and b.is_int():
        return a, b
    return real(a), real(b)


def simp(t):
    return z3.simplify(t) if is_z3(t) else t


def And(*a):
    a = [boolt(x) for x in a]
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return z3.BoolVal(False)
    if not a:
        return z3.BoolVal(True)
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [boolt(x) for x in a]
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return z3.BoolVal(True)
    if not a:
        return z3.BoolVal(False)
    return a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    a = boolt(a)
    if z3.is_true(a):
        return z3.BoolVal(False)
    if z3.is_false(a):
        return z3.BoolVal(True)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def ite(c, a, b):
    """z3 if-then-else over scalars of compatible sort."""
    c = boolt(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if is_num(a) and is_num(b) or (is_num(a) and is_bool(b)) or (is_bool(a) and is_num(b)):
        a, b = coerce2(a, b)
        return a if a.eq(b) else z3.If(c, a, b)
    if is_bool(a) and is_bool(b):
        return z3.If(c, boolt(a), boolt(b))
    if is_str(a) and is_str(b):
        a, b = strt(a), strt(b)
        return a if a.eq(b) else z3.If(c, a, b)
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return a if a.eq(b) else z3.If(c, a, b)
    raise Unsupported(f"cannot merge {type(a).__name__} and {type(b).__name__}")


def forall(vs, body):
    body = boolt(body)
    if z3.is_true(body) or z3.is_false(body):
        return body
    return z3.ForAll(vs, body)


def exists(vs, body):
    body = boolt(body)
    if z3.is_true(body) or z3.is_false(body):
        return body
    return z3.Exists(vs, body)


def in_range(k, n):
    return And(num(k) >= 0, num(k) < num(n)) if n is not None else num(k) >= 0


# ---------------------------------------------------------------- fold symbols
SUM = z3.Function("SUM", z3.ArraySort(I, R), I, R)
SUMI = z3.Function("SUMI", z3.ArraySort(I, I), I, I)
FOLD_NAMES = {"SUM", "SUMI", "MAXF", "LASTIDX", "FIRSTIDX"}
# MAXF(f, g, n, init): max of init and f(k) over k<n with g(k)
MAXF = z3.Function("MAXF", z3.ArraySort(I, R), z3.ArraySort(I, B), I, R, R)
# LASTIDX(g, n): largest k<n with g(k), or -1
LASTIDX = z3.Function("LASTIDX", z3.ArraySort(I, B), I, I)


_hmemo = {}


def height(t):
    """nesting depth of quantifiers/lambdas in t"""
    r = _hmemo.get(t.get_id())
    if r is not None:
        return r[1]
    if z3.is_quantifier(t):
        h = 1 + height(t.body())
    else:
        h = max([height(c) for c in t.children()], default=0)
    if len(_hmemo) > 300000:
        _hmemo.clear()
    _hmemo[t.get_id()] = (t, h)
    return h


def lam(ks, body):
    """lambda term with canonical names of the bound variables, so that equal
    functions are the same term"""
    ks = ks if isinstance(ks, (list, tuple)) else [ks]
    h = height(body)
    cs = [z3.Const(f"!h{h}.{i}" if i else f"!h{h}", k.sort()) for i, k in enumerate(ks)]
    return z3.Lambda(cs, z3.substitute(body, *zip(ks, cs)))


def mk_sum(k, n, f):
    """sum over 0<=k<n of f; point sums and constants are resolved."""
    f = simp(num(f))
    n = simp(num(n))
    if z3.is_int_value(f) and f.as_long() == 0 or z3.is_rational_value(f) and f.numerator_as_long() == 0:
        return z3.RealVal(0) if f.is_real() else z3.IntVal(0)
    if not contains(f, k):
        nn = z3.If(n > 0, n, z3.IntVal(0))
        return simp(f * (z3.ToReal(nn) if f.is_real() else nn))
    # canonical: range guard inside, so that equal sums are equal arrays
    zero = z3.RealVal(0) if f.is_real() else z3.IntVal(0)
    F = SUM if f.is_real() else SUMI
    return F(lam(k, simp(z3.If(And(k >= 0, k < n), f, zero))), n)


def contains(t, sub):
    """does term t contain the constant/function application sub (by AST id)?"""
    target = sub.get_id() if is_z3(sub) else sub
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i == target:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def decls_in(t, cache={}):
    """names -> decl of uninterpreted functions/constants of t (through quantifiers)"""
    i = t.get_id()
    if i in cache:
        return cache[i][1]
    out = {}
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out[d.name()] = d
            todo.extend(x.children())
    if len(cache) > 200000:
        cache.clear()
    cache[i] = (t, out)
    return out


_FOLDY = {"SUM", "SUMI", "*MUL", "*MULI", "*DIV"}
_freevar = {}     # id -> (term, largest free de Bruijn index + 1)
_appmemo = {}     # id -> (term, closed applications of _FOLDY in it)


def free_depth(x):
    """number of enclosing binders the term refers to (0: closed)"""
    i = x.get_id()
    r = _freevar.get(i)
    if r is not None:
        return r[1]
    todo = [x]
    while todo:
        t = todo[-1]
        i = t.get_id()
        if i in _freevar:
            todo.pop()
            continue
        if z3.is_var(t):
            _freevar[i] = (t, z3.get_var_index(t) + 1)
            todo.pop()
            continue
        ch = [t.body()] if z3.is_quantifier(t) else t.children()
        miss = [c for c in ch if c.get_id() not in _freevar]
        if miss:
            todo.extend(miss)
            continue
        d = max([_freevar[c.get_id()][1] for c in ch], default=0)
        if z3.is_quantifier(t):
            d = max(0, d - t.num_vars())
        _freevar[i] = (t, d)
        todo.pop()
    return _freevar[x.get_id()][1]


def apps_of(ts, names):
    """closed applications (no bound variables) of the named functions in ts"""
    res, ids = [], set()
    fold = set(names) <= _FOLDY
    for t in ts:
        m = _appmemo.get(t.get_id()) if fold else None
        if m is None:
            out, seen, todo = [], set(), [t]
            order = []
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_quantifier(x):
                    todo.append(x.body())
                elif z3.is_app(x) and x.num_args():
                    d = x.decl()
                    if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in (_FOLDY if fold else names) and free_depth(x) == 0:
                        order.append((d.name(), x))
                    todo.extend(reversed(x.children()))
            m = (t, order[::-1])
            if len(_appmemo) > 300000:
                _appmemo.clear()
            if fold:
                _appmemo[t.get_id()] = m
        for n, x in m[1]:
            if n in names and x.get_id() not in ids:
                ids.add(x.get_id())
                res.append(x)
    return res


def open_vars(q):
    """does quantifier q have free de Bruijn variables?"""
    return free_depth(q) > 0


# ------------------------------------------------- nonlinear terms made opaque
MULF = {False: z3.Function("*MUL", R, R, R), True: z3.Function("*MULI", I, I, I)}
DIVF = z3.Function("*DIV", R, R, R)
_absmemo = {}


def is_const_num(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def abstract(t):
    """t with products and quotients of non-constants replaced by opaque functions"""
    key = t.get_id()
    r = _absmemo.get(key)
    if r is not None:
        return r[1]
    if z3.is_quantifier(t) and t.is_lambda() and not open_vars(t) and not any(n.startswith("!a") for n in decls_in(t)):
        t2 = abstract_body(t)
        out = _lamconst.setdefault(t2.get_id(), (t2, z3.Const(f"!L{t2.get_id()}", t2.sort())))[1]
    elif z3.is_quantifier(t):
        out = abstract_body(t)
    elif z3.is_app(t) and t.num_args():
        k = t.decl().kind()
        args = [abstract(c) for c in t.children()]
        if k == z3.Z3_OP_MUL:
            cs = [a for a in args if is_const_num(a)]
            xs = sorted((a for a in args if not is_const_num(a)), key=lambda a: a.get_id())
            if len(xs) > 1:
                p = xs[0]
                for a in xs[1:]:
                    p = MULF[p.is_int()](p, a)
                for c in cs:
                    p = c * p
                out = p
            else:
                out = rebuild(t, args)
        elif k == z3.Z3_OP_DIV and not is_const_num(args[1]):
            out = DIVF(real(args[0]), real(args[1]))
        else:
            out = rebuild(t, args)
    else:
        out = t
    if len(_absmemo) > 100000:
        _absmemo.clear()
    _absmemo[key] = (t, out)
    return out


_lamconst = {}


def abstract_body(t):
    h = height(t)
    vs = [z3.Const(f"!a{h}.{i}", t.var_sort(i)) for i in range(t.num_vars())]
    b0 = z3.substitute_vars(t.body(), *reversed(vs))
    b = abstract(b0)
    if b.eq(b0):
        return t
    return lam(vs, b) if t.is_lambda() else (z3.ForAll(vs, b) if t.is_forall() else z3.Exists(vs, b))


def rebuild(t, args):
    if all(a.get_id() == b.get_id() for a, b in zip(args, t.children())):
        return t
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(args)
    if k == z3.Z3_OP_MUL:
        return z3.Product(args)
    if k == z3.Z3_OP_AND:
        return z3.And(args)
    if k == z3.Z3_OP_OR:
        return z3.Or(args)
    return t.decl()(*args)


def abstract_lemmas(fs):
    """valid facts about the opaque products and quotients of fs"""
    out, todo, seen = [], list(fs), set()
    for _ in range(3):
        new = []
        for a in apps_of(todo, {"*MUL", "*MULI", "*DIV"}):
            if a.get_id() in seen or len(seen) > 400:
                continue
            seen.add(a.get_id())
            x, y = a.arg(0), a.arg(1)
            f = a.decl()
            if f.name() == "*DIV":
                new += [z3.Implies(y != 0, (a == 0) == (x == 0)), z3.Implies(y > 0, (a > 0) == (x > 0)),
                        z3.Implies(y < 0, (a > 0) == (x < 0))]
                new += [z3.Implies(z3.And(y != 0, x == y), a == 1)]
                continue
            new += [(a == 0) == z3.Or(x == 0, y == 0),
                    (a > 0) == z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0))]
            for u, v in ((x, y), (y, x)):
                if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
                    new.append(a == z3.If(u.arg(0), mulo(u.arg(1), v), mulo(u.arg(2), v)))
                elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ADD:
                    new.append(a == z3.Sum([mulo(c, v) for c in u.children()]))
                elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_MUL and is_const_num(u.arg(0)):
                    new.append(a == u.arg(0) * mulo(z3.Product([c for c in u.children()[1:]]) if u.num_args() > 2 else u.arg(1), v))
        out += new
        todo = new
        if not new:
            break
    return out


def mulo(a, b):
    if is_const_num(a) or is_const_num(b):
        return simp(a * b)
    if b.get_id() < a.get_id():
        a, b = b, a
    return MULF[a.is_int() and b.is_int()](a, b) if a.is_int() == b.is_int() else MULF[False](real(a), real(b))


def int_equations(fs):
    """closed equations between integer terms that occur in fs"""
    out, seen = {}, set()
    todo = list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_eq(t) and t.arg(0).sort() == I and not apps_of([t], {"SUM", "SUMI"}):
            out[t.get_id()] = t
        todo.extend(t.children())
    return list(out.values())


# ------------------------------------------------- nested sums, innermost first
def nested_sum(t):
    """does t contain a sum within a sum?"""
    for x in apps_of([t], {"SUM", "SUMI"}):
        if z3.is_quantifier(x.arg(0)) and any(n in decls_in(x.arg(0).body()) for n in ("SUM", "SUMI")):
            return True
    return False


class Canon:
    """Replaces sums, innermost first, by opaque terms; sums proved equal term by
    term (under the path condition and the ranges of the enclosing indices) get the
    same opaque term.  Sound: equals are replaced by equals, the rest is forgotten."""

    def __init__(self, prover, pc, limit=60):
        self.prover, self.pc, self.limit = prover, list(pc), limit
        self.classes = []          # (sum term over index constants, opaque term)
        self.memo = {}
        self.facts = []
        self.used = 0

    def consts_in(self, t, consts):
        d = decls_in(t)
        return [c for c in consts if c.decl().name() in d]

    def go(self, t, env=(), rng=()):
        """env: constants standing for the enclosing bound variables, outermost first"""
        key = (t.get_id(), len(env))
        if key in self.memo:
            return self.memo[key][1]
        if z3.is_quantifier(t):
            if t.is_lambda() or not any(n in decls_in(t) for n in ("SUM", "SUMI")):
                out = t
            else:
                raise Unsupported("sum below a quantifier")
        elif z3.is_app(t) and t.num_args():
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in ("SUM", "SUMI") and z3.is_quantifier(t.arg(0)):
                out = self.sum(t, env, rng)
            elif any(n in decls_in(t) for n in ("SUM", "SUMI")):
                out = rebuild(t, [self.go(c, env, rng) for c in t.children()])
            else:
                out = t
        else:
            out = t
        self.memo[key] = (t, out)
        return out

    def sum(self, t, env, rng):
        q, n = t.arg(0), t.arg(1)
        own = self.consts_in(t, env)
        if len(own) < len(env):
            # a sum that does not depend on (all) enclosing indices
            pos = [i for i, c in enumerate(env) if any(c.eq(o) for o in own)]
            if not pos:
                return self.go(t)
            env, rng = tuple(env[:pos[-1] + 1]), tuple(rng[:pos[-1] + 1])
        c = z3.Const(f"!c{len(env)}", I)
        body = z3.substitute_vars(q.body(), c)
        inner = any(x in decls_in(body) for x in ("SUM", "SUMI"))
        r2 = rng + (z3.And(c >= 0, c < n),)
        if inner:
            body = self.go(body, env + (c,), r2)
        body = simp(body)
        pcs = [p for p in self.pc if not any(x in decls_in(p) for x in ("SUM", "SUMI"))] + list(r2)
        for b2, n2, c2, rep in self.classes:
            if not (n.eq(n2) and c2.eq(c)):
                continue
            if b2.eq(body):
                return rep
        for b2, n2, c2, rep in self.classes:
            if not (n.eq(n2) and c2.eq(c) and b2.sort() == body.sort()):
                continue
            self.used += 1
            if self.prover.valid(pcs + self.facts_for(env), b2 == body, ms=1500, depth=2) == "yes":
                return rep
        cs = self.consts_in(body, env)
        name = f"!S{len(self.classes)}"
        rep = z3.Function(name, *[I] * len(cs), body.sort())(*cs) if cs else z3.Const(name, body.sort())
        if self.prover.valid(pcs, body == 0, ms=500, depth=2) == "yes":
            rep = z3.RealVal(0) if body.is_real() else z3.IntVal(0)
        else:
            sg = 0
            if self.prover.valid(pcs, body >= 0, ms=500, depth=2) == "yes":
                self.facts.append((cs, rng, rep >= 0))
            elif self.prover.valid(pcs, body <= 0, ms=500, depth=2) == "yes":
                self.facts.append((cs, rng, rep <= 0))
        self.classes.append((body, n, c, rep))
        return rep

    def facts_for(self, env):
        names = {c.decl().name() for c in env}
        return [f for cs, rng, f in self.facts if all(c.decl().name() in names for c in cs)]


def canonical(prover, pc, f):
    """pc, f with inner sums replaced (see Canon); the outermost sums stay sums"""
    cn = Canon(prover, pc)

    def outer(t, memo):
        i = t.get_id()
        if i in memo:
            return memo[i][1]
        if not any(n in decls_in(t) for n in ("SUM", "SUMI")):
            out = t
        elif z3.is_app(t) and t.num_args():
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in ("SUM", "SUMI") and z3.is_quantifier(t.arg(0)):
                q = t.arg(0)
                b = q.body()
                if any(n in decls_in(b) for n in ("SUM", "SUMI")):
                    n = t.arg(1)
                    c = z3.Const("!c0", I)
                    nb = cn.go(z3.substitute_vars(b, c), (c,), (z3.And(c >= 0, c < n),))
                    out = mk_sum(c, n, simp(nb))
                else:
                    out = cn.go(t)
            else:
                out = rebuild(t, [outer(x, memo) for x in t.children()])
        else:
            raise Unsupported("sum below a quantifier")
        memo[i] = (t, out)
        return out
    memo = {}
    goal = outer(f, memo)
    pc2 = []
    for p in pc:
        try:
            pc2.append(outer(p, memo))
        except Unsupported:
            pass
    for cs, rng, fact in cn.facts:
        pc2.append(fact if not cs else forall(list(cs), Implies(And(*rng), fact)))
    return pc2, goal


def hypotheses(pc, g):
    """the parts of a disjunctive goal without sums, negated, as hypotheses"""
    if z3.is_implies(g):
        g = z3.Or(z3.Not(g.arg(0)), g.arg(1))
    if not z3.is_or(g):
        return pc, g
    hyp = [x for x in g.children() if not apps_of([x], {"SUM", "SUMI"})]
    rest = [x for x in g.children() if apps_of([x], {"SUM", "SUMI"})]
    if not rest or not hyp:
        return pc, g
    out = []
    for h in hyp:
        h = simp(Not(h))
        out += list(h.children()) if z3.is_and(h) else [h]
    return list(pc) + out, z3.Or(*rest) if len(rest) > 1 else rest[0]


# ------------------------------------------------------------------ the prover
class Prover:
    def __init__(self):
        self.memo = {}
        self.axioms = {}       # decl name -> list of axioms (z3 Bool)
        self.keep = []
        self.queries = 0
        self.time = 0.0
        self.decide_ms = 400
        self.prove_ms = 12000
        self.last = ""

    def axiom(self, names, f):
        """register axiom f, used whenever one of the symbols in names occurs"""
        for n in names if isinstance(names, (list, tuple)) else [names]:
            l = self.axioms.setdefault(n, [])
            if not any(x.eq(f) for x in l):
                l.append(f)

    def relevant(self, fs):
        got, out, todo = set(), [], list(fs)
        ids = set()
        while todo:
            f = todo.pop()
            for n in decls_in(f):
                if n in got:
                    continue
                got.add(n)
                for a in self.axioms.get(n, ()):
                    if a.get_id() not in ids:
                        ids.add(a.get_id())
                        out.append(a)
                        todo.append(a)
        ls = [_lits[n[1:-1]] for n in got if n[:1] == '"']
        if len(ls) > 1:
            out.append(z3.Distinct(*sorted(ls, key=str)))
        return out

    def _check(self, fs, ms, quick=False):
        s = z3.SimpleSolver() if quick else z3.Solver()
        s.set("timeout", ms)
        if quick:
            s.set("mbqi", False)
        s.add(*fs)
        t0 = time.time()
        r = s.check()
        self.queries += 1
        self.time += time.time() - t0
        self.last = s.reason_unknown() if r == z3.unknown else ""
        self.model = s.model() if r == z3.sat else None
        return r

    def _opaque(self, fs, ms):
        """quick check, products and quotients opaque (only 'unsat' is meaningful then)"""
        fa = [abstract(f) for f in fs]
        r = self._check(fa + abstract_lemmas(fa), ms, quick=True)
        if r != z3.unsat and any(not a.eq(f) for a, f in zip(fa, fs)):
            return z3.unknown
        return r

    def valid(self, pc, f, ms=None, lemmas=False, depth=0):
        """'yes' if pc |= f, 'no' if a model of pc and not f was found, else 'unknown'"""
        f = boolt(f)
        if z3.is_true(f):
            return "yes"
        key = (tuple(p.get_id() for p in pc), f.get_id(), lemmas)
        if key in self.memo:
            return self.memo[key]
        nf = z3.Not(f)
        base = list(pc) + [nf]
        ax = self.relevant(base)
        r = self._opaque(base + ax, ms or (self.prove_ms if lemmas else self.decide_ms))
        if r != z3.unsat and lemmas and depth == 0 and not apps_of(base, {"SUM", "SUMI"}):
            r = self._check(base + ax, ms or self.prove_ms)
        if r != z3.unsat and lemmas and depth < 3:
            extra = self.fold_lemmas(pc, base, depth)
            if extra:
                ax = self.relevant(base + extra)
                r = self._opaque(base + extra + ax, ms or self.prove_ms)
                if r != z3.unsat and depth == 0:
                    r = self._check(base + extra + ax, ms or self.prove_ms)
            elif r != z3.unsat and depth == 0:
                r = self._check(base + ax, ms or self.prove_ms)
        res = "yes" if r == z3.unsat else ("no" if r == z3.sat else "unknown")
        self.memo[key] = res
        self.keep.append((tuple(pc), f))
        return res

    def fold_lemmas(self, pc, fs, depth):
        """instances of the fold lemmas for the closed fold terms of fs:
        pointwise equal / ordered summands give equal / ordered sums,
        pointwise zero summands give zero."""
        apps = apps_of(fs, {"SUM", "SUMI"})
        uniq = {}
        for a in apps:
            uniq.setdefault(a.get_id(), a)
        apps = list(uniq.values())[:14]
        out = []
        pz = list(pc)
        k = z3.Int(f"!lk{depth}")
        pt = [simp(z3.Select(a.arg(0), k)) for a in apps]
        zero = [z3.RealVal(0) if x.is_real() else z3.IntVal(0) for x in pt]
        rng = [And(k >= 0, k < a.arg(1)) for a in apps]
        sign = [0] * len(apps)
        for i, a in enumerate(apps):
            # sums of one sign; if such a sum is zero, so is every summand
            p2 = list(pc) + [rng[i]]
            if self.valid(p2, pt[i] >= zero[i], ms=500, depth=depth + 1) == "yes":
                sign[i] = 1
                q = z3.Int(f"!lq{depth}")
                out.append(a >= zero[i])
                z = z3.Implies(a == zero[i], forall([q], Implies(And(q >= 0, q < a.arg(1)), simp(z3.Select(a.arg(0), q)) == zero[i])))
                out.append(z)
                pz.append(z)
        done = [False] * len(apps)
        eqs = int_equations(fs)[:4] if depth < 1 else []
        for i, a in enumerate(apps):
            if self.valid(pz + [rng[i]], pt[i] == zero[i], ms=1000, lemmas=depth < 1, depth=depth + 1) == "yes":
                out.append(a == zero[i])
                done[i] = True
        for i, a in enumerate(apps):
            if done[i]:
                continue
            for j in range(i + 1, len(apps)):
                b = apps[j]
                if done[j] or a.decl().name() != b.decl().name():
                    continue
                if not a.arg(1).eq(b.arg(1)) and self.valid(pc, a.arg(1) == b.arg(1), ms=1000) != "yes":
                    continue
                p2 = pz + [rng[i]]
                if pt[i].eq(pt[j]) or self.valid(p2, pt[i] == pt[j], ms=3000, lemmas=True, depth=depth + 1) == "yes":
                    out.append(a == b)
                    done[j] = True
                elif self.valid(p2, pt[i] == -pt[j], ms=500, depth=depth + 1) == "yes":
                    out.append(a == -b)
                    done[j] = True
                else:
                    # equal under one of the index equations of the query
                    for q in eqs:
                        if self.valid(p2 + [q], pt[i] == pt[j], ms=500, depth=depth + 1) == "yes":
                            out.append(z3.Implies(q, a == b))
                if not done[j] and sign[i] and sign[j]:
                    if self.valid(p2, pt[i] <= pt[j], ms=300, depth=depth + 1) == "yes":
                        out.append(a <= b)
                    elif self.valid(p2, pt[j] <= pt[i], ms=300, depth=depth + 1) == "yes":
                        out.append(b <= a)
        return out


# ------------------------------------------------------------------- the heap
class Ref:
    """A mutable object.  ``c`` is its content: an immutable value, or for frames,
    instances and library objects a dict that is copied before every write."""
    __slots__ = ("kind", "c", "oid", "born", "tag")

    def __init__(self, kind, c, tag=None):
        self.kind, self.c, self.tag = kind, c, tag
        self.born = None
        self.oid = E.new_oid()
        E.heap.append(self)

    def __repr__(self):
        return f"<{self.kind}#{self.oid}{':' + str(self.tag) if self.tag else ''}>"


class Obligation:
    __slots__ = ("name", "status", "detail", "pc", "f", "ms")

    def __init__(self, name, status, detail=""):
        self.name, self.status, self.detail = name, status, detail


class Engine:
    def __init__(self):
        self.prover = Prover()
        self.reset_run()
        self.obligs = []
        self.assumptions = set()
        self.covered = set()       # functions interpreted
        self.budget_paths = 4000
        self.deadline = None
        self.trace_log = []

    # --- run state
    def reset_run(self):
        self.heap = []
        self._peek = 0
        self._names = {}
        self.pc = []
        self.assumed = set()       # ids of path-condition entries that are assumptions
        self.generics = []         # generic loop indices in scope
        self.gguards = {}
        self.trace = []
        self.pos = 0
        self.run_memo = {}

    def new_oid(self):
        self._peek += 1
        return self._peek

    def fresh_name(self, base):
        n = self._names.get(base, 0)
        self._names[base] = n + 1
        return f"{base}!{n}" if n else base

    def const(self, base, sort):
        """a fresh constant; within a generic loop iteration a function of the index"""
        if self.generics:
            g = self.generics
            return z3.Function(self.fresh_name(base), *[I] * len(g), sort)(*g)
        return z3.Const(self.fresh_name(base), sort)

    def func(self, base, *sorts):
        if self.generics:
            g = list(self.generics)
            f = z3.Function(self.fresh_name(base), *[I] * len(g), *sorts)
            return lambda *a: f(*g, *a)
        return z3.Function(self.fresh_name(base), *sorts)

    # --- heap snapshots
    def snapshot(self):
        return [(r, r.c) for r in self.heap]

    def restore(self, snap):
        for r, c in snap:
            r.c = c

    # --- path conditions
    def assume(self, f):
        f = boolt(f)
        if not z3.is_true(f):
            self.pc.append(f)
            self.assumed.add(f.get_id())
            self.run_memo[("keepf", f.get_id())] = f

    def entails(self, f):
        f = boolt(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            f = z3.BoolVal(False)
        return self.prover.valid(self.pc, f) == "yes"

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the verification run exhausted")

    def decide(self, cond):
        """truth of cond on this path; forks when it is not determined"""
        if isinstance(cond, bool):
            return cond
        cond = simp(boolt(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trace):
            val, alt, forced = self.trace[self.pos]
        else:
            self.check_time()
            forced = True
            if self.prover.valid(self.pc, cond) == "yes":
                val, alt = True, False
            elif self.prover.valid(self.pc, Not(cond)) == "yes":
                val, alt = False, False
            else:
                val, alt, forced = True, True, False
            self.trace.append((val, alt, forced))
        self.pos += 1
        if not forced:
            self.pc.append(cond if val else Not(cond))
        return val

    def speculate(self, cond, fn):
        """(True, value of fn under cond) if fn neither forks, raises nor changes
        anything; otherwise (False, None). Facts assumed by fn are kept under cond."""
        if self.pos < len(self.trace):
            known = self.trace[self.pos][0]
        else:
            known = None
            self.trace.append((None, False, True))
        at = self.pos
        self.pos += 1
        if known is False:
            return False, None
        pc0, snap, nob = list(self.pc), self.snapshot(), len(self.obligs)

        def stop(*a):
            raise NoJoin()

        def decide(c):
            if isinstance(c, bool):
                return c
            c = simp(boolt(c))
            if z3.is_true(c) or z3.is_false(c):
                return z3.is_true(c)
            if self.prover.valid(self.pc, c) == "yes":
                return True
            if self.prover.valid(self.pc, Not(c)) == "yes":
                return False
            raise NoJoin()
        outer = {k: self.__dict__.get(k) for k in ("decide", "choose")}
        self.decide, self.choose = decide, stop
        try:
            self.pc.append(boolt(cond))
            v = fn()
            ok = all(r.c is c for r, c in snap) and len(self.obligs) == nob
            facts = self.pc[len(pc0) + 1:]
        except (NoJoin, ProgExc, PathEnd):
            ok = False
        finally:
            for k, f in outer.items():
                if f is None:
                    del self.__dict__[k]
                else:
                    setattr(self, k, f)
        if not ok:
            if known:
                raise Unsupported("a join that succeeds only sometimes")
            self.restore(snap)
            del self.obligs[nob:]
        self.pc = pc0 + ([Implies(boolt(cond), f) for f in facts] if ok else [])
        if known is None:
            self.trace[at] = (ok, False, True)
            if not ok:
                del self.trace[at + 1:]
                self.pos = at + 1
        return ok, (v if ok else None)

    def choose(self):
        """unconstrained fork"""
        if self.pos < len(self.trace):
            val = self.trace[self.pos][0]
        else:
            val = True
            self.trace.append((True, True, False))
        self.pos += 1
        return val

    @staticmethod
    def _next(trace):
        t = list(trace)
        while t and not (t[-1][1] and t[-1][0]):
            t.pop()
        if not t:
            return None
        t[-1] = (False, False, False)
        return t

    def subexplore(self, fn, assume=()):
        """All paths of fn from the current state; the state is restored afterwards.
        Returns a list of (result, suffix of the path condition, snapshot)."""
        snap, pc0, tr0, pos0 = self.snapshot(), list(self.pc), self.trace, self.pos
        names0, gen0, memo0 = dict(self._names), list(self.generics), dict(self.run_memo)
        namesmax = dict(names0)
        out = []
        trace = []
        while trace is not None:
            self.restore(snap)
            self._names, self.generics, self.run_memo = dict(names0), list(gen0), dict(memo0)
            self.pc = pc0 + [boolt(a) for a in assume if not z3.is_true(boolt(a))]
            n0 = len(self.pc)
            self.trace, self.pos = list(trace), 0
            ended = False
            try:
                res = fn()
            except PathEnd:
                ended = True
            finally:
                tr = self.trace
                self.generics = list(gen0)
                for n, v in self._names.items():
                    if namesmax.get(n, 0) < v:
                        namesmax[n] = v
            if not ended:
                out.append((res, self.pc[n0:], [(r, r.c) for r in self.heap], self.run_memo))
            if len(out) > 600:
                raise Unsupported("too many paths in a loop body")
            trace = self._next(tr)
        self.restore(snap)
        self._names, self.generics, self.run_memo = namesmax, gen0, memo0
        self.pc, self.trace, self.pos = pc0, tr0, pos0
        return out

    def explore(self, fn):
        """Runs fn on every path of the program; fn gets a fresh engine state."""
        trace = []
        n = seen = bad = 0
        while trace is not None:
            bad += sum(o.status != "discharged" for o in self.obligs[seen:])
            seen = len(self.obligs)
            if bad > 12:
                # the verdict is settled; the remaining paths are not examined
                break
            self.reset_run()
            self.trace = list(trace)
            try:
                fn()
            except PathEnd:
                pass
            n += 1
            if n > self.budget_paths:
                raise Unsupported("too many paths")
            trace = self._next(self.trace)
        return n

    # --- obligations
    def prove(self, name, f, lemmas=True, ms=None, hint=""):
        f = boolt(f)
        if lemmas and any(nested_sum(t) for t in [f]):
            try:
                pc2, g = canonical(self.prover, self.pc, f)
                pc2, g = hypotheses(pc2, g)
                if self.prover.valid(pc2, g, lemmas=True, ms=ms) == "yes":
                    self.ok(name)
                    return True
            except Unsupported:
                pass
        st = self.prover.valid(self.pc, f, lemmas=lemmas, ms=ms)
        o = Obligation(name, {"yes": "discharged", "no": "refuted", "unknown": "unknown"}[st])
        if st != "yes":
            o.detail = f"{hint}\n  goal: {str(simp(f))[:1500]}\n  under: {[str(p)[:300] for p in self.pc]}\n  solver: {st} {self.prover.last}"
            if st == "no" and self.prover.model is not None:
                o.detail += "\n  counterexample: " + str(self.prover.model)[:2000]
        self.obligs.append(o)
        return st == "yes"

    def fail(self, name, detail):
        self.obligs.append(Obligation(name, "refuted", detail))

    def ok(self, name):
        self.obligs.append(Obligation(name, "discharged"))


E = None


def new_engine():
    global E
    E = Engine()
    import sys
    for m in list(sys.modules.values()):
        n = getattr(m, "__name__", "")
        if n.startswith("pyvc.") or n.startswith("contracts"):
            if hasattr(m, "E"):
                m.E = E
    return E


new_engine()
