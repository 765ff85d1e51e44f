"""Loops: concrete unrolling, inference of closed forms for generic iterations,
and inductive invariants given by contracts.

A generic iteration k of the loop is executed symbolically with placeholders for
everything earlier iterations may have changed; from its effect a closed form of
every changed location is inferred (unchanged, last value, sum, maximum, latch,
last hit, list append, pointwise update).  The inference is an induction proof by
construction: each rule's closed form satisfies the recurrence v(0)=init,
v(k+1)=body(v(k)).  What no rule fits raises NeedsInvariant."""
import z3
from fractions import Fraction
from . import core, values as V
from .core import (E, Ref, Unsupported, NeedsInvariant, PathEnd, ProgExc, I, R, B, Str, And, Or, Not, Implies, ite, boolt, num, real,
                   strt, is_z3, is_num, is_bool, is_str, in_range, forall, exists, simp, mk_sum, contains, lam)
from .values import Elem, IfS, For, Hole, SetSeg, StrV, Fmt, DictC, SetC, ArrC, Opt, setc, mk_str, str_parts
from . import interp as IP
from .interp import BreakExc, ContinueExc, ReturnExc, merge, UNDEF, NTV


class Poison:
    """unknown value; late, if given, binds the name when it is read"""
    def __init__(self, loc, late=None):
        self.loc, self.late = loc, late


def set_enum(setc_):
    """a set as a sequence in some unknown order, every element once"""
    if setc_.items is not None and all(isinstance(x, str) for x in setc_.items):
        pass
    key = ("enum", id(setc_))
    got = E.run_memo.get(key)
    if got is None:
        x = z3.Const("x!", Str)
        k = z3.FreshConst(I, "k!")
        base = E.fresh_name("enum")
        g = list(E.generics)
        en = z3.Function(base, *[I] * (len(g) + 1), Str)
        inv = z3.Function("inv:" + base, *[I] * len(g), Str, I)
        n = E.const("card", I)
        p = lambda t: boolt(setc_.pred(t))
        ek = en(*g, k)
        E.assume(n >= 0)
        E.assume(z3.ForAll([k], Implies(in_range(k, n), And(p(ek), inv(*g, ek) == k)), patterns=[ek]))
        ix = inv(*g, x)
        E.assume(z3.ForAll([x], Implies(p(x), And(in_range(ix, n), en(*g, ix) == x)), patterns=[ix]))
        V.INVERSE[base] = lambda *a: inv(*a)
        DISTINCT.add(base)
        kk = E.const("k", I) if not E.generics else z3.FreshConst(I, "k")
        got = (For(kk, n, (Elem(en(*g, kk)),)), setc_)
        E.run_memo[key] = got
    return got[0]


DISTINCT = set()


def run_for(ip, seq, body, st, env, mod, qual, live=None, orelse=None):
    ctx = Ctx(ip, st, env, mod, qual, live)
    lc = ctx.contract(tuple(seq))
    try:
        if lc is not None:
            lc(ip, ForLoop(ctx, tuple(seq), body))
        else:
            run_seq(tuple(seq), body, ctx)
    except BreakExc:
        return
    if orelse is not None:
        orelse()


class Ctx:
    def __init__(self, ip, st, env, mod, qual, live):
        self.ip, self.st, self.env, self.mod, self.qual, self.live = ip, st, env, mod, qual, live
        self.where = f"{qual}:{getattr(st, 'lineno', '?')}"

    def contract(self, seq=None):
        if self.st is not None and self.ip.loop_rule is not None and seq is not None:
            c = self.ip.loop_rule(self, seq)
            if c is not None:
                return c
        if self.st is None or not self.ip.loop_contracts:
            return None
        return self.ip.loop_contracts.get((self.qual, loop_ordinal(self.ip, self.qual, self.st, self.mod)))


_ord = {}


def loop_ordinal(ip, qual, st, mod):
    """position of the loop among the loops of its kind in its function"""
    import ast
    key = id(st)
    if key in _ord:
        return _ord[key][0]
    tree, _ = IP.load_source(mod.name)
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef,)):
            cnt = {"While": 0, "For": 0}
            todo = list(fn.body)
            while todo:
                x = todo.pop(0)
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                n = type(x).__name__
                if n in cnt:
                    _ord[id(x)] = ((n, cnt[n]), x)
                    cnt[n] += 1
                todo = [c for c in ast.iter_child_nodes(x) if isinstance(c, (ast.stmt, ast.excepthandler))] + todo
    return _ord.get(key, ((None, -1), None))[0]


class ForLoop:
    def __init__(self, ctx, seq, body):
        self.ctx, self.seq, self.body = ctx, seq, body

    def once(self, v):
        try:
            self.body(v)
        except ContinueExc:
            pass


class WhileLoop:
    def __init__(self, ctx, test, body):
        self.ctx, self.test, self.body = ctx, test, body

    def once(self):
        try:
            self.body()
        except ContinueExc:
            pass


def run_seq(seq, body, ctx):
    for i, g in enumerate(seq):
        if isinstance(g, Elem):
            c0 = ctx.live.c if ctx.live is not None else None
            try:
                body(g.v)
            except ContinueExc:
                pass
            if ctx.live is not None and ctx.live.c is not c0:
                raise Unsupported("list changed while it is iterated")
        elif isinstance(g, IfS):
            run_seq(g.a if E.decide(g.c) else g.b, body, ctx)
        elif isinstance(g, For):
            n = simp(num(g.n))
            if z3.is_int_value(n) and n.as_long() <= 40:
                for j in range(n.as_long()):
                    run_seq(V.inst(g, j), body, ctx)
            else:
                summarise(g.n, lambda k, g=g: run_seq(V.inst(g, k), body, ctx), ctx)
        elif isinstance(g, SetSeg):
            f = set_enum(g.set)
            summarise(f.n, lambda k, f=f: run_seq(V.inst(f, k), body, ctx), ctx)
        else:
            raise NeedsInvariant("iteration over a list that is being built")


class StopLoop(Exception):
    pass


def run_while(ip, test, body, st, env, mod, qual, orelse=None):
    ctx = Ctx(ip, st, env, mod, qual, None)
    lc = ctx.contract()

    def it(k):
        if not test():
            raise StopLoop()
        try:
            body()
        except ContinueExc:
            pass
    try:
        if lc is not None:
            lc(ip, WhileLoop(ctx, test, body))
        else:
            E.assumptions.add(f"termination of the while loop in {qual} is assumed (partial correctness)")
            summarise(None, it, ctx)
    except StopLoop:
        pass
    except BreakExc:
        return
    if orelse is not None:
        orelse()


# -------------------------------------------------------------- generic iteration
DICTLIKE = ("frame", "obj", "ext", "cls", "mod")


def same_content(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.sort() == b.sort() and a.eq(b)
    if type(a) is type(b) and isinstance(a, (int, str, bool, Fraction)) or a is None:
        return a == b if a is not None else b is None
    return False


def sort_of(v):
    if is_z3(v):
        return v.sort() if v.sort() in (I, R, B, Str) else v.sort()
    if isinstance(v, bool):
        return B
    if isinstance(v, int):
        return I
    if isinstance(v, Fraction):
        return R
    if isinstance(v, str):
        return Str
    return None


def as_sort(v, s):
    if s == R:
        return real(v)
    if s == I:
        return num(v)
    if s == B:
        return boolt(v)
    if s == Str:
        return strt(v)
    return v


class Loc:
    """a location changed by the loop body"""
    def __init__(self, ref, key, v0):
        self.ref, self.key, self.v0 = ref, key, v0
        self.kind = None       # scalar/poison/strhole/list/dict/arr/set
        self.sort = None
        self.P = None
        self.ph = None

    def id(self):
        return (self.ref.oid, self.key)

    def read(self):
        if self.key is None:
            return self.ref.c
        return self.ref.c.get(self.key, UNDEF)

    def write(self, v):
        if self.key is None:
            setc(self.ref, v)
        else:
            c = dict(self.ref.c)
            if v is UNDEF:
                c.pop(self.key, None)
            else:
                c[self.key] = v
            setc(self.ref, c)

    def __repr__(self):
        return f"{self.ref}.{self.key}"


class Summary:
    def __init__(self, n, it, ctx):
        self.n, self.it, self.ctx = n, it, ctx
        self.k = z3.Const(E.fresh_name("i"), I)
        self.gens = list(E.generics) + [self.k]
        self.locs = {}
        self.results = None

    # --- placeholders
    def placeholder(self, loc):
        if loc.kind == "scalar":
            if loc.P is None or loc.P.sort() != loc.sort:
                f = z3.Function(E.fresh_name(f"P.{loc.key}"), *[I] * len(self.gens), loc.sort)
                loc.decl = f
                loc.P = f(*self.gens)
            return loc.P
        if loc.kind == "poison":
            return Poison(loc)
        if loc.kind == "list":
            if loc.P is None:
                loc.P = Hole(E.fresh_name("hole"))
            return (loc.P,)
        if loc.kind == "str":
            if loc.P is None:
                loc.P = Hole(E.fresh_name("hole"))
            return StrV((loc.P,))
        if loc.kind == "arr":
            nd = len(loc.v0.axes)
            if loc.P is None or loc.P[1] != loc.sort:
                f = z3.Function(E.fresh_name("Parr"), *[I] * (len(self.gens) + nd), loc.sort)
                loc.P = (f, loc.sort)
            f = loc.P[0]
            return ArrC(loc.v0.axes, lambda *ix: f(*self.gens, *ix))
        if loc.kind == "set":
            if loc.P is None:
                loc.P = (z3.Function(E.fresh_name("Pset"), *[I] * len(self.gens), Str, B),)
            f = loc.P[0]
            return SetC(lambda x: f(*self.gens, strt(x)))
        if loc.kind == "dict":
            return DictHole(self, loc)
        if loc.kind == "dictnum":
            raise NeedsInvariant("dictionary updated in a loop")
        raise Unsupported(f"loop-carried {loc.kind}")

    def iterate(self, k, generic=True):
        try:
            self.it(k)
            return ("normal", None)
        except StopLoop:
            return ("stop", None)
        except BreakExc:
            return ("break", None)
        except ReturnExc as r:
            return ("return", r.v)
        except ProgExc as e:
            return ("raise", e.exc)

    def generic_run(self):
        oid0 = E._peek

        def fn():
            for l in self.locs.values():
                l.write(self.placeholder(l))
            self.names0 = dict(E._names)
            E.generics.append(self.k)
            start = {r.oid: r.c for r in E.heap if r.oid <= oid0}
            out = self.iterate(self.k)
            return out, start
        rng = [in_range(self.k, self.n)] if self.n is not None else [self.k >= 0]
        return E.subexplore(fn, assume=rng), oid0

    def discover(self):
        for _ in range(12):
            try:
                results, oid0 = self.generic_run()
            except NeedsInvariant:
                raise
            changed = False
            for (outcome, start), conds, snap, memo in results:
                for r, c in snap:
                    if r.oid > oid0 or r.oid not in start:
                        continue
                    c0 = start[r.oid]
                    if c is c0:
                        continue
                    if r.kind in DICTLIKE:
                        for key in set(c) | set(c0):
                            a, b = c0.get(key, UNDEF), c.get(key, UNDEF)
                            if not same_content(a, b):
                                changed |= self.note(r, key, b)
                    else:
                        changed |= self.note(r, None, c)
            if not changed:
                self.results = results
                return
        raise NeedsInvariant("effects of the loop body do not stabilise")

    def note(self, r, key, v):
        l = self.locs.get((r.oid, key))
        if l is None:
            l = Loc(r, key, r.c if key is None else r.c.get(key, UNDEF))
            self.locs[l.id()] = l
            self.classify(l, v)
            return True
        k0, s0 = l.kind, l.sort
        self.classify(l, v)
        return (l.kind, l.sort) != (k0, s0)

    def classify(self, l, v):
        if l.key is None:
            kind = l.ref.kind
            if kind == "list":
                l.kind = "list"
            elif kind == "set":
                l.kind = "set"
            elif kind == "dict":
                l.kind = "dict"
            elif kind == "arr":
                from . import arrays
                l.v0 = arrays.content(l.v0)
                if not isinstance(l.v0, ArrC):
                    raise NeedsInvariant("array of variable parts changed in a loop")
                s = arrays.sort_of_content(l.v0)
                s2 = arrays.sort_of_content(arrays.content(v)) if not isinstance(v, Poison) else s
                l.kind = "arr"
                new = R if R in (s, s2) else s
                l.sort = new if l.sort is None or l.sort == new else R
            else:
                raise NeedsInvariant(f"{kind} changed in a loop")
            return
        if l.kind == "poison":
            return
        s0, s1 = (None if l.v0 is UNDEF else sort_of(l.v0)), sort_of(v)
        if isinstance(v, StrV) or (l.kind == "str"):
            if l.v0 is not UNDEF and (isinstance(l.v0, (str, StrV)) or is_str(l.v0)):
                l.kind = "str"
                return
        if l.v0 is UNDEF or s1 is None or s0 is None:
            l.kind = "poison"
            return
        if s0 == s1:
            s = s0
        elif {s0, s1} == {I, R}:
            s = R
        else:
            l.kind = "poison"
            return
        if l.kind == "scalar" and l.sort == R and s == I:
            s = R
        l.kind, l.sort = "scalar", s

    # --- solving
    def solve(self):
        self.discover()
        k = self.k
        self.normal, self.exits = [], []
        self.facts = []
        for (outcome, start), pc, snap, memo in self.results:
            E.run_memo["dirty"] = E.run_memo.get("dirty", frozenset()) | memo.get("dirty", frozenset())
            rngid = None
            conds, assumed = [], []
            for i, p in enumerate(pc):
                if i == 0 and rng_like(p, self):
                    continue
                if p.get_id() in E.assumed:
                    assumed.append((And(*conds), p))
                else:
                    conds.append(p)
            c = And(*conds)
            d = {r.oid: cc for r, cc in snap}
            (self.normal if outcome[0] == "normal" else self.exits).append((outcome, c, d))
            self.facts += assumed
        # closed forms, in dependency order
        self.cf = {}          # loc id -> function K -> value at the start of iteration K
        self.pairs = []       # substitution of solved placeholders at iteration k
        todo = list(self.locs.values())
        progress = True
        while todo and progress:
            progress = False
            later = []
            for l in todo:
                try:
                    f = self.solve_loc(l)
                except NeedsOther:
                    later.append(l)
                    continue
                self.cf[l.id()] = f
                self.add_pairs(l, f)
                progress = True
            todo = later
        if todo:
            raise NeedsInvariant(f"mutually dependent loop variables {[repr(l) for l in todo]} in {self.ctx.where}")
        # objects created in the body may mention placeholders
        if self.pairs:
            for r in E.heap:
                if r.born and any(k.eq(b) for b in r.born):
                    r.c = V._subst(r.c, self.pairs)

    def add_pairs(self, l, f):
        if l.kind == "scalar":
            self.pairs.append((l.P, as_sort(f(self.k), l.sort)))
        elif l.kind == "arr":
            fn = l.P[0]
            nd = len(l.v0.axes)
            ix = [z3.FreshConst(I, "x") for _ in range(nd)]
            val = as_sort(f(self.k).at(*ix), l.sort)
            self.pairs.append(fun_pair(fn, self.gens, ix, val))
        elif l.kind == "set":
            x = z3.FreshConst(Str, "x")
            self.pairs.append(fun_pair(l.P[0], self.gens, [x], boolt(f(self.k).pred(x))))

    def sub(self, t):
        return V._subst(t, self.pairs) if self.pairs else t

    def sub_but(self, l, t):
        """substitution of the closed forms of all locations but l"""
        ps = [p for p in self.pairs if not (l.P is not None and isinstance(l.P, tuple) and isinstance(p[0], z3.FuncDeclRef) and p[0].eq(l.P[0]))]
        return V._subst(t, ps) if ps else t

    def unsolved(self, t):
        """does term t mention a placeholder that has no closed form yet?"""
        if not is_z3(t):
            return False
        names = core.decls_in(t)
        for l in self.locs.values():
            if l.id() in self.cf:
                continue
            if l.kind == "scalar" and l.P is not None and l.P.decl().name() in names:
                return True
            if l.kind in ("arr", "set") and l.P is not None and l.P[0].name() in names:
                return True
        return False

    def val_unsolved(self, v):
        found = []

        def walk(x):
            if is_z3(x):
                if self.unsolved(x):
                    found.append(x)
            elif isinstance(x, (tuple,)):
                for y in x:
                    walk(y)
            elif isinstance(x, Elem):
                walk(x.v)
            elif isinstance(x, IfS):
                walk(x.c), walk(x.a), walk(x.b)
            elif isinstance(x, For):
                walk(x.body)
                if is_z3(x.n):
                    walk(x.n)
            elif isinstance(x, Fmt):
                walk(x.value)
            elif isinstance(x, StrV):
                walk(x.parts)
            elif isinstance(x, NTV):
                walk(x.vals)
            elif isinstance(x, Opt):
                walk(x.cond), walk(x.v)
        walk(v)
        return bool(found)

    def paths_of(self, l):
        out = []
        for outcome, c, d in self.normal:
            cont = d.get(l.ref.oid)
            v = cont if l.key is None else cont.get(l.key, UNDEF)
            out.append((self.sub(c), v))
        return out

    def solve_loc(self, l):
        paths = self.paths_of(l)
        if not paths:
            return lambda K: l.v0
        k = self.k
        if l.kind == "scalar":
            ps = [(c, self.sub(as_sort(v, l.sort))) for c, v in paths]
            own = l.P
            return self.scalar(own, ps, as_sort(l.v0, l.sort), l)
        if l.kind == "poison":
            vals = [v for c, v in paths]
            unchanged = [isinstance(v, Poison) for v in vals]
            if all(unchanged):
                return lambda K: l.v0
            for c, v in paths:
                if self.unsolved(c) or self.val_unsolved(v):
                    raise NeedsOther()
            paths = [(c, self.sub(v)) for c, v in paths]
            if not any(unchanged):
                def last(K):
                    K = num(K)
                    at = lambda j: V.subst(merge_paths(paths), [(k, j)])
                    s = simp(K)
                    if z3.is_int_value(s):
                        return l.v0 if s.as_long() <= 0 else at(z3.IntVal(s.as_long() - 1))
                    if l.v0 is UNDEF:
                        # undefined unless an iteration took place
                        if E.entails(K > 0):
                            return at(simp(K - 1))
                        return LazyDecide(K > 0, lambda: at(simp(K - 1)), lambda: UNDEF)
                    return LazyDecide(K > 0, lambda: at(simp(K - 1)), lambda: l.v0)
                return last
            # conditional assignment: the last hit
            hit = Or(*[c for (c, v) in paths if not isinstance(v, Poison)])
            hp = [(c, v) for c, v in paths if not isinstance(v, Poison)]

            def lasthit(K):
                found, j = last_hit(k, hit, num(K))
                return LazyDecide(found, lambda: V.subst(merge_paths(hp), [(k, j)]), lambda: l.v0)
            return lasthit
        if l.kind in ("list", "str"):
            ext = []
            for c, v in paths:
                parts = v if l.kind == "list" else str_parts(v)
                if not parts or parts[0] is not l.P and not (isinstance(parts[0], Hole) and parts[0].h == l.P.h):
                    if l.kind == "str" and not any_hole(parts):
                        ext = None
                        break
                    if l.kind == "list" and not any_hole(parts):
                        ext = None
                        break
                    raise NeedsInvariant(f"{l} is not only appended to ({self.ctx.where})")
                if any_hole(parts[1:]):
                    raise NeedsInvariant("list built from itself")
                if self.unsolved(c) or self.val_unsolved(parts[1:]):
                    raise NeedsOther()
                ext.append((c, self.sub(tuple(parts[1:]))))
            if ext is None:
                # replaced in every iteration
                for c, v in paths:
                    if any_hole(v if l.kind == "list" else str_parts(v)) or self.unsolved(c) or self.val_unsolved(v):
                        raise NeedsInvariant("list sometimes replaced, sometimes extended")
                pp = [(c, self.sub(v)) for c, v in paths]

                def lastv(K):
                    K = num(K)
                    if l.kind == "str":
                        return LazyDecide(K > 0, lambda: V.subst(merge_paths(pp), [(k, simp(K - 1))]), lambda: l.v0)
                    body = seq_merge(pp)
                    return LazyDecide(K > 0, lambda: V.subst(body, [(k, simp(K - 1))]), lambda: l.v0)
                return lastv
            body = seq_merge(ext)

            def grown(K):
                if not body:
                    return l.v0
                kk = z3.FreshConst(I, "k")
                seg = (For(kk, K, V.subst(body, [(k, kk)])),)
                if l.kind == "str":
                    return mk_str(str_parts(l.v0) + seg)
                return tuple(l.v0) + seg
            return grown
        if l.kind == "arr":
            from . import arrays
            v0 = l.v0
            f0 = l.P[0]
            nd = len(v0.axes)
            axes = v0.axes

            def arrcf(K):
                def el(*ix):
                    own = f0(*self.gens, *ix)
                    ps = []
                    for c, v in paths:
                        ac = arrays.content(v)
                        if len(ac.axes) != nd:
                            raise NeedsInvariant("array replaced by one of another shape")
                        ps.append((c, self.sub_but(l, own_reads(own, as_sort(ac.at(*ix), l.sort), c))))
                    for c, v in ps:
                        other_reads(own, v)
                    return self.scalar(own, ps, as_sort(v0.at(*ix), l.sort), l)(K)
                return ArrC(axes, el)
            probe = [z3.FreshConst(I, "x") for _ in range(nd)]
            own = f0(*self.gens, *probe)
            self.scalar(own, [(c, self.sub(own_reads(own, as_sort(arrays.content(v).at(*probe), l.sort), c))) for c, v in paths],
                        as_sort(v0.at(*probe), l.sort), l)
            return arrcf
        if l.kind == "set":
            f0 = l.P[0]

            def setcf(K):
                def pred(x):
                    xt = strt(x)
                    own = f0(*self.gens, xt)
                    ps = [(c, self.sub_but(l, boolt(v.pred(xt)))) for c, v in paths]
                    return self.scalar(own, ps, boolt(l.v0.pred(xt)), l)(K)
                return SetC(pred)
            x = z3.FreshConst(Str, "x")
            self.scalar(f0(*self.gens, x), [(c, self.sub(boolt(v.pred(x)))) for c, v in paths], boolt(l.v0.pred(x)), l)
            return setcf
        if l.kind == "dict":
            return self.solve_dict(l, paths)
        raise NeedsInvariant(f"loop-carried {l.kind}")

    def solve_dict(self, l, paths):
        k = self.k
        v0 = l.v0
        writes = []      # (cond, key, value) in order, per path
        for c, v in paths:
            if not isinstance(v, DictHole):
                raise NeedsInvariant("dictionary replaced in a loop")
            if self.unsolved(c):
                raise NeedsOther()
            if len(v.log) > 1:
                raise NeedsInvariant("several dictionary entries written per iteration")
            for key, val in v.log:
                if self.val_unsolved(val) or self.val_unsolved(key):
                    raise NeedsOther()
                writes.append((c, self.sub(key), self.sub(val)))
        ks = [w[1] for w in writes]
        key = ks[0]
        if any(not (same_content(key, x) or (is_z3(x) and is_z3(key) and x.eq(key))) for x in ks[1:]):
            raise NeedsInvariant("different dictionary keys written on different paths")
        hitc = Or(*[c for c, _, _ in writes])
        kt = IP.kterm(key) if not isinstance(key, tuple) else None
        if kt is None:
            raise NeedsInvariant("tuple keys written in a loop")
        d0 = v0 if not v0.concrete else sym_dict(v0)
        vals = [(c, v) for c, _, v in writes]
        distinct = distinct_key(kt, k)

        def cf(K):
            def at(x):
                x = IP.kterm(x)
                if x.sort() != kt.sort():
                    return z3.BoolVal(False), None
                found, j = last_hit(k, And(x == kt, hitc), num(K))
                return found, j
            def has(x):
                f, j = at(x)
                return Or(f, d0.has(x))
            def get(x):
                f, j = at(x)
                if j is None:
                    return d0.get(x)
                v = V.subst(merge_paths(vals), [(k, j)])
                if v0.concrete and not v0.items:
                    return v
                return merge(f, v, d0.get(x))
            keys = None
            base = tuple(Elem(a) for a, _ in v0.items) if v0.concrete else v0.keys
            if distinct and base is not None and (not base or not E.entails(z3.BoolVal(False)) and not base):
                kk = z3.FreshConst(I, "k")
                keys = base + (For(kk, K, V.subst(V.mk_if(hitc, (Elem(key),), ()), [(k, kk)])),)
            elif base is not None and v0.concrete is False and distinct and not z3.is_false(simp(hitc)):
                # keys of the old dictionary rewritten: order unchanged when all present
                j = z3.FreshConst(I, "j")
                present = forall([j], Implies(And(in_range(j, self.n), z3.substitute(boolt(hitc), (k, j))),
                                              z3.substitute(boolt(d0.has(kt)), (k, j))))
                if E.entails(present):
                    keys = base
            return DictC(has=has, get=get, keys=keys)
        return cf

    def scalar(self, P, ps, v0, l):
        """closed form of the recurrence P' = merge(ps)(P)"""
        k = self.k
        for c, v in ps:
            if self.unsolved_other(c, P) or self.unsolved_other(v, P):
                raise NeedsOther()
        hasP = lambda t: contains(t, P)
        # drop identical outcomes
        if all(v.eq(P) for c, v in ps):
            return lambda K: v0
        # (the conditions may mention P through latches)
        if P.sort() == B:
            F = simp(merge_terms(ps))
            T1 = simp(z3.substitute(F, (P, z3.BoolVal(True))))
            T0 = simp(z3.substitute(F, (P, z3.BoolVal(False))))
            eqv = lambda a, b: a.eq(b) or E.prover.valid(E.pc + [in_range(k, self.n)], a == b) == "yes"
            if eqv(T1, T0):
                return lambda K: simp(z3.If(num(K) > 0, z3.substitute(T0, (k, num(K) - 1)), v0))
            if eqv(T1, z3.BoolVal(True)):
                def latch(K):
                    return Or(v0, hit_exists(k, T0, num(K)))
                return latch
            if eqv(T0, z3.BoolVal(False)):
                def all_(K):
                    j = z3.FreshConst(I, "j")
                    return And(v0, forall([j], Implies(in_range(j, K), z3.substitute(T1, (k, j)))))
                return all_
            raise NeedsInvariant(f"truth value {l} in {self.ctx.where}")
        F = simp(merge_terms(ps))
        if not hasP(F):
            def last(K):
                K = simp(num(K))
                return simp(z3.If(K > 0, z3.substitute(F, (k, K - 1)), v0))
            return last
        condsP = any(hasP(c) for c, v in ps)
        # additive
        if F.sort() in (I, R) and not condsP:
            fs = []
            for c, v in ps:
                f = simp(v - P)
                if hasP(f):
                    f = lin_rest(v, P)
                    if f is None or hasP(f):
                        fs = None
                        break
                fs.append((c, f))
            if fs is not None:
                f = simp(merge_terms(fs))
                return lambda K: simp(v0 + sum_upto(k, K, f))
        # leaves of the merged value
        leaves = ite_leaves(F)
        if any(v.eq(P) for c, v in leaves) and all(v.eq(P) or not hasP(v) for c, v in leaves):
            hit = Or(*[c for c, v in leaves if not v.eq(P)])
            if not hasP(hit):
                hv = merge_terms([(c, v) for c, v in leaves if not v.eq(P)])

                def lasthit(K):
                    found, j = last_hit(k, simp(hit), num(K))
                    return ite(found, z3.substitute(hv, (k, num(j))), v0)
                return lasthit
            # running maximum / minimum of guarded values
            if F.sort() in (I, R):
                for cmp, name in ((lambda a, b: a >= b, "max"), (lambda a, b: a <= b, "min")):
                    for hv in {v.get_id(): v for c, v in leaves if not v.eq(P)}.values():
                        # find guard g free of P with F == ite(g, best(P, hv), P)
                        g = simp(z3.substitute(hit, (P, (hv - 1) if name == "max" else (hv + 1))))
                        if hasP(g):
                            continue
                        cand = z3.If(And(g, Not(cmp(P, hv))), hv, P)
                        if E.prover.valid(E.pc + [in_range(k, self.n)], F == cand) == "yes":
                            sgn = 1 if name == "max" else -1
                            return lambda K, hv=hv, g=g, sgn=sgn: maxfold(k, K, hv, g, v0, sgn)
        raise NeedsInvariant(f"no closed form for {l} in {self.ctx.where}: {str(F)[:200]}")

    def unsolved_other(self, t, P):
        names = core.decls_in(t)
        own = P.decl().name()
        for l in self.locs.values():
            if l.id() in self.cf:
                continue
            if l.kind == "scalar" and l.P is not None and l.P.decl().name() in names and l.P.decl().name() != own:
                return True
            if l.kind in ("arr", "set") and l.P is not None and l.P[0].name() in names and l.P[0].name() != own:
                return True
        # the same array read at another place is a recurrence, not a fold
        return False

    # --- applying
    def export_facts(self, K):
        for c, a in self.facts:
            j = z3.FreshConst(I, "j")
            f = Implies(self.sub(c), self.sub(a))
            if contains(f, self.k):
                E.assume(forall([j], Implies(in_range(j, K), z3.substitute(f, (self.k, j)))))
            else:
                E.assume(f)

    def dead(self, l):
        """the location is a local variable that is not read outside of this loop
        (Poison is reported when it is read after all)"""
        if l.ref.kind == "frame" and l.ref.tag == "comp":
            return True        # variables of a comprehension
        if l.ref.kind != "frame" or not isinstance(l.key, str) or self.ctx.st is None or self.ctx.env[-1] is not l.ref:
            return False
        return l.key not in read_outside(self.ctx)

    def set_state(self, K):
        new = [(l, Poison(l) if self.dead(l) else self.cf[l.id()](K)) for l in self.locs.values()]
        for l, v in new:
            if isinstance(v, LazyDecide):
                v = v.force()
            l.write(v)

    def run(self):
        self.solve()
        k, n = self.k, self.n
        if not self.exits:
            if n is None:
                raise Unsupported(f"endless loop ({self.ctx.where})")
            nn = clamp(n)
            self.export_facts(nn)
            self.set_state(nn)
            return
        X = Or(*[self.sub(c) for _, c, _ in self.exits])
        X = simp(X)
        j = z3.FreshConst(I, "j")
        Xat = lambda t: z3.substitute(boolt(X), (k, num(t)))
        if n is not None:
            r = E.prover.valid(E.pc + [in_range(k, n)], Not(X))
            if r == "yes":
                nn = clamp(n)
                self.export_facts(nn)
                self.set_state(nn)
                return
            if E.choose():
                nn = clamp(n)
                E.assume(forall([j], Implies(in_range(j, n), Not(Xat(j)))))
                self.prune()
                self.export_facts(nn)
                self.set_state(nn)
                return
        K = E.const("K", I)
        E.assume(in_range(K, n) if n is not None else K >= 0)
        E.assume(Xat(K))
        E.assume(forall([j], Implies(in_range(j, K), Not(Xat(j)))))
        self.prune()
        self.export_facts(K + 1)
        self.set_state(K)
        saved = dict(E._names)
        E._names = dict(self.names0)
        E.generics.append(K)
        try:
            self.it(K)
        finally:
            E.generics.pop()
            for a, b in saved.items():
                if E._names.get(a, 0) < b:
                    E._names[a] = b
        raise PathEnd()

    def prune(self):
        if E.prover.valid(E.pc, z3.BoolVal(False)) == "yes":
            raise PathEnd()


class NeedsOther(Exception):
    pass


_ro = {}


def read_outside(ctx):
    """names read in the function of a loop outside of the loop"""
    import ast
    got = _ro.get(id(ctx.st))
    if got is not None and got[0] is ctx.st:
        return got[1]
    tree, _ = IP.load_source(ctx.mod.name)
    owner = None
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.Module)) and any(x is ctx.st for x in ast.walk(fn)):
            owner = fn       # (the innermost one comes last)
    out, todo = set(), [owner] if owner is not None else []
    if owner is None:
        out = AllNames()
    while todo:
        x = todo.pop()
        if x is ctx.st:
            continue
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
            out.add(x.id)
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            out.add(x.target.id)
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            out.update(x.names)
        todo.extend(ast.iter_child_nodes(x))
    # nested functions may be called from anywhere
    if owner is not None:
        for fn in ast.walk(owner):
            if fn is not owner and isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                out |= {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)}
    _ro[id(ctx.st)] = (ctx.st, out)
    return out


class AllNames:
    def __contains__(self, n):
        return True


class LazyDecide:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def force(self):
        v = self.a() if E.decide(self.c) else self.b()
        return v.force() if isinstance(v, LazyDecide) else v


class DictHole(DictC):
    """dictionary during a generic iteration: earlier content unknown, new entries logged"""
    __slots__ = ("s", "loc", "log")

    def __init__(self, s, loc, log=()):
        super().__init__(items=None, has=self._has, get=self._get, keys=None)
        self.s, self.loc, self.log = s, loc, log

    def _has(self, x):
        raise NeedsInvariant("membership in a dictionary that is being built")

    def _get(self, x):
        raise NeedsInvariant("entry of a dictionary that is being built")


def sym_dict(d):
    items = d.items

    def has(x):
        return Or(*[IP.kterm(a) == x for a, _ in items if IP.kterm(a).sort() == x.sort()])

    def get(x):
        out = None
        for a, v in items:
            if IP.kterm(a).sort() == x.sort():
                out = v if out is None else merge(IP.kterm(a) == x, v, out)
        return out
    return DictC(has=has, get=get, keys=tuple(Elem(a) for a, _ in items))


def any_hole(parts):
    for g in parts:
        if isinstance(g, Hole):
            return True
        if isinstance(g, IfS) and (any_hole(g.a) or any_hole(g.b)):
            return True
        if isinstance(g, For) and any_hole(g.body):
            return True
        if isinstance(g, Elem) and isinstance(g.v, Fmt) and isinstance(g.v.value, StrV) and any_hole(g.v.value.parts):
            return True
    return False


def rng_like(p, s):
    want = in_range(s.k, s.n) if s.n is not None else s.k >= 0
    return p.eq(boolt(want))


def clamp(n):
    if isinstance(n, int):
        return max(n, 0)
    n = num(n)
    if E.entails(n >= 0):
        return n
    return simp(z3.If(n >= 0, n, z3.IntVal(0)))


def fun_pair(decl, gens, ix, val):
    """substitution entry decl(gens, ix) := val for all gens and ix"""
    vs = list(gens) + list(ix)
    body = z3.substitute(val, *[(v, z3.Var(len(vs) - 1 - i if False else i, v.sort())) for i, v in enumerate(vs)])
    return (decl, body)


def merge_terms(ps):
    out = ps[-1][1]
    for c, v in reversed(ps[:-1]):
        out = ite(c, v, out) if not v.eq(out) else out
    return out


def merge_paths(ps):
    out = ps[-1][1]
    for c, v in reversed(ps[:-1]):
        out = merge(c, v, out)
    return out


def seq_merge(ps):
    out = tuple(ps[-1][1])
    for c, v in reversed(ps[:-1]):
        v = tuple(v)
        if not v and not out:
            continue
        # common prefix/suffix elements stay outside the case split
        out = V.mk_if(c, v, out)
    return out


def ite_leaves(t):
    out = []

    def go(t, c):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            go(t.arg(1), c + [t.arg(0)])
            go(t.arg(2), c + [Not(t.arg(0))])
        else:
            out.append((And(*c), t))
    go(t, [])
    return out


def lin_rest(v, P):
    """v = P + rest?"""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ADD:
        rest = [a for a in v.children() if not a.eq(P)]
        if len(rest) == v.num_args() - 1:
            if len(rest) == 1:
                return rest[0]
            return z3.Sum(rest)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        a, b = lin_rest(v.arg(1), P), lin_rest(v.arg(2), P)
        if a is not None and b is not None:
            return z3.If(v.arg(0), a, b)
    if v.eq(P):
        return z3.RealVal(0) if P.sort() == R else z3.IntVal(0)
    return None


def own_reads(own, t, cond):
    """t with reads of the location at indices that are equal to its own (under the
    conditions in force) replaced by the own read"""
    name, n = own.decl().name(), own.num_args()
    memo = {}

    def eqs_of(c):
        out = []
        for a in split_and(simp(c)):
            if z3.is_eq(a) and a.arg(0).sort() == I:
                out.append((a.arg(0), a.arg(1)))
        return out

    def same(a, b, eqs):
        if a.eq(b):
            return True
        for x, y in eqs:
            d = simp(a - b)
            if d.eq(simp(x - y)) or d.eq(simp(y - x)):
                return True
        return False

    def go(t, eqs, key):
        m = (t.get_id(), key)
        if m in memo:
            return memo[m][1]
        if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
            out = t
        elif t.decl().name() == name and all(same(t.arg(i), own.arg(i), eqs) for i in range(n)):
            out = own
        elif t.decl().kind() == z3.Z3_OP_ITE:
            c = go(t.arg(0), eqs, key)
            e1, e2 = eqs_of(t.arg(0)), eqs_of(Not(t.arg(0)))
            k1 = key + (t.arg(0).get_id(),) if e1 else key
            k2 = key + (-t.arg(0).get_id(),) if e2 else key
            out = z3.If(c, go(t.arg(1), eqs + e1, k1), go(t.arg(2), eqs + e2, k2))
        else:
            args = [go(a, eqs, key) for a in t.children()]
            out = core.rebuild(t, args)
        memo[m] = (t, out)
        return out
    return go(t, eqs_of(boolt(cond)), ())


def other_reads(own, t):
    """the recurrence must not read the location's array at other indices"""
    for a in core.apps_of([t], {own.decl().name()}):
        if not a.eq(own):
            raise NeedsInvariant(f"array recurrence over other elements: {str(a)[:100]}")


def split_and(c):
    if z3.is_and(c):
        out = []
        for a in c.children():
            out += split_and(a)
        return out
    return [c]


def solve_eq(k, c):
    """if conjunct c forces k to one value t (free of k): (t, side condition at t)"""
    if z3.is_eq(c):
        for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if contains(b, k):
                continue
            if a.eq(k):
                return b, True
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ADD and a.sort() == I:
                rest = [x for x in a.children() if not x.eq(k)]
                if len(rest) == a.num_args() - 1 and not any(contains(x, k) for x in rest):
                    return simp(b - (rest[0] if len(rest) == 1 else z3.Sum(rest))), True
            if z3.is_app(a) and a.num_args() > 0 and a.decl().name() in DISTINCT and a.arg(a.num_args() - 1).eq(k) and \
                    not any(contains(a.arg(i), k) for i in range(a.num_args() - 1)):
                t = V.INVERSE[a.decl().name()](*[a.arg(i) for i in range(a.num_args() - 1)], b)
                return t, z3.substitute(a, (k, t)) == b
    return None


def single_hit(k, hit):
    hit = simp(hit)
    for c in split_and(hit):
        r = solve_eq(k, c)
        if r is not None:
            t, side = r
            rest = And(*[x for x in split_and(hit) if not x.eq(c)])
            return t, And(side, z3.substitute(rest, (k, num(t))))
    return None


def hit_exists(k, hit, K):
    s = single_hit(k, hit)
    if s is not None:
        t, side = s
        return And(in_range(t, K), side)
    j = z3.FreshConst(I, "j")
    if not contains(hit, k):
        return And(num(K) > 0, hit)
    return exists([j], And(in_range(j, K), z3.substitute(boolt(hit), (k, j))))


def last_hit(k, hit, K):
    """(is there j<K with hit(j), the last such j)"""
    hit = simp(boolt(hit))
    if not contains(hit, k):
        return And(K > 0, hit), simp(K - 1)
    s = single_hit(k, hit)
    if s is not None:
        t, side = s
        return And(in_range(t, K), side), t
    arr = lam(k, hit)
    L = core.LASTIDX(arr, K)
    m, j = z3.FreshConst(I, "m"), z3.FreshConst(I, "j")
    h = lambda t: z3.substitute(hit, (k, t))
    Lm = core.LASTIDX(arr, m)
    E.assume(z3.ForAll([m], And(Lm >= -1, Implies(m >= 0, Lm < m), Implies(Lm >= 0, h(Lm)),
                                z3.ForAll([j], Implies(And(j > Lm, j >= 0, j < m), Not(h(j))))), patterns=[Lm]))
    return L >= 0, L


def sum_upto(k, K, f):
    f = simp(num(f))
    # sums with a single non-zero term
    leaves = ite_leaves(f)
    nz = [(c, v) for c, v in leaves if not is_zero(v)]
    if len(nz) == 1 and len(leaves) > 1:
        s = single_hit(k, nz[0][0])
        if s is not None:
            t, side = s
            zero = z3.RealVal(0) if f.is_real() else z3.IntVal(0)
            return simp(z3.If(And(in_range(t, K), side), z3.substitute(nz[0][1], (k, num(t))), zero))
    kk = z3.FreshConst(I, "!s")
    return mk_sum(kk, num(K), z3.substitute(f, (k, kk)))


def is_zero(v):
    return z3.is_int_value(v) and v.as_long() == 0 or z3.is_rational_value(v) and v.numerator_as_long() == 0


def maxfold(k, K, hv, g, v0, sgn):
    """maximum (sgn=1) or minimum (-1) of v0 and hv(j) over j<K with g(j)"""
    kk = z3.FreshConst(I, "!m")
    f = lam(kk, simp(z3.substitute(real(hv) * sgn, (k, kk))))
    gg = lam(kk, simp(z3.substitute(boolt(g), (k, kk))))
    t = core.MAXF(f, gg, num(K), real(v0) * sgn)
    maxf_axioms(f, gg, real(v0) * sgn)
    r = simp(t * sgn)
    return r


def maxf_axioms(f, g, v0):
    m, j = z3.FreshConst(I, "m"), z3.FreshConst(I, "j")
    t = core.MAXF(f, g, m, v0)
    fs = lambda x: z3.Select(f, x)
    gs = lambda x: z3.Select(g, x)
    E.assume(z3.ForAll([m], And(t >= v0,
                                z3.ForAll([j], Implies(And(j >= 0, j < m, gs(j)), fs(j) <= t)),
                                Or(t == v0, z3.Exists([j], And(j >= 0, j < m, gs(j), fs(j) == t)))), patterns=[t]))


def distinct_key(kt, k):
    if kt.eq(k):
        return True
    if z3.is_app(kt) and kt.num_args() > 0 and kt.decl().name() in DISTINCT and kt.arg(kt.num_args() - 1).eq(k):
        return True
    return False


def summarise(n, it, ctx):
    if n is not None and E.entails(num(n) <= 0):
        return
    Summary(n, it, ctx).run()


# ------------------------------------------------------------ inductive invariants
def frame_get(ctx, name):
    return ctx.env[-1].c.get(name)


def inductive_while(ip, loop, name, havoc, inv, variant=None, state=None, step=None):
    """loop rule: inv holds on entry; inv and the test imply inv after the body.
    havoc() overwrites everything the loop may change with unknowns; written
    locations outside the havocked ones are reported as unsupported."""
    for label, f in inv():
        E.prove(f"{name}: {label} holds on entry", f)
    arb = E.choose()
    poison_names(loop.ctx)
    before = {r.oid: r.c for r in E.heap}
    havoc()
    after = {r.oid: r.c for r in E.heap}
    changed = {o for o, c in after.items() if o in before and c is not before[o]} | {loop.ctx.env[-1].oid}
    for label, f in inv():
        E.assume(f)
    if arb:
        # the loop ends here, or leaves from an arbitrary iteration
        if not loop.test():
            return
        raise_exit(ip, loop)
        raise PathEnd()
    if not loop.test():
        raise PathEnd()
    v0 = variant() if variant else None
    s0 = state() if state else None
    try:
        loop.once()
    except (BreakExc, ReturnExc, ProgExc):
        raise PathEnd()
    check_havoc(name, after, changed, before)
    for label, f in inv():
        E.prove(f"{name}: {label} is preserved", f)
    if step:
        for label, f in step(s0, state()):
            E.prove(f"{name}: {label}", f)
    if variant:
        v1 = variant()
        E.prove(f"{name}: variant decreases and is bounded", And(v1 < v0, v0 >= 0))
    raise PathEnd()


def poison_names(ctx):
    """what a loop may bind has an unknown value in an arbitrary iteration"""
    env = ctx.env[-1]
    setc(env, {**env.c, **{nm: Poison(nm) for nm in assigned_names(ctx.st)}})


def items_of(loop, k=None):
    """the items of a for loop as (number, item at an index)"""
    seq = loop.seq
    if len(seq) == 1 and isinstance(seq[0], SetSeg):
        seq = (set_enum(seq[0].set),)
    if len(seq) == 1 and isinstance(seq[0], For) and len(seq[0].body) == 1 and isinstance(seq[0].body[0], Elem):
        g = seq[0]
        return num(g.n), lambda k: V.inst(g, k)
    n = num(V.seq_len(seq))
    return n, lambda k: (Elem(V.seq_get(seq, k)),)


def inductive_for(ip, loop, name, havoc, inv):
    """rule for a for loop: inv(0) holds on entry, inv(k) and the body at item k imply
    inv(k+1); after the loop inv(number of items) holds.  havoc(k) overwrites everything
    the loop may change with unknowns.  Ways out of the loop are followed from an
    arbitrary iteration.  inv(k, goal) gives the invariant as a goal or as an assumption."""
    n, item = items_of(loop)
    E.assume(n >= 0)
    for label, f in inv(z3.IntVal(0), True):
        E.prove(f"{name}: {label} holds on entry", f)
    arb = E.choose()
    k = E.const("it", I) if arb else n
    poison_names(loop.ctx)
    before = {r.oid: r.c for r in E.heap}
    havoc(k)
    after = {r.oid: r.c for r in E.heap}
    changed = {o for o, c in after.items() if o in before and c is not before[o]} | {loop.ctx.env[-1].oid}
    if arb:
        E.assume(in_range(k, n))
    for label, f in inv(k, False):
        E.assume(f)
    if not arb:
        bind_last(ip, loop, n, item)
        return
    run_seq(item(k), loop.body, loop.ctx)
    check_havoc(name, after, changed, before)
    for label, f in inv(simp(k + 1), True):
        E.prove(f"{name}: {label} is preserved", f)
    raise PathEnd()


def bind_last(ip, loop, n, item):
    """the loop variable after the loop: the last item, unless the body assigns it"""
    import ast
    st, ctx = loop.ctx.st, loop.ctx
    if not isinstance(st, ast.For):
        return
    names = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
    inside = set().union(*[assigned_names(x) for x in st.body]) if st.body else set()
    if names & inside:
        return
    def late():
        if not E.decide(n > 0):
            return
        got = item(simp(n - 1))
        if len(got) == 1 and isinstance(got[0], Elem):
            ip.assign(st.target, got[0].v, ctx.env, ctx.mod)
    env = ctx.env[-1]
    setc(env, {**env.c, **{nm: Poison(nm, late) for nm in names}})


def plain_while(ip, loop):
    """the loop without an invariant, by inference"""
    def it(k):
        if not loop.test():
            raise StopLoop()
        try:
            loop.body()
        except ContinueExc:
            pass
    E.assumptions.add(f"termination of the while loop in {loop.ctx.qual} is assumed (partial correctness)")
    try:
        summarise(None, it, loop.ctx)
    except StopLoop:
        pass


def raise_exit(ip, loop):
    """body from an arbitrary reachable state, for the paths that leave the loop"""
    loop.once()


def check_havoc(name, after, changed, before):
    for r in E.heap:
        if r.oid in before and r.c is not after[r.oid]:
            if r.oid in changed:
                continue
            if r.kind in DICTLIKE:
                continue_ok = False
            E.fail(f"{name}: frame", f"object {r} is changed by the loop body but not part of the loop contract")
            return


def assigned_names(st):
    """names a loop statement may bind (its own scope only)"""
    import ast
    out = set()
    todo = [st]
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(x, ast.Lambda):
                out.add(x.name)
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo += [y for y in ast.walk(x) if isinstance(y, ast.NamedExpr)]
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        todo.extend(ast.iter_child_nodes(x))
    return out


def each_item(ip, loop, n, items, on_item, on_exc, opaque):
    """Loop rule for a loop over n given items that appends one result per item to a
    list: proves the body for an arbitrary item after arbitrarily many others (every
    list the loop may extend then holds unknown values, every other variable of the
    loop is undefined), and continues after the loop with the list of n results."""
    ctx = loop.ctx
    env = ctx.env[-1]
    names = assigned_names(ctx.st)
    lists = {nm: r for nm, r in env.c.items() if isinstance(r, Ref) and r.kind == "list" and r.c == () and nm not in names}
    arb = E.choose()
    k = E.const("k", I)
    poisoned = {nm: Poison(nm) for nm in names}
    setc(env, {**env.c, **poisoned})
    if arb:
        E.assume(in_range(k, n))
        for nm, r in lists.items():
            j = z3.FreshConst(I, "j")
            setc(r, (For(j, k, (Elem(opaque(nm, j)),)),))
        item = V.inst(items, k)
        start = {r.oid: r.c for r in E.heap}
        item_oids = {r.oid for r in E.heap}
        try:
            run_seq(item, loop.body, ctx)
        except ProgExc as ex:
            on_exc(k, item, ex)
            raise PathEnd()
        except (BreakExc, ReturnExc):
            E.fail(f"every item is treated ({ctx.where})", "the loop may end early")
            raise PathEnd()
        got = {}
        for nm, r in lists.items():
            c = r.c
            if c is start[r.oid]:
                continue
            if not (len(c) == 2 and isinstance(c[0], For) and c[0] is start[r.oid][0] and isinstance(c[1], Elem)):
                E.fail(f"one result per item is appended ({ctx.where})", repr(c)[:300])
                raise PathEnd()
            got[nm] = c[1].v
        allowed = {env.oid} | {r.oid for r in lists.values()}
        for r in E.heap:
            if r.oid in start and r.c is not start[r.oid] and r.oid not in allowed:
                E.fail(f"the loop changes only its own variables ({ctx.where})", repr(r))
                raise PathEnd()
        for nm, v in env.c.items():
            if nm not in names and not same_content(v, start[env.oid].get(nm, UNDEF)):
                E.fail(f"the loop changes only its own variables ({ctx.where})", nm)
        on_item(k, item, got)
        raise PathEnd()
    for nm, r in lists.items():
        j = z3.FreshConst(I, "j")
        setc(r, (For(j, num(n), (Elem(opaque(nm, j)),)),))
