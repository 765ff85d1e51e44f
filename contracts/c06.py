"""C06: importance is the largest product of coefficients along a path from a target.

PATH(g, s, x, p): p is the product of the coefficients along some path from s to x in
graph g.  It is the least relation closed under PATH(g, s, s, 1) and
PATH(g, s, v, r) and edge v->u  =>  PATH(g, s, u, r*W(v, u))."""
from .common import *
from pyvc import loops
from pyvc.values import For
from pyvc.interp import Ext, ext

S = Str
PATH = z3.Function("PATH", I, S, S, R, B)         # (state, source, species, product)


def sk(vars, body, goal):
    """for all vars: as a goal (fresh constants) or as an assumption"""
    if goal:
        return body(*[core.E.const(n, s) for n, s in vars])
    vs = [z3.FreshConst(s, n) for n, s in vars]
    return z3.ForAll(vs, body(*vs))


class Graph(Ext):
    """directed graph: successors of v are SUCC(v, 0..DEG(v)-1), each once"""
    name = "DiGraph"

    def m_is_directed(self, r):
        return True

    def m_is_multigraph(self, r):
        return False

    def g_succ(self, r):
        return r.c["succ"]

    g__succ = g_adj = g_succ

    def getitem(self, r, v):
        return r.c["ip"].getitem(r.c["succ"], v)

    def contains(self, r, v):
        return NODE(strt(v))


GRAPH = Graph()
NODE = z3.Function("node", S, B)
DEG = z3.Function("deg", S, I)
SUCC = z3.Function("succ", S, I, S)
SPOS = z3.Function("succ.pos", S, S, I)
W = z3.Function("weight", S, S, R)


def edge(v, u):
    return And(in_range(SPOS(v, u), DEG(v)), SUCC(v, SPOS(v, u)) == u)


def graph(ip):
    e = core.E
    v, u, k = z3.Const("v!", S), z3.Const("u!", S), z3.Int("k!")
    e.assume(z3.ForAll([v], DEG(v) >= 0, patterns=[DEG(v)]))
    e.assume(z3.ForAll([v, k], Implies(And(NODE(v), in_range(k, DEG(v))), And(SPOS(v, SUCC(v, k)) == k, NODE(SUCC(v, k)))), patterns=[SUCC(v, k)]))
    e.assume(z3.ForAll([v, u], Implies(edge(v, u), And(W(v, u) > 0, W(v, u) <= 1)), patterns=[W(v, u)]))

    def nbrs(v):
        v = strt(v)
        k = z3.FreshConst(I, "k")
        def data(u):
            d = alloc("dict", DictC(items=(("weight", W(v, strt(u))),)))
            d.born = tuple(V.consts_of(u)) + tuple(V.consts_of(v))
            return d
        return alloc("dict", DictC(has=lambda u: edge(v, strt(u)), get=data,
                                   keys=(For(k, DEG(v), (Elem(SUCC(v, k)),)),)))
    succ = alloc("dict", DictC(has=lambda v: NODE(strt(v)), get=nbrs))
    return alloc("ext", {"succ": succ, "ip": ip}, GRAPH)


def path_closed(g, s, v, r, u):
    """one more edge on a path (instance of the definition of PATH)"""
    return Implies(And(PATH(g, s, v, r), edge(v, u)), PATH(g, s, u, simp(r * W(v, u))))


class Search:
    """the loop invariants of the search"""

    def __init__(self, ip, src):
        self.ip, self.src = ip, src
        self.G = z3.IntVal(0)
        self.cur = None
        self.inner = None
        ip.lib["%heappush"], ip.lib["%heappop"] = self.push, self.pop
        ip.loop_contracts[("drgep.mod_dijkstra", ("While", 0))] = self.outer
        ip.loop_contracts[("drgep.mod_dijkstra", ("For", 0))] = self.over_successors
        self.at = lambda x: z3.IntVal(0)       # ghost: position of the last entry pushed for x

    # -------------------------------------------------- heap, as a bag of entries
    def push(self, h, x):
        """the new entry gets the last position"""
        if not (isinstance(x, tuple) and len(x) == 3):
            raise Unsupported("heap entries of another form")
        n = num(V.seq_len(h.c))
        at0, u = self.at, strt(x[2])
        self.at = lambda y: ite(y == u, n, at0(y))
        setc(h, tuple(h.c) + (Elem(x),))
        return None

    def pop(self, h):
        """any entry (in particular the least one)"""
        n = num(V.seq_len(h.c))
        if not core.E.decide(n > 0):
            core.throw(IndexError, "pop from empty heap")
        j = core.E.const("popped", I)
        core.E.assume(in_range(j, n))
        c = h.c
        el = lambda i: tuple(core.simp(x) for x in get3(c, i))
        x = el(j)
        k = z3.FreshConst(I, "k")
        setc(h, (For(k, simp(n - 1), (Elem(tuple(ite(k < j, a, b) for a, b in zip(el(k), el(k + 1)))),)),))
        at0 = self.at
        self.at = lambda y: ite(at0(y) > j, at0(y) - 1, at0(y))
        self.popped = strt(x[2])
        return x

    # -------------------------------------------------- invariants
    def dist(self):
        return reader(self.d)

    def facts(self, goal, k=None):
        """k: successors of the current node that are done"""
        e = core.E
        hd, D = reader(self.d)
        hs, Sn = reader(self.s)
        c = self.h.c
        n = num(V.seq_len(c))
        F = lambda i: tuple(get3(c, i))
        src, G = self.src, self.G
        at = self.at
        out = [("the source is seen", hs(src)),
               ("the length of the queue", n >= 0)]
        if k is not None:
            out.append(("the current node is done", And(hd(self.cur), NODE(self.cur))))

        def seen_ok(x):
            f = F(at(x))
            inq = And(in_range(at(x), n), f[0] == Sn(x), f[2] == x)
            return Implies(hs(x), And(NODE(x), Sn(x) <= 1, Or(And(hd(x), D(x) >= Sn(x)), inq), Or(PATH(G, src, x, Sn(x)), And(x == src, Sn(x) == 0))))
        out.append(("what is seen is settled or queued", sk([("x", S)], seen_ok, goal)))
        out.append(("settled values are products along paths", sk([("x", S)], lambda x: Implies(hd(x), And(PATH(G, src, x, D(x)), D(x) > 0, D(x) <= 1, hs(x), Implies(x == src, D(x) == 1))), goal)))

        def entry(i):
            f = F(i)
            return Implies(in_range(i, n), And(hs(f[2]), f[0] <= Sn(f[2]), Or(f[2] == src, PATH(G, src, f[2], f[0])), Implies(f[2] != src, f[0] > 0), f[0] >= 0))
        out.append(("queued values are products along paths", sk([("q", I)], entry, goal)))

        def relaxed(x, y):
            done = z3.BoolVal(True) if k is None else Or(x != self.cur, SPOS(x, y) < k)
            return Implies(And(hd(x), edge(x, y), done), And(hs(y), Sn(y) >= D(x) * W(x, y)))
        out.append(("edges of settled nodes are taken", sk([("x", S), ("y", S)], relaxed, goal)))
        return out

    def havoc_state(self, which):
        e = core.E
        if "d" in which:
            hd, D = e.func("done", S, B), e.func("dist", S, R)
            setc(self.d, DictC(has=lambda x: hd(strt(x)), get=lambda x: D(strt(x))))
        hs, Sn = e.func("seen", S, B), e.func("best", S, R)
        setc(self.s, DictC(has=lambda x: hs(strt(x)), get=lambda x: Sn(strt(x))))
        n = e.const("queued", I)
        e.assume(n >= 0)
        FD, FC, FV = e.func("q.val", I, R), e.func("q.cnt", I, I), e.func("q.node", I, S)
        k = z3.FreshConst(I, "k")
        setc(self.h, (For(k, n, (Elem((FD(k), FC(k), FV(k))),)),))
        at = e.func("q.at", S, I)
        self.at = lambda x: at(x)
        for r in list(e.heap):
            if r.kind == "ext" and getattr(r.tag, "name", "") == "count" and r.oid in self.counters:
                setc(r, {**r.c, "n": e.const("cnt", I)})

    def outer(self, ip, loop):
        e = core.E
        fr = loop.ctx.env[-1]
        dicts = [r for n, r in fr.c.items() if isinstance(r, Ref) and r.kind == "dict" and r.c.concrete]
        empty = [r for r in dicts if r.c.items == ()]
        one = [r for r in dicts if len(r.c.items) == 1]
        lists = [r for n, r in fr.c.items() if isinstance(r, Ref) and r.kind == "list"]
        if len(empty) != 1 or len(one) != 1 or len(lists) != 1:
            raise Unsupported("the search does not keep one dictionary of results, one of what is seen, and one queue")
        self.d, self.s, self.h = empty[0], one[0], lists[0]
        self.counters = {r.oid for r in e.heap if r.kind == "ext" and getattr(r.tag, "name", "") == "count"}
        n = len(self.h.c)
        if n == 1 and isinstance(self.h.c[0], Elem):
            self.at = lambda x: z3.IntVal(0)
        self.first = True

        def inv():
            goal = self.first or self.goal
            return self.facts(goal)
        st = {"n": 0}

        def inv2():
            # called: as a goal on entry, as an assumption, as a goal at the end
            st["n"] += 1
            return self.facts(st["n"] != 2)
        loops.inductive_while(ip, loop, "search", lambda: self.havoc_state("ds"), inv2)

    def over_successors(self, ip, loop):
        e = core.E
        self.cur = self.popped
        v = self.cur
        s0, S0 = reader(self.s)

        def inv(k, goal):
            if goal and not z3.is_int_value(k):
                # one more edge on the path to the current node
                hd, D = reader(self.d)
                u = SUCC(v, simp(k - 1))
                e.assume(path_closed(self.G, self.src, v, simp(D(v)), u))
            hs, Sn = reader(self.s)
            return self.facts(goal, k)
        loops.inductive_for(ip, loop, "edges of a node", lambda k: self.havoc_state("s"), inv)


def get3(c, i):
    """entry i of a queue as a total function"""
    off, parts = z3.IntVal(0), []
    for g in c:
        if isinstance(g, Elem):
            parts.append((off, z3.IntVal(1), tuple(g.v)))
            off = off + 1
        elif V.simple_for(g):
            parts.append((off, num(V.for_len(g)), V.inst(g, simp(num(i) - off))[0].v))
            off = off + num(V.for_len(g))
        else:
            raise Unsupported("queue of another form")
    out = None
    for o, n, (d, c_, v) in reversed(parts):
        t = (real(d), num(c_), strt(v))
        out = t if out is None else tuple(ite(num(i) < simp(o + n), a, b) for a, b in zip(t, out))
    return out if out is not None else (z3.FreshReal("nod"), z3.FreshInt("noc"), z3.FreshConst(S, "nov"))


def reader(r):
    d = r.c
    if d.concrete:
        def has(x):
            return Or(*[x == strt(k) for k, v in d.items])

        def get(x):
            out = z3.RealVal(0)
            for k, v in reversed(d.items):
                out = ite(x == strt(k), real(v), out)
            return out
        return has, get
    return (lambda x: simp(boolt(d.has(x)))), (lambda x: simp(real(d.get(x))))


@vc("C06", "lemma: products along paths lie in (0, 1]")
def path_range(ip):
    e = core.E
    r, w = e.const("r", R), e.const("w", R)
    e.prove("base", And(z3.RealVal(1) > 0, z3.RealVal(1) <= 1))
    e.assume(And(r > 0, r <= 1, w > 0, w <= 1))
    e.prove("step", And(r * w > 0, r * w <= 1))


@vc("C06", "lemma: values closed under the edges bound every path")
def closed_bound(ip):
    """Q(x, p): x has a value, at least p.  By induction on the path."""
    e = core.E
    has, val = z3.Function("has", S, B), z3.Function("val", S, R)
    s, v, u, r, w = e.const("s", S), e.const("v", S), e.const("u", S), e.const("r", R), e.const("w", R)
    e.assume(And(has(s), val(s) == 1))
    e.prove("base", And(has(s), val(s) >= 1))
    e.assume(And(w > 0, w <= 1, r > 0))
    e.assume(Implies(has(v), And(has(u), val(u) >= val(v) * w)))        # an edge v -> u of weight w
    e.assume(And(has(v), val(v) >= r))
    e.prove("step", And(has(u), val(u) >= r * w))


@vc("C06", "drgep.ss_dijkstra_path_length_modified: the largest product along the paths from the source",
    functions=["drgep.ss_dijkstra_path_length_modified", "drgep.mod_dijkstra"])
def search(ip):
    e = core.E
    src = e.const("source", S)
    e.assume(NODE(src))
    G = graph(ip)
    sc = Search(ip, src)
    g0 = z3.IntVal(0)
    x, p = z3.Const("x!", S), z3.Real("p!")
    e.assume(PATH(g0, src, src, z3.RealVal(1)))
    e.assume(z3.ForAll([x, p], Implies(PATH(g0, src, x, p), And(p > 0, p <= 1)), patterns=[PATH(g0, src, x, p)]))
    cover(ip)
    res = ip.verify_call(ip.fn("drgep", "ss_dijkstra_path_length_modified"), [G, src], {})
    cover_end(ip, "a result")
    if not (isinstance(res, Ref) and res.kind == "dict"):
        e.fail("a dictionary is returned", repr(res))
        return
    hd, D = reader(res)
    y, z = e.const("y", S), e.const("z", S)
    e.prove("the source has value 1", And(hd(src), D(src) == 1))
    e.prove("every value is a product along a path", Implies(hd(y), PATH(g0, src, y, D(y))))
    e.prove("values are closed under the edges, hence bound every path", Implies(And(hd(y), edge(y, z)), And(hd(z), D(z) >= D(y) * W(y, z))))


trust("C06", "heapq: a bag of entries (push adds one, pop removes one of them); the proof does not need that the least one is removed")


# ------------------------------------------------------------------ all targets
PHAS = z3.Function("reached", I, S, S, B)          # (state, source, species): ss_dijkstra_path_length_modified
PVAL = z3.Function("largest", I, S, S, R)
KEY, KPOS, NKEY = z3.Function("reached.key", I, S, I, S), z3.Function("reached.pos", I, S, S, I), z3.Function("reached.n", I, S, I)


def search_axioms(e):
    """the contract of ss_dijkstra_path_length_modified, for every state and source"""
    t, s, x, p, k = z3.Int("t!"), z3.Const("s!", S), z3.Const("x!", S), z3.Real("p!"), z3.Int("k!")
    e.assume(z3.ForAll([t, s, x, p], Implies(PATH(t, s, x, p), And(PHAS(t, s, x), PVAL(t, s, x) >= p, p > 0, p <= 1)), patterns=[PATH(t, s, x, p)]))
    e.assume(z3.ForAll([t, s, x], Implies(PHAS(t, s, x), PATH(t, s, x, PVAL(t, s, x))), patterns=[PVAL(t, s, x)]))
    e.assume(z3.ForAll([t, s], And(PHAS(t, s, s), PVAL(t, s, s) == 1, NKEY(t, s) >= 1), patterns=[NKEY(t, s)]))
    e.assume(z3.ForAll([t, s, k], Implies(in_range(k, NKEY(t, s)), And(PHAS(t, s, KEY(t, s, k)), KPOS(t, s, KEY(t, s, k)) == k)), patterns=[KEY(t, s, k)]))
    e.assume(z3.ForAll([t, s, x], Implies(PHAS(t, s, x), And(in_range(KPOS(t, s, x), NKEY(t, s)), KEY(t, s, KPOS(t, s, x)) == x)), patterns=[KPOS(t, s, x)]))


def search_result(g, s):
    k = z3.FreshConst(I, "k")
    return alloc("dict", DictC(has=lambda x: PHAS(g, s, strt(x)), get=lambda x: PVAL(g, s, strt(x)), keys=(For(k, NKEY(g, s), (Elem(KEY(g, s, k)),)),)))


def havoc_dict(r, keys=None):
    e = core.E
    h, v = e.func("overall.has", S, B), e.func("overall", S, R)
    setc(r, DictC(has=lambda x: h(strt(x)), get=lambda x: v(strt(x)), keys=keys))


class Targets:
    def __init__(self, ip, g, nt):
        self.ip, self.g, self.nt = ip, g, nt
        self.G = z3.IntVal(0)
        ip.loop_contracts[("drgep.graph_search_drgep", ("For", 0))] = self.over_targets
        ip.loop_contracts[("drgep.graph_search_drgep", ("For", 1))] = self.over_species
        ip.contracts["drgep.ss_dijkstra_path_length_modified"] = self.search

    def search(self, ip, b):
        e = core.E
        if b["G"] is not self.graph:
            e.fail("the given graph is searched", repr(b["G"]))
        if b["cutoff"] is not None or b["weight"] != "weight":
            e.fail("the whole graph is searched, by weight", "")
        s = strt(b["source"])
        e.prove("the source is in the graph", NODE(s))
        self.source = s
        return search_result(self.G, s)

    def over_targets(self, ip, loop):
        e = core.E
        fr = loop.ctx.env[-1]
        d = [r for r in fr.c.values() if isinstance(r, Ref) and r.kind == "dict"]
        if len(d) != 1:
            raise Unsupported("the search does not keep one dictionary of results")
        self.d = d[0]
        G, g = self.G, self.g

        def inv(k, goal):
            h, v = reader(self.d)
            t = z3.FreshConst(I, "t")
            return [("every path from the targets so far is covered", sk([("t", I), ("x", S), ("p", R)], lambda t, x, p: Implies(And(in_range(t, k), PATH(G, g(t), x, p)), And(h(x), v(x) >= p)), goal)),
                    ("values are products along paths", sk([("x", S)], lambda x: Implies(h(x), exists([t], And(in_range(t, k), PATH(G, g(t), x, v(x))))), goal))]
        loops.inductive_for(ip, loop, "targets", lambda k: havoc_dict(self.d), inv)

    def over_species(self, ip, loop):
        h0, v0 = reader(self.d)
        G, s = self.G, self.source

        def inv(k, goal):
            h, v = reader(self.d)
            done = lambda x: And(PHAS(G, s, x), KPOS(G, s, x) < k)
            old = lambda x: ite(h0(x), v0(x), z3.RealVal(0))
            c = lambda x: PVAL(G, s, x)
            return [("species so far have the larger value", sk([("x", S)], lambda x: And(h(x) == Or(h0(x), done(x)), Implies(h(x), v(x) == ite(And(done(x), c(x) >= old(x)), c(x), old(x)))), goal))]
        loops.inductive_for(ip, loop, "species reached", lambda k: havoc_dict(self.d), inv)


@vc("C06", "drgep.graph_search_drgep: the largest value over all targets", functions=["drgep.graph_search_drgep"])
def all_targets(ip):
    e = core.E
    nt = e.const("n_targets", I)
    e.assume(nt >= 0)
    tg, g = strlist("targets", nt)
    k = z3.FreshConst(I, "k")
    e.assume(z3.ForAll([k], Implies(in_range(k, nt), NODE(g(k))), patterns=[g(k)]))
    search_axioms(e)
    sc = Targets(ip, g, nt)
    sc.graph = graph(ip)
    cover(ip)
    before = tg.c
    res = ip.verify_call(ip.fn("drgep", "graph_search_drgep"), [sc.graph, tg], {})
    cover_end(ip, "a result")
    h, v = reader(res)
    t, x, p = e.const("t", I), e.const("x", S), e.const("p", R)
    j = z3.FreshConst(I, "j")
    G = sc.G
    e.prove("no path from a target has a larger product", Implies(And(in_range(t, nt), PATH(G, g(t), x, p)), And(h(x), v(x) >= p)))
    e.prove("every value is the product of a path from a target", Implies(h(x), exists([j], And(in_range(j, nt), PATH(G, g(j), x, v(x))))))
    e.assume(in_range(t, nt))
    e.prove("targets have value 1", And(h(g(t)), v(g(t)) == 1))
    if tg.c is not before:
        e.fail("arguments unchanged", "")


# ------------------------------------------------------------------ all states
IHAS, IVAL = z3.Function("found", I, S, B), z3.Function("importance", I, S, R)
MF = z3.Function("matrix", I, I, I, R)


class States:
    def __init__(self, ip, n, f, nt, g, ns, targets):
        self.n, self.f, self.nt, self.g, self.ns, self.targets = n, f, nt, g, ns, targets
        self.cur = None
        ip.contracts["drgep.graph_search_drgep"] = self.search
        ip.loop_contracts[("drgep.get_importance_coeffs", ("For", 0))] = self.loop

    def search(self, ip, b):
        """graph_search_drgep: proved above"""
        e = core.E
        gr = b["graph"]
        if self.cur is None or not (isinstance(gr, Ref) and gr.kind == "ext" and "label" in gr.c):
            e.fail("one graph per state is searched", repr(gr))
            raise PathEnd()
        if not same_list(b["target_species"], self.targets):
            e.fail("paths start from the given targets", repr(b["target_species"]))
        i, j = e.const("i", I), e.const("j", I)
        n = self.n
        e.prove("the graph has a node per species", num(gr.c["n"]) == n)
        e.prove("its weights are the coefficients of the state", Implies(And(in_range(i, n), in_range(j, n)), And(real(gr.c["weight"](i, j)) == MF(self.cur, i, j), boolt(gr.c["edge"](i, j)) == (MF(self.cur, i, j) != 0))))
        e.prove("its nodes carry the names of the species", Implies(in_range(i, n), V.veq(gr.c["label"](i), self.f(i))))
        t = self.cur
        return alloc("dict", DictC(has=lambda x: IHAS(t, strt(x)), get=lambda x: IVAL(t, strt(x))))

    def loop(self, ip, loop):
        e = core.E
        fr = loop.ctx.env[-1]
        names = loops.assigned_names(loop.ctx.st)
        d = [nm for nm, r in fr.c.items() if isinstance(r, Ref) and r.kind == "dict" and nm in names]
        upd_ = [nm for nm, r in fr.c.items() if isinstance(r, Ref) and r.kind == "dict" and nm not in names and not is_int_keyed(r)]
        if len(d) == 1:
            name = d[0]
        elif not d and len(upd_) == 1:
            name = upd_[0]
        else:
            raise Unsupported("the loop does not keep one dictionary of coefficients")
        n, f, nt, g = self.n, self.f, self.nt, self.g
        pos = z3.Function("names.pos", S, I)

        def inv(k, goal):
            r = fr.c[name]
            h, v = reader(r)
            t, s = z3.FreshConst(I, "t"), z3.FreshConst(I, "s")
            if goal:
                q = r.c.keys
                if not (q and len(q) == 1 and isinstance(q[0], For) and num(q[0].n).eq(n) and len(q[0].body) == 1 and isinstance(q[0].body[0], Elem) and is_z3(q[0].body[0].v) and q[0].body[0].v.eq(f(q[0].k))):
                    e.fail("every species has one entry", repr(q)[:300])
            inn = lambda x: And(in_range(pos(x), n), f(pos(x)) == x)
            return [("every species has a value", sk([("x", S)], lambda x: And(h(x) == inn(x), Implies(h(x), v(x) >= 0)), goal)),
                    ("every path so far is covered", sk([("t", I), ("s", I), ("x", S), ("p", R)], lambda t, s, x, p: Implies(And(in_range(t, k), in_range(s, nt), inn(x), PATH(t, g(s), x, p)), v(x) >= p), goal)),
                    ("values are products along paths", sk([("x", S)], lambda x: Implies(h(x), Or(v(x) == 0, exists([t, s], And(in_range(t, k), in_range(s, nt), PATH(t, g(s), x, v(x)))))), goal))]

        def havoc(k):
            self.cur = k
            i = z3.FreshConst(I, "k")
            keys = (For(i, n, (Elem(f(i)),)),)
            r = alloc("dict", None)
            havoc_dict(r, keys)
            if d:
                setc(fr, {**fr.c, name: r})
            else:
                setc(fr.c[name], r.c)
        loops.inductive_for(ip, loop, "states", havoc, inv)


def is_int_keyed(r):
    try:
        r.c.has(z3.Const("probe!", S))
        return r.c.keys and any(isinstance(x, Elem) and core.is_num(x.v) for g in r.c.keys for x in getattr(g, "body", ()))
    except Exception:
        return True


def same_list(a, b):
    return a is b or isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind and a.c is b.c


@vc("C06", "drgep.get_importance_coeffs: the largest value over all states, for every species", functions=["drgep.get_importance_coeffs"])
def all_states(ip):
    e = core.E
    n, nt, ns = e.const("n", I), e.const("n_targets", I), e.const("n_states", I)
    e.assume(And(n >= 1, nt >= 0, ns >= 0))
    names, f = strlist("names", n, distinct=True)
    pos = z3.Function("names.pos", S, I)
    tg, g = strlist("targets", nt)
    k, i, j = z3.FreshConst(I, "k"), z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
    e.assume(z3.ForAll([k], Implies(in_range(k, nt), And(in_range(pos(g(k)), n), f(pos(g(k))) == g(k))), patterns=[g(k)]))
    body = alloc("arr", ArrC([Axis(n), Axis(n)], lambda a, b: MF(k, a, b)))
    body.born = (k,)
    mats = alloc("list", (For(k, ns, (Elem(body),)),))
    e.assume(z3.ForAll([k, i, j], And(MF(k, i, j) >= 0, MF(k, i, j) <= 1), patterns=[MF(k, i, j)]))
    # the contract of graph_search_drgep, for every state
    t, s, x, p = z3.Int("t!"), z3.Int("s!"), z3.Const("x!", S), z3.Real("p!")
    w = z3.Int("w!")
    e.assume(z3.ForAll([t, s, x, p], Implies(And(in_range(s, nt), PATH(t, g(s), x, p)), And(IHAS(t, x), IVAL(t, x) >= p, p > 0, p <= 1)), patterns=[PATH(t, g(s), x, p)]))
    e.assume(z3.ForAll([t, x], Implies(IHAS(t, x), And(IVAL(t, x) > 0, z3.Exists([w], And(in_range(w, nt), PATH(t, g(w), x, IVAL(t, x)))))), patterns=[IVAL(t, x)]))
    States(ip, n, f, nt, g, ns, tg)
    cover(ip)
    before = [(r, r.c) for r in (names, tg, mats)]
    res = ip.verify_call(ip.fn("drgep", "get_importance_coeffs"), [names, tg, mats], {})
    cover_end(ip, "a result")
    h, v = reader(res)
    x, p, t, s = e.const("x", S), e.const("p", R), e.const("t", I), e.const("s", I)
    inn = And(in_range(pos(x), n), f(pos(x)) == x)
    e.prove("every species of the model, and nothing else, has a value", h(x) == inn)
    e.assume(inn)
    t2, s2 = z3.FreshConst(I, "t"), z3.FreshConst(I, "s")
    e.prove("no path in any state has a larger product", Implies(And(in_range(t, ns), in_range(s, nt), PATH(t, g(s), x, p)), v(x) >= p))
    e.prove("a value is the product of a path in some state, or 0", Or(v(x) == 0, exists([t2, s2], And(in_range(t2, ns), in_range(s2, nt), PATH(t2, g(s2), x, v(x))))))
    for r, c in before:
        if r.c is not c:
            e.fail("arguments unchanged", repr(r))
