"""networkx (assumed contracts): graphs of named nodes with weighted edges."""
import z3
from . import core, values as V, arrays as A
from .core import (E, Ref, Unsupported, throw, I, R, B, Str, And, Or, Not, Implies, ite, boolt, num, real, strt, is_z3, in_range, forall, exists, simp)
from .values import Elem, For, DictC, SetC, alloc, setc
from .interp import Native, LibMod, Ext, ext, upd, kterm
from .lib import native

# REACH(adjacency, n, source): positions reachable from source (reflexive, transitive)
REACH = z3.Function("REACH", z3.ArraySort(I, I, B), I, I, I, B)


class DiGraph(Ext):
    """content: n nodes at positions 0..n-1, weight(i, j) (edge iff weight != 0),
    name(i) node label, pos(label) its position"""
    name = "DiGraph"

    def g_nodes(self, r):
        return self.node_list(r)

    def node_list(self, r):
        k = z3.FreshConst(I, "k")
        return alloc("list", (For(k, r.c["n"], (Elem(r.c["label"](k)),)),))

    def iter(self, r):
        return self.node_list(r).c

    def adj(self, r):
        i, j = z3.FreshConst(I, "!gi"), z3.FreshConst(I, "!gj")
        n = num(r.c["n"])
        return core.lam([i, j], simp(And(in_range(i, n), in_range(j, n), boolt(r.c["edge"](i, j)))))

    def hasnode(self, r, v):
        if r.c["pos"] is None:
            p = num(v)
            return in_range(p, r.c["n"]), p
        p = r.c["pos"](strt(v))
        return And(in_range(p, r.c["n"]), boolt(V.veq(r.c["label"](p), v))), p

    def contains(self, r, v):
        return self.hasnode(r, v)[0]


DIGRAPH = DiGraph()


def make(ip, m):
    d = {}
    nx = LibMod("networkx", d)
    m["networkx"] = nx

    @native(d, "DiGraph")
    def digraph(a=None):
        if a is None:
            raise Unsupported("empty graph")
        c = A.content(a)
        if len(c.axes) != 2:
            raise Unsupported("graph of a non-matrix")
        n = c.axes[0].n
        return ext(DIGRAPH, n=n, edge=lambda i, j: real(c.at(i, j)) != 0, weight=lambda i, j: real(c.at(i, j)),
                   label=lambda i: i, pos=None)
    d["from_numpy_array"] = Native("from_numpy_array", lambda a, create_using=None: digraph(a))

    @native(d)
    def relabel_nodes(g, mapping, copy=True):
        if g.c["pos"] is not None:
            raise Unsupported("relabelling twice")
        dc = mapping.c
        new = dict(g.c)
        k = z3.FreshConst(I, "k")
        lab = lambda i: ip_get(ip, dc, i)
        t = lab(k)
        # the labels must be different names: position by inverse function
        from .loops import DISTINCT
        if is_z3(t) and t.decl().name() in DISTINCT and t.arg(t.num_args() - 1).eq(k):
            inv = V.INVERSE[t.decl().name()]
            rest = [t.arg(i) for i in range(t.num_args() - 1)]
            new["label"], new["pos"] = lab, lambda s: inv(*rest, s)
        else:
            raise Unsupported("relabelling by a mapping that is not one-to-one")
        if copy:
            return ext(DIGRAPH, **new)
        setc(g, new)
        return g

    @native(d)
    def dfs_preorder_nodes(g, source=None, depth_limit=None):
        if depth_limit is not None or source is None:
            raise Unsupported("depth-limited search")
        ok, p = DIGRAPH.hasnode(g, source)
        if not E.decide(ok):
            throw(KeyError, source)
        # every reachable node exactly once, in some order
        n = num(g.c["n"])
        adj = DIGRAPH.adj(g)
        c = dict(g.c)
        def pred(x):
            q = c["pos"](x) if c["pos"] is not None else x
            return And(in_range(q, n), boolt(V.veq(c["label"](q), x)), REACH(adj, n, p, q))
        s = SetC(pred)
        return alloc("list", (V.SetSeg(s),))
    for n_ in ("bfs_tree", "dfs_postorder_nodes"):
        d[n_] = d["dfs_preorder_nodes"]

    @native(d)
    def descendants(g, source):
        ok, p = DIGRAPH.hasnode(g, source)
        if not E.decide(ok):
            throw(KeyError, source)
        n = num(g.c["n"])
        adj = DIGRAPH.adj(g)
        c = dict(g.c)
        def pred(x):
            q = c["pos"](x) if c["pos"] is not None else x
            return And(in_range(q, n), boolt(V.veq(c["label"](q), x)), REACH(adj, n, p, q), q != p)
        return alloc("set", SetC(pred))


def ip_get(ip, dc, i):
    if dc.concrete:
        raise Unsupported("relabelling by a literal mapping")
    return dc.get(kterm(i))
