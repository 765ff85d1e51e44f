"""The candidate of one threshold: contracts of reduce_drg, reduce_drgep and reduce_pfa
(C05: union over the states, C07, C08, C10: its file, C26)."""
from .reduction import *
from . import lemmas as L


RCH = z3.Function("REACHED", I, R, Str, B)      # x is reached from a target in state k at a threshold (contract of trim_drg, trim_pfa: C05)
MATRIX = z3.Function("MATRIX", I, I, I, R)


def stack(m0, nm):
    """matrices of nm sampled states"""
    n = C.NSP(m0)
    return alloc("list", C.gen_objs(nm, lambda k: alloc("arr", ArrC([Axis(n), Axis(n)], lambda i, j: MATRIX(k, i, j)))))


def state_of(m):
    """k if m is the matrix of state k"""
    i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
    t = A.content(m).at(i, j)
    if is_z3(t) and z3.is_app(t) and t.decl().eq(MATRIX) and t.arg(1).eq(i) and t.arg(2).eq(j):
        return t.arg(0)
    return None


def search_contract(sc, targets):
    def contract(ip, b):
        v = list(b.values())
        k = state_of(v[0]) if len(v) == 4 and isinstance(v[0], Ref) and v[0].kind == "arr" else None
        if k is None or not same(v[2], targets) or not names_of(sc.m0, v[1]):
            return INLINE
        thr = real(v[3].v if isinstance(v[3], Opt) and core.E.entails(v[3].cond) else v[3])
        return alloc("list", (V.SetSeg(SetC(lambda x: And(has(sc.m0, strt(x)), RCH(k, thr, strt(x))))),))
    return contract


def reached_any(sc, nm, thr):
    """x is reached from a target in one of the states"""
    def pred(x):
        s = z3.FreshConst(I, "s")
        return And(has(sc.m0, x), exists([s], And(in_range(s, nm), RCH(s, thr, x))))
    return pred


def previous(ip, sc, kept):
    """the result of a previous threshold (its species include those kept now), or none"""
    e = core.E
    if E.choose():
        return None, None
    m = e.const("previous", C.Mod)
    x = z3.FreshConst(Str, "x")
    e.assume(forall([x], Implies(has(m, x), has(sc.m0, x))))
    e.assume(forall([x], Implies(And(has(sc.m0, x), kept(x)), has(m, x))))
    e.assume(C.NSP(m) == count(sc.m0, lambda x: has(m, x)))
    rm = ip.instantiate(ip.fn("reduce_model", "ReducedModel"), [], dict(model=C.solution(ip, m), filename=e.const("previous_file", Str), error=e.const("previous_error", R)))
    return rm, m


TITLES = {"exact": "the candidate lacks exactly the species below the threshold", "protected": "no candidate lacks a protected species",
          "file": "one file per candidate, only if its size is new", "limbo": "limbo species lie between the two thresholds"}


def graph_method(prop, mod, fname, aspect):
    @vc(prop, f"{mod}.{fname}: {TITLES[aspect]}", functions=[f"{mod}.{fname}"])
    def check(ip):
        e = core.E
        sc = Scene(ip, mod)
        n = C.NSP(sc.m0)
        thr = e.const("threshold", R)
        e.assume(thr > 0)
        targets, g, nt, _ = sc.list_of_species("targets")
        k = z3.FreshConst(I, "k")
        e.assume(forall([k], Implies(in_range(k, nt), has(sc.m0, g(k)))))
        safe, sf, ns, _ = sc.list_of_species("safe")
        nm = e.const("n_states", I)
        e.assume(nm >= 1)
        mats = stack(sc.m0, nm)
        upper = Opt(e.const("upper_given", B), e.const("upper", R))
        e.assume(upper.v > 0)
        is_safe = lambda x: boolt(ip.contains(safe, x))
        r = reached_any(sc, nm, thr)
        ip.contracts[f"{mod}.trim_{mod}"] = search_contract(sc, targets)
        kept = lambda x: Or(r(x), is_safe(x))
        prev, pm = previous(ip, sc, kept)
        cover(ip)
        args = [sc.file, targets, safe, thr, mats, sc.ign, sc.metrics]
        before = [(a, a.c) for a in (targets, safe, mats, sc.ign, sc.psr, sc.flame, sc.metrics)]
        res = ip.verify_call(ip.fn(mod, fname), args, dict(psr_conditions=sc.psr, flame_conditions=sc.flame, phase_name=sc.phase, previous_model=prev, threshold_upper=upper,
                                                          num_threads=sc.threads, path=sc.path, min_flame_speed=sc.floor))
        x = z3.Const("x", Str)
        e.assume(has(sc.m0, x))
        if aspect == "protected":
            # a target is reached in every state (C05)
            t = z3.Const("t!", R)
            s_ = z3.Const("s!", I)
            e.assume(Implies(boolt(ip.contains(targets, x)), z3.ForAll([s_, t], Implies(t > 0, RCH(s_, t, x)), patterns=[RCH(s_, t, x)])))
            e.assume(Implies(boolt(ip.contains(targets, x)), RCH(z3.IntVal(0), thr, x)))
        if not decide_result(ip, e, sc, res, prev, pm, kept, x, aspect, Or(boolt(ip.contains(targets, x)), is_safe(x))):
            return
        if aspect == "limbo":
            up = reached_any(sc, nm, upper.v)
            lim = boolt(ip.contains(res.get("limbo_species"), x))
            e.prove("limbo species lie between the two thresholds", lim == And(upper.cond, kept(x), Not(is_safe(x)), Not(up(x))))
        for a, c in before:
            if a.c is not c:
                e.fail("arguments unchanged", repr(a))


def same_size(e, sc, pm, kept):
    n = C.NSP(sc.m0)
    one = lambda c: z3.If(boolt(c), z3.IntVal(1), z3.IntVal(0))
    L.full_cover(e, n, lambda k: one(Not(kept(C.SPN(sc.m0, k)))), lambda k: one(has(pm, C.SPN(sc.m0, k))))


def decide_result(ip, e, sc, res, prev, pm, kept, x, aspect, protected):
    """obligations on the result; True for a new candidate"""
    if res is prev:
        cover_end(ip, "the reused candidate")
        if aspect == "exact":
            same_size(e, sc, pm, kept)
            e.prove("a reused candidate has the same species", has(pm, x) == kept(x))
        return False
    if not isinstance(res, NTV) or not isinstance(res.get("model"), Ref):
        e.fail("a reduced model is returned", repr(res))
        return False
    got = [c for c in sc.cands if c[1] is res.get("model")]
    if len(got) != 1:
        e.fail("the returned model is the candidate cut from the original model", repr(res.get("model")))
        return False
    m1, sol, ex = got[0]
    cover_end(ip, "the new candidate")
    content = C.content_of(sol)
    f = strt(res.get("filename"))
    if aspect == "exact":
        e.prove("exactly the species not kept are removed", Not(ex(x)) == kept(x))
        e.prove("the reported file holds the candidate", And(ip.fs.c["has"](f), ip.fs.c["mod"](f) == content))
        e.prove("the reported error is that of the candidate", real(res.get("error")) == ERRM(content))
    if aspect == "protected":
        e.prove("protected species are not removed", Implies(protected, Not(ex(x))))
    if aspect == "file":
        e.prove("one file is written", z3.BoolVal(sum(1 for o, p in ip.fs.c["log"] if o == "write") == 1))
        y = z3.Const("y", Str)
        hs, md, h0, md0 = ip.fs.c["has"], ip.fs.c["mod"], sc.fs0["has"], sc.fs0["mod"]
        e.prove("it holds the candidate", And(hs(f), md(f) == content))
        if not own_file_name(sc.written):
            e.fail("it is named reduced_<n>.yaml", repr(sc.written))
        e.prove("other files are untouched", Implies(y != f, And(hs(y) == h0(y), md(y) == md0(y))))
        if pm is not None:
            n = C.NSP(sc.m0)
            L.complement(e, n, lambda k: boolt(ex(C.SPN(sc.m0, k))))
            e.prove("a new candidate has another number of species than the previous one", C.NSP(m1) != C.NSP(pm))
    return True


def importance_method(prop, aspect):
    @vc(prop, f"drgep.reduce_drgep: {TITLES[aspect]}", functions=["drgep.reduce_drgep"])
    def check(ip):
        check_drgep(ip, aspect)


def check_drgep(ip, aspect):
    e = core.E
    sc = Scene(ip, "drgep")
    thr = e.const("threshold", R)
    e.assume(thr > 0)
    safe, sf, ns, _ = sc.list_of_species("safe")
    IMP = z3.Function("IMPORTANCE", Str, R)
    k = z3.FreshConst(I, "k")
    imp = alloc("dict", DictC(has=lambda x: has(sc.m0, strt(x)), get=lambda x: IMP(strt(x)), keys=(For(k, C.NSP(sc.m0), (Elem(C.SPN(sc.m0, k)),)),)))
    is_safe = lambda x: boolt(ip.contains(safe, x))
    kept = lambda x: Or(IMP(x) >= thr, is_safe(x))
    prev, pm = previous(ip, sc, kept)
    cover(ip)
    args = [sc.file, safe, thr, imp, sc.ign, sc.metrics]
    kw = dict(psr_conditions=sc.psr, flame_conditions=sc.flame, phase_name=sc.phase, previous_model=prev, num_threads=sc.threads, path=sc.path, min_flame_speed=sc.floor)
    before = [(a, a.c) for a in (safe, imp, sc.ign, sc.psr, sc.flame, sc.metrics)]
    res = ip.verify_call(ip.fn("drgep", "reduce_drgep"), args, kw)
    x = z3.Const("x", Str)
    e.assume(has(sc.m0, x))
    decide_result(ip, e, sc, res, prev, pm, kept, x, aspect, is_safe(x))
    for a, c in before:
        if a.c is not c:
            e.fail("arguments unchanged", repr(a))
