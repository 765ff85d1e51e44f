"""C01: trimming."""
from .common import *

REAC, PROD, EFF = ("REAC", "PROD", "EFF")


def sdict(base, m, k):
    return C.symdict(base, (m, k))


def leaves(seq, c=None):
    """(condition, element or None) of the alternatives of a sequence body"""
    c = z3.BoolVal(True) if c is None else c
    if len(seq) == 0:
        yield c, None
        return
    if len(seq) != 1:
        raise Unsupported("several elements per item")
    g = seq[0]
    if isinstance(g, IfS):
        yield from leaves(g.a, And(c, g.c))
        yield from leaves(g.b, And(c, Not(g.c)))
    elif isinstance(g, Elem):
        yield c, g.v
    else:
        raise Unsupported("nested sequence")


def per_item(e, name, seq, n, on_keep, on_drop):
    """seq holds at most one element per original item 0..n-1, in their order"""
    if not (len(seq) == 1 and isinstance(seq[0], For)):
        raise Unsupported(f"{name} are not built from the original ones in one pass")
    e.prove(f"{name}: every original one is considered", num(seq[0].n) == n)
    k = e.const("k", I)
    e.assume(in_range(k, n))
    some = []
    for c, v in leaves(V.inst(seq[0], k)):
        if v is None:
            on_drop(k, c)
        else:
            some.append(c)
            on_keep(k, c, v)
    return k


@vc("C01", "reduce_model.trim: exactly the other species and the reactions without eliminated participants", functions=["reduce_model.trim"])
def trim_contract(ip):
    e = core.E
    file, phase, new = e.const("model_file", Str), e.const("phase", Str), e.const("new_file", Str)
    n = e.const("n_excluded", I)
    e.assume(n >= 0)
    ex, f = strlist("excluded", n)
    out = lambda x: boolt(ip.contains(ex, x))
    m = C.PHASE(ip.fs.c["mod"](file), phase)
    kk, x = z3.Int("k!"), z3.Const("x!", Str)
    # participants of reactions are species of the model
    in_m = lambda y: And(in_range(C.SPI(m, y), C.NSP(m)), C.SPN(m, C.SPI(m, y)) == y)
    for base in (REAC, PROD, EFF):
        key, cnt = C.F(base + ".key", C.Mod, I, I, Str), C.F(base + ".n", C.Mod, I, I)
        i = z3.Int("i!")
        e.assume(z3.ForAll([kk, i], Implies(in_range(i, cnt(m, kk)), in_m(key(m, kk, i))), patterns=[key(m, kk, i)]))
    cover(ip)
    res = ip.verify_call(ip.fn("reduce_model", "trim"), [file, ex, new], dict(phase_name=phase))
    cover_end(ip, "a model is returned")

    # ---- species
    def sp_keep(k, c, v):
        if not (isinstance(v, Ref) and v.tag is C.SPECIES):
            return e.fail("species are taken from the original model", repr(v))
        e.prove("species carry over unchanged, in their order", Implies(c, And(v.c["key"][0] == m, v.c["key"][1] == k)))
        e.prove("no eliminated species is kept", Implies(c, Not(out(C.SPN(m, k)))))

    def sp_drop(k, c):
        e.prove("every other species is kept", Implies(c, out(C.SPN(m, k))))
    per_item(e, "species", res.c["sp"], C.NSP(m), sp_keep, sp_drop)

    # ---- reactions
    def involves(base, k):
        d = sdict(base, m, k)
        j = z3.FreshConst(I, "j")
        g = d.keys[0]
        nm = V.inst(g, j)[0].v
        return exists([j], And(in_range(j, g.n), out(nm)))

    def sole_third_body(k):
        d = sdict(EFF, m, k)
        g = d.keys[0]
        return And(C.HASTB(m, k), C.DEFEFF(m, k) == 0, num(g.n) == 1, out(V.inst(g, z3.IntVal(0))[0].v))

    def gone(k):
        return Or(sole_third_body(k), involves(REAC, k), involves(PROD, k))

    def rx_keep(k, c, v):
        if not (isinstance(v, Ref) and v.tag is C.REACTION):
            return e.fail("reactions are taken from the original model", repr(v))
        e.prove("reactions carry over with their rates, in their order", Implies(c, And(v.c["key"][0] == m, v.c["key"][1] == k, z3.BoolVal("rate" not in v.c and "dup" not in v.c))))
        e.prove("no reaction of an eliminated species is kept", Implies(c, Not(gone(k))))
        eff = v.c["tb"].c["eff"].c
        d = sdict(EFF, m, k)
        y = e.const("y", Str)
        has = boolt(ip.dict_has(eff, y))
        tb = C.HASTB(m, k)
        e.prove("efficiencies of eliminated species, and only those, disappear", Implies(And(c, tb), has == And(d.has(y), Not(out(y)))))
        got = eff.get(y) if not eff.concrete else None
        if got is not None:
            e.prove("other efficiencies keep their value", Implies(And(c, tb, has), real(got) == real(d.get(y))))
        elif eff.items:
            e.fail("other efficiencies keep their value", repr(eff.items))
        # what a file of the model holds: without efficiencies the original data of the reaction
        ne = ip.dict_len(eff) if hasattr(ip, "dict_len") else V.seq_len(eff.keys) if eff.keys is not None else len(eff.items)
        j = z3.FreshConst(I, "j")
        g = d.keys[0]
        any_out = exists([j], And(in_range(j, g.n), out(V.inst(g, j)[0].v)))
        e.prove("eliminated efficiencies disappear from files", Implies(And(c, tb, num(ne) == 0), Or(Not(v.c["user"]), Not(any_out))))
        e.prove("the default efficiency stays in files", Implies(And(c, tb), real(v.c["userdef"]) == C.DEFEFF(m, k)))

    def rx_drop(k, c):
        e.prove("every other reaction is kept", Implies(c, gone(k)))
    per_item(e, "reactions", res.c["rx"], C.NRX(m), rx_keep, rx_drop)

    # ---- the rest
    e.prove("temperature and pressure carry over", And(real(res.c["T"]) == C.T0(m), real(res.c["P"]) == C.P0(m)))
    e.prove("the transport model carries over", V.veq(res.c["transport"], C.TRANSP(m)))
    e.prove("the given phase name carries over", Implies(phase != lit(""), V.veq(res.c["name"], phase)))
    e.prove("the result is an ideal gas with bulk kinetics", z3.BoolVal(res.c["thermo"] == "ideal-gas" and res.c["kinetics"] in ("bulk", "gas")))
