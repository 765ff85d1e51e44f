from .common import *
from pyvc import lib as L, loops

KIND_V, KIND_P = "constant volume", "constant pressure"


def model_names(ip, e):
    """the species names of the phase, as the parsers see them"""
    m = e.const("modelfile", Str)
    ph = e.const("phase", Str)
    mod = C.PHASE(ip.fs.c["mod"](m), ph)
    n = C.NSP(mod)
    inm = lambda s: And(in_range(C.SPI(mod, s), n), C.SPN(mod, C.SPI(mod, s)) == s)
    return m, ph, inm


def case_dict(keys, k, generic):
    """a condition: dictionary in which every documented key may be present or not;
    has_<key>(k) says whether it is"""
    sorts = {"kind": Str, "composition-type": Str, "max-steps": I}
    comp = ("fuel", "oxidizer", "reactants")
    has, val = {}, {}
    for key in keys:
        has[key] = z3.Function("has:" + key, I, B)(k)
        if key in comp:
            val[key] = alloc("dict", C.symdict("in:" + key, (k,)))
            val[key].born = (k,)
        else:
            val[key] = z3.Function("in:" + key, I, sorts.get(key, R))(k)
    return has, val


class CaseDict(IP.Ext):
    """a condition of the input file"""
    name = "condition"

    def m_get(self, r, key, dflt=None):
        if key not in r.c["val"]:
            return dflt
        if E.decide(r.c["has"][key]):
            return r.c["val"][key]
        return dflt

    def getitem(self, r, key):
        if key not in r.c["val"] or not E.decide(r.c["has"][key]):
            core.throw(KeyError, key)
        return r.c["val"][key]

    def contains(self, r, key):
        return r.c["has"][key] if key in r.c["val"] else False


CASE = CaseDict()
COMMON = ["temperature", "pressure", "equivalence-ratio", "fuel", "oxidizer", "reactants", "composition-type"]


def parser_vc(fname, cls, extra, defaults, required):
    def check(ip):
        e = core.E
        m, ph, inm = model_names(ip, e)
        keys = COMMON + list(extra)
        n = e.const("n_conditions", I)
        e.assume(n >= 0)

        def mk(k):
            has, val = case_dict(keys, k, True)
            return IP.ext(CASE, has=has, val=val)
        seq = C.gen_objs(n, mk)
        lst = alloc("list", seq)
        c0 = lst.c
        cover(ip)

        def find(v):
            if isinstance(v, Ref) and v.kind == "ext" and v.c.get("has") is not None:
                return v
            if isinstance(v, tuple):
                for x in v:
                    r = find(x)
                    if r is not None:
                        return r
            return None

        def spec(k, case):
            has, val = case.c["has"], case.c["val"]
            g = lambda key, d: ite(has[key], val[key], d)
            num_ = lambda key, d: real(z3.If(has[key], real(val[key]), real(d)))
            T, P, phi = num_("temperature", 0), num_("pressure", 0), num_("equivalence-ratio", 0)
            ctype = g("composition-type", "mole")
            N = {key: And(has[key], z3.Function(f"in:{key}.n", I, I)(k) > 0) for key in ("fuel", "oxidizer", "reactants")}
            x = z3.FreshConst(Str, "x")

            def good(key):
                d = val[key].c
                return forall([x], Implies(d.has(x), And(real(d.get(x)) > 0, inm(x))))
            way1 = Or(phi != 0, N["fuel"], N["oxidizer"])
            ok = [T > 0, P > 0, Or(ctype == lit("mole"), ctype == lit("mass")), Not(And(ctype == lit("mass"), phi != 0)),
                  way1 != N["reactants"],
                  Implies(way1, And(phi > 0, N["fuel"], N["oxidizer"], good("fuel"), good("oxidizer"))),
                  Implies(N["reactants"], good("reactants"))]
            if "kind" in extra:
                kind = g("kind", "")
                ok.append(Or(kind == lit(KIND_V), kind == lit(KIND_P)))
            if "width" in extra:
                ok.append(num_("width", Fraction("0.1")) > 0)
            return And(*ok), T, P, phi, ctype, N

        def on_exc(k, item, ex):
            ok = spec(k, find(item[0].v))[0]
            e.prove("only ill-formed conditions are rejected", Not(ok), hint=str(ex))

        def on_item(k, item, got):
            case = find(item[0].v)
            has, val = case.c["has"], case.c["val"]
            ok, T, P, phi, ctype, N = spec(k, case)
            e.prove("every accepted condition is well-formed", ok)
            rs = [v for v in got.values() if isinstance(v, NTV)]
            if len(got) != 1 or not rs:
                e.fail("one result per condition", repr(got)[:300])
                return
            state["name"] = next(iter(got))
            names.add(state["name"])
            r = rs[0]
            e.ok("one result per condition") if r.cls is ip.fn("sampling", cls) else e.fail("result type", r.cls.name)
            e.prove("temperature unchanged", real(r.get("temperature")) == T)
            e.prove("pressure unchanged", real(r.get("pressure")) == P)
            e.prove("equivalence ratio unchanged", real(r.get("equivalence_ratio")) == phi)
            e.prove("composition type unchanged", strt(r.get("composition_type")) == ctype)
            for key in ("fuel", "oxidizer", "reactants"):
                g2 = r.get(key)
                if isinstance(g2, Ref) and g2 is val[key]:
                    e.prove(f"{key}: the given mixture", has[key])
                elif isinstance(g2, Ref) and g2.kind in ("list", "dict") and ip.length(g2) == 0:
                    e.prove(f"{key}: empty when not given", Not(N[key]))
                else:
                    e.fail(f"{key} unchanged", repr(g2))
            for key, (field, d) in defaults.items():
                want = ite(has[key], val[key], d)
                e.prove(f"{field}: given value or documented default", V.veq(r.get(field), want))

        state, names = {}, NAMES.setdefault(fname, set())
        opaque = lambda nm, j: IP.ext(RESULT, name=nm, index=j)

        def rule(ctx, s):
            if ctx.qual != "sampling." + fname and not ctx.qual.endswith(fname) or len(s) != 1 or not isinstance(s[0], For):
                return None
            if not num(s[0].n).eq(n) or len(s[0].body) != 1 or not isinstance(s[0].body[0], Elem) or find(s[0].body[0].v) is None:
                return None
            return lambda ip_, loop: loops.each_item(ip_, loop, n, s[0], on_item, on_exc, opaque)
        ip.loop_rule = rule
        try:
            res = ip.verify_call(ip.fn("sampling", fname), [m, lst, ph], {})
        except ProgExc as ex:
            e.fail("no rejection outside the treatment of a condition", str(ex))
            return
        s = res.c if isinstance(res, Ref) else ()
        if len(s) != 1 or not isinstance(s[0], For) or len(s[0].body) != 1 or not isinstance(s[0].body[0], Elem):
            e.fail("the list of results is returned", repr(s)[:300])
            return
        v = s[0].body[0].v
        if not (isinstance(v, Ref) and v.kind == "ext" and v.c.get("name") in names):
            e.fail("the list of results is returned", repr(v)[:300])
            return
        e.prove("one result per condition, in order", And(num(s[0].n) == n, num(v.c["index"]) == s[0].k))
        if lst.c is not c0:
            e.fail("list of conditions unchanged", "")
    return check


NAMES = {}


class ResultOf(IP.Ext):
    """the result of an earlier condition: nothing is known about it"""
    name = "result of another condition"


RESULT = ResultOf()


for f, cls, extra, dfl in (
        ("parse_ignition_inputs", "InputIgnition", ["kind", "end-time", "max-steps"],
         {"kind": ("kind", ""), "end-time": ("end_time", 0), "max-steps": ("max_steps", 10000)}),
        ("parse_psr_inputs", "InputPSR", [], {}),
        ("parse_flame_inputs", "InputLaminarFlame", ["width"], {"width": ("width", Fraction("0.1"))})):
    vc("C14", f"sampling.{f}: accepts exactly the well-formed conditions, unchanged", functions=[f"sampling.{f}"])(parser_vc(f, cls, extra, dfl, None))
