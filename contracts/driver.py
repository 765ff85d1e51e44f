"""The driver (C15, C08, C09): parse_inputs over an arbitrary input dictionary, main with
arbitrary settings, pymars with an arbitrary command line."""
import ast
from .common import *
from pyvc import loops
from pyvc.core import ProgExc
from pyvc.interp import Ext, ext, upd, CanteraError
from pyvc.values import SetC

S = Str
KINDS = {"ign": ("parse_ignition_inputs", "InputIgnition", "autoignition-conditions", "ignition_conditions"),
         "psr": ("parse_psr_inputs", "InputPSR", "psr-conditions", "psr_conditions"),
         "flame": ("parse_flame_inputs", "InputLaminarFlame", "laminar-flame-conditions", "flame_conditions")}
METHODS = ("DRG", "DRGEP", "PFA")
FILEOK = z3.Function("model.can.be.read", S, B)
PHASEOK = z3.Function("model.has.phase", S, S, B)


class InputDict(Ext):
    """the input file: every documented key may be present or not"""
    name = "input"

    def m_get(self, r, key, dflt=None):
        if not isinstance(key, str) or key not in r.c["val"]:
            return dflt
        h, v = r.c["has"][key], r.c["val"][key]
        if isinstance(v, Ref):
            # (a list that is missing is empty)
            empty = isinstance(dflt, Ref) and dflt.kind in ("list", "dict") and core.E.entails(num(r.c["ip"].length(dflt)) == 0) or dflt == ()
            return v if empty else v if core.E.decide(h) else dflt
        if dflt is None:
            return Opt(h, v)
        return ite(h, v, dflt)

    def getitem(self, r, key):
        if key not in r.c["val"] or not core.E.decide(r.c["has"][key]):
            core.throw(KeyError, key)
        return r.c["val"][key]

    def setitem(self, r, key, v):
        if key not in r.c["val"]:
            raise Unsupported("a new key in the input")
        r.c["log"].append((key, v))
        upd(r, has={**r.c["has"], key: z3.BoolVal(True)}, val={**r.c["val"], key: v})

    def contains(self, r, key):
        return r.c["has"][key] if key in r.c["val"] else False


INPUT = InputDict()


def mixture_dicts(kind, k):
    out = {}
    for m in ("fuel", "oxidizer", "reactants"):
        out[m] = alloc("dict", C.symdict(f"{kind}:{m}", (k,)))
        out[m].born = (k,)
    return out


def in_mix(mix, x):
    return Or(*[d.c.has(x) for d in mix.values()])


def cases(ip, kind, n):
    """n arbitrary cases"""
    cls = ip.fn("sampling", KINDS[kind][1])
    k = z3.FreshConst(I, "k")
    core.E.assume(n >= 0)
    args = dict(temperature=z3.Function(kind + ":T", I, R)(k), pressure=z3.Function(kind + ":p", I, R)(k),
                equivalence_ratio=z3.Function(kind + ":phi", I, R)(k), **mixture_dicts(kind, k))
    args = {f: args.get(f, z3.Function(f"{kind}:{f}", I, S)(k)) for f in cls.fields}
    return alloc("list", (For(k, n, (Elem(ip.call(cls, [], args)),)),))


def contributes(item, x):
    """x is one of the species that an item of a loop stands for"""
    if isinstance(item, NTV):
        return in_mix({m: item.get(m) for m in ("fuel", "oxidizer", "reactants")}, x)
    if isinstance(item, Ref) and item.kind == "dict":
        return item.c.has(x)
    if core.is_str(item):
        return strt(item) == x
    return None


class Collecting:
    """loops that collect names: after k items a collection has the names it had before
    and those of the first k items (as far as x, an arbitrary name, is concerned)"""

    def __init__(self, ip, x, module, touched):
        self.ip, self.x, self.module, self.touched = ip, x, module, touched
        ip.loop_rule = self.rule

    def rule(self, ctx, seq):
        if not ctx.qual.startswith(self.module) or all(isinstance(g, Elem) for g in seq):
            return None
        st = ctx.st
        if not isinstance(st, ast.For):
            return None
        names = set()
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("append", "add", "extend", "update", "insert"):
                names.add(n.func.value.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                names.add(n.target.id)
        env = ctx.env[-1].c
        got = {n: env[n] for n in names if isinstance(env.get(n), Ref) and env[n].kind in ("list", "set")}
        if not got or len(got) != len(names):
            return None
        parts = [g for g in seq]
        if not all(isinstance(g, For) and len(g.body) == 1 and isinstance(g.body[0], Elem) and contributes(g.body[0].v, self.x) is not None for g in parts):
            return None
        return lambda ip, loop: [self.part(loop, g, got) for g in parts]

    def member(self, r):
        return boolt(self.ip.contains(r, self.x))

    def part(self, loop, g, got):
        ctx = loop.ctx
        before = {n: self.member(r) for n, r in got.items()}
        x = self.x

        def inv(k, goal):
            i = z3.FreshConst(I, "i")
            some = exists([i], And(in_range(i, k), contributes(V.inst(g, i)[0].v, x)))
            if goal and not z3.is_int_value(simp(k)):
                # the last item and those before it
                j = simp(k - 1)
                some = Or(exists([i], And(in_range(i, j), contributes(V.inst(g, i)[0].v, x))), contributes(V.inst(g, j)[0].v, x))
            return [(f"{n} holds what it held and the names of the items", self.member(r) == Or(before[n], some)) for n, r in got.items()]

        def havoc(k):
            for n, r in got.items():
                self.touched.add(r.oid)
                if r.kind == "set":
                    f = core.E.func("collected", S, B)
                    setc(r, SetC(lambda y: f(strt(y))))
                    continue
                m = core.E.const("collected.n", I)
                core.E.assume(m >= 0)
                lst, _ = strlist(core.E.const("collected", S).decl().name(), m)
                setc(r, lst.c)
        loops.inductive_for(self.ip, loops.ForLoop(ctx, (g,), loop.body), "collecting names", havoc, inv)


def parse_contract(prop):
    @vc(prop, "pymars.parse_inputs: accepts exactly the complete inputs, unchanged; retains every species of the conditions", functions=["pymars.parse_inputs"])
    def check(ip):
        e = core.E
        val = dict(model=e.const("model", S), error=e.const("error", R), method=e.const("method", S))
        val["sensitivity-analysis"] = e.const("sensitivity", B)
        val["upper-threshold"], val["min-flame-speed"] = e.const("upper", R), e.const("floor", R)
        val["sensitivity-type"], val["phase-name"] = e.const("type", S), e.const("phase", S)
        cnt = {}
        for key, nm in (("targets", "targets"), ("retained-species", "retained")):
            cnt[key] = e.const("n_" + nm, I)
            e.assume(cnt[key] >= 0)
            val[key] = strlist(nm, cnt[key])[0]
        n, given = {}, {}
        for kd, (_, _, key, _) in KINDS.items():
            n[kd] = e.const("n_" + kd, I)
            e.assume(n[kd] >= 0)
            given[kd] = val[key] = strlist("given_" + kd, n[kd])[0]
        has = {k: z3.Const("has:" + k, B) for k in val}
        for key in cnt:
            e.assume(Implies(Not(has[key]), cnt[key] == 0))
        for kd in KINDS:
            e.assume(Implies(Not(has[KINDS[kd][2]]), n[kd] == 0))
        dct = ext(INPUT, ip=ip, has=has, val=val, log=[])
        content = {r.oid: r.c for r in val.values() if isinstance(r, Ref)}
        num_ = lambda k, d: z3.If(has[k], real(val[k]), real(d))
        str_ = lambda k: z3.If(has[k], val[k], lit(""))
        model, method, phase = str_("model"), str_("method"), str_("phase-name")
        sa = And(has["sensitivity-analysis"], val["sensitivity-analysis"])
        mod = C.PHASE(ip.fs.c["mod"](model), phase)
        inm = lambda s: And(in_range(C.SPI(mod, s), C.NSP(mod)), C.SPN(mod, C.SPI(mod, s)) == s)
        okc = {kd: z3.Const("valid_" + kd, B) for kd in KINDS}
        out = {kd: cases(ip, kd, n[kd]) for kd in KINDS}
        made = {}

        def load(f, p):
            e.prove("the given model is read", strt(f) == model)
            e.prove("in the given phase", strt(p) == phase)
            if not e.decide(FILEOK(model)):
                core.throw(CanteraError, "file")
            if not e.decide(PHASEOK(model, phase)):
                core.throw(ValueError, "phase")
        ip.lib["%load"] = load

        def parser(kd):
            def f(ip_, b):
                m, conds, ph = b.values()
                e.prove("conditions are checked with the given model", strt(m) == model)
                e.prove("conditions are checked with the given phase", strt(ph) == phase)
                if not (isinstance(conds, Ref) and conds.c is given[kd].c):
                    e.prove("the given conditions are checked", And(n[kd] == 0, num(ip.length(conds)) == 0))
                made[kd] = True
                # (no conditions: nothing to reject)
                if not e.decide(Or(okc[kd], n[kd] == 0)):
                    core.throw(AssertionError, "conditions")
                return out[kd]
            return f
        for kd, (fn, _, _, _) in KINDS.items():
            ip.contracts["sampling." + fn] = parser(kd)
        ip.joins = True
        x = e.const("x", S)
        e.assume(Not(boolt(V.seq_contains(val["targets"].c, x))))
        touched = set()
        Collecting(ip, x, "pymars.", touched)
        i = z3.Int("i!")
        tgt, ret = z3.Function("targets", I, S), z3.Function("retained", I, S)
        allin = lambda f, k: z3.ForAll([i], Implies(And(i >= 0, i < k), inm(f(i))), patterns=[f(i)])
        conds = Or(*[k > 0 for k in n.values()])
        ok = And(model != lit(""), num_("error", 0) != 0, Or(method != lit(""), sa),
                 Implies(method != lit(""), And(Or(*[method == lit(m) for m in METHODS]), cnt["targets"] > 0)),
                 FILEOK(model), PHASEOK(model, phase), allin(tgt, cnt["targets"]), allin(ret, cnt["retained-species"]), conds,
                 *[Or(okc[kd], n[kd] == 0) for kd in KINDS])
        cover(ip)
        try:
            res = ip.verify_call(ip.fn("pymars", "parse_inputs"), [dct], {})
        except ProgExc as ex:
            e.prove("only incomplete or wrong inputs are rejected", Not(ok), hint=str(ex))
            return
        cover_end(ip, "inputs accepted")
        e.prove("every accepted input is complete", ok)
        if not isinstance(res, NTV):
            e.fail("the inputs are returned", repr(res))
            return
        g = res.get
        e.prove("model unchanged", strt(g("model")) == model)
        e.prove("error limit unchanged", real(g("error")) == num_("error", 0))
        e.prove("phase unchanged", strt(g("phase_name")) == phase)
        mth = g("method")
        if isinstance(mth, Opt):
            mth = z3.If(mth.cond, strt(mth.v), lit(""))
        e.prove("method unchanged", (lit("") if mth is None else strt(mth)) == method)
        e.prove("sensitivity analysis as given", boolt(ip.truth_term(g("sensitivity_analysis"))) == sa)
        st = g("sensitivity_type")
        e.prove("type of sensitivity analysis as given, or initial", strt(st) == z3.If(has["sensitivity-type"], val["sensitivity-type"], lit("initial")))
        up = optional(g("upper_threshold"))
        zero = Or(Not(has["upper-threshold"]), val["upper-threshold"] == 0)
        e.prove("upper threshold as given, or 0.1 for sensitivity analysis",
                z3.If(zero, z3.If(sa, And(up[0], up[1] == core.real(Fraction("0.1"))), Or(Not(up[0]), up[1] == 0)), And(up[0], up[1] == val["upper-threshold"])))
        fl = optional(g("min_flame_speed"))
        e.prove("minimum flame speed as given", And(fl[0] == has["min-flame-speed"], Implies(fl[0], fl[1] == val["min-flame-speed"])))
        for kd, (_, _, _, field) in KINDS.items():
            v = g(field)
            if not (isinstance(v, Ref) and v.c is out[kd].c):
                e.fail(f"{field}: those that were checked", repr(v))
            else:
                e.ok(f"{field}: those that were checked")
        same_list(ip, g("target_species"), val["targets"], tgt, cnt["targets"], "targets unchanged")
        safe = boolt(ip.contains(g("safe_species"), x))
        mixed = []
        for kd in KINDS:
            k = z3.FreshConst(I, "c")
            mixed.append(exists([k], And(in_range(k, n[kd]), in_mix(mixture_dicts(kd, k), x))))
        retained = boolt(V.seq_contains(val["retained-species"].c, x))
        e.prove("every retained species, and every species of a mixture, is retained", Implies(Or(retained, *mixed), safe))
        e.prove("no other species is retained", Implies(safe, Or(retained, *mixed)))
        if dct.c["log"]:
            e.fail("the input is unchanged", repr(dct.c["log"]))
        for r in val.values():
            if isinstance(r, Ref) and r.c is not content[r.oid]:
                e.fail("the lists of the input are unchanged", repr(r))


def optional(v):
    if v is None:
        return z3.BoolVal(False), z3.RealVal(0)
    if isinstance(v, Opt):
        return boolt(v.cond), real(v.v)
    return z3.BoolVal(True), real(v)


def same_list(ip, v, orig, f, n, what):
    e = core.E
    if isinstance(v, Ref) and v.kind == "list":
        if v.c is orig.c:
            e.ok(what)
            return
        i = e.const("i", I)
        e.prove(what, num(V.seq_len(v.c)) == n)
        if e.entails(n > 0):
            e.prove(what, Implies(in_range(i, n), strt(V.seq_get(v.c, i)) == f(i)))
        return
    e.fail(what, repr(v))


# --------------------------------------------------------------- main and pymars
class Driver:
    """arbitrary settings; the reduction steps record what they are given"""

    def __init__(self, ip):
        e = core.E
        self.ip, self.calls = ip, []
        s = self.s = {}
        s["model"], s["phase"] = e.const("model", S), e.const("phase", S)
        s["error"] = e.const("error", R)
        s["method"] = e.const("method", S)
        s["sa"] = e.const("sensitivity", B)
        s["type"] = e.const("type", S)
        s["path"], s["threads"] = e.const("path", S), e.const("threads", I)
        s["upper"], s["floor"] = (Opt(e.const(n + "?", B), e.const(n, R)) for n in ("upper", "floor"))
        self.n = {}
        for nm in ("targets", "safe", "ign", "psr", "flame"):
            self.n[nm] = e.const("n_" + nm, I)
            e.assume(self.n[nm] >= 0)
            s[nm] = strlist(nm, self.n[nm])[0]
        self.content = {nm: s[nm].c for nm in self.n}
        self.known = Or(*[s["method"] == lit(m) for m in METHODS])
        e.assume(Or(self.known, s["method"] == lit("")))
        for mod, fn, nm in (("drg", "run_drg", "DRG"), ("drgep", "run_drgep", "DRGEP"), ("pfa", "run_pfa", "PFA"), ("sensitivity_analysis", "run_sa", "SA")):
            ip.contracts[f"{mod}.{fn}"] = self.step(nm)

    def step(self, name):
        def f(ip, b):
            e = core.E
            i = len(self.calls)
            limbo = strlist(f"limbo{i}", e.const(f"n_limbo{i}", I))[0]
            e.assume(num(V.seq_len(limbo.c)) >= 0)
            r = ip.instantiate(ip.fn("reduce_model", "ReducedModel"), [], dict(model=C.solution(ip, e.const(f"result{i}", C.Mod)), filename=e.const(f"result_file{i}", S),
                               error=e.const(f"result_error{i}", R), limbo_species=limbo))
            self.calls.append((name, dict(b), r))
            return r
        return f

    def equal(self, a, b, what):
        e = core.E
        if isinstance(b, Ref):
            nm = next((k for k in self.n if self.s[k] is b), None)
            same_list(self.ip, a, b, z3.Function(nm, I, S) if nm else None, self.n.get(nm), what) if nm else (
                e.ok(what) if isinstance(a, Ref) and a.c is b.c else e.fail(what, repr(a)))
        elif isinstance(b, Opt) or a is None or isinstance(a, Opt):
            (h, x), (g, y) = optional(a), optional(b)
            e.prove(what, And(h == g, Implies(g, x == y)))
        else:
            e.prove(what, V.veq(a, b))

    def performed(self, model=None):
        """the steps that were performed are those asked for, with the given settings"""
        e, s, ip = core.E, self.s, self.ip
        model = s["model"] if model is None else model
        names = [c[0] for c in self.calls]
        first = names[0] if names and names[0] != "SA" else None
        if names not in ([], ["SA"], [first], [first, "SA"]):
            e.fail("every step is performed once, the sensitivity analysis last", repr(names))
            return
        e.prove("the given method is performed", s["method"] == lit(first or ""))
        e.prove("sensitivity analysis exactly if requested", s["sa"] == z3.BoolVal("SA" in names))
        for nm, b, res in self.calls:
            for par, key in (("error_limit", "error"), ("phase_name", "phase"), ("num_threads", "threads"), ("path", "path"), ("min_flame_speed", "floor"),
                             ("ignition_conditions", "ign"), ("psr_conditions", "psr"), ("flame_conditions", "flame")):
                self.equal(b[par], s[key], f"{nm}: {par} as given")
            if nm != "SA":
                e.prove(f"{nm}: the given model", strt(b["model_file"]) == model)
                self.equal(b["threshold_upper"], s["upper"], f"{nm}: threshold_upper as given")
                self.equal(b["species_targets"], s["targets"], f"{nm}: species_targets as given")
                x = e.const("x", S)
                e.prove(f"{nm}: every retained species", Implies(boolt(V.seq_contains(s["safe"].c, x)), Or(boolt(ip.contains(b["species_safe"], x)), boolt(V.seq_contains(s["targets"].c, x)))))
                e.prove(f"{nm}: no others retained", Implies(boolt(ip.contains(b["species_safe"], x)), Or(boolt(V.seq_contains(s["safe"].c, x)), boolt(V.seq_contains(s["targets"].c, x)))))
                continue
            x = e.const("x", S)
            e.prove("SA: protects exactly targets and retained species", boolt(ip.contains(b["species_safe"], x)) == Or(boolt(V.seq_contains(s["safe"].c, x)), boolt(V.seq_contains(s["targets"].c, x))))
            e.prove("SA: algorithm_type as given, or greedy", strt(b["algorithm_type"]) == z3.If(s["type"] == lit(""), lit("greedy"), s["type"]))
            if first:
                prev = self.calls[0][2]
                e.prove("SA: starts from the model of the method", strt(b["model_file"]) == strt(prev.get("filename")))
                e.prove("SA: starts from the error of the method", real(b["starting_error"]) == real(prev.get("error")))
                self.equal(b["species_limbo"], prev.get("limbo_species"), "SA: considers the species found by the method")
            else:
                e.prove("SA: starts from the given model", strt(b["model_file"]) == model)
                e.prove("SA: starts without error", real(b["starting_error"]) == 0)
                e.prove("SA: considers every species", num(ip.length(b["species_limbo"])) == 0)
        for nm in self.n:
            if s[nm].c is not self.content[nm]:
                e.fail("the given lists are unchanged", nm)


def main_contract(prop):
    @vc(prop, "pymars.main: the steps asked for, with the given settings; returns the last result", functions=["pymars.main"])
    def check(ip):
        e = core.E
        d = Driver(ip)
        s = d.s
        none = e.const("no_method", B)
        e.assume(none == (s["method"] == lit("")))
        cover(ip)
        try:
            res = ip.verify_call(ip.fn("pymars", "main"), [s["model"], s["error"], s["ign"]], dict(
                psr_conditions=s["psr"], flame_conditions=s["flame"], method=s["method"], target_species=s["targets"], safe_species=s["safe"], phase_name=s["phase"],
                run_sensitivity_analysis=s["sa"], upper_threshold=s["upper"], sensitivity_type=s["type"], path=s["path"], num_threads=s["threads"], min_flame_speed=s["floor"]))
        except ProgExc as ex:
            e.prove("only requests without a method, or without targets, are rejected", Or(And(d.known, d.n["targets"] == 0), And(none, Not(s["sa"]))), hint=str(ex))
            if d.calls:
                e.fail("rejected before any step", repr(d.calls))
            return
        cover_end(ip, "a result")
        e.prove("requests without a method, or without targets, are rejected", And(Or(d.known, s["sa"]), Implies(d.known, d.n["targets"] > 0)))
        d.performed()
        if not d.calls or res is not d.calls[-1][2]:
            last = d.calls[-1][2] if d.calls else None
            if isinstance(res, NTV) and isinstance(last, NTV) and all(same_val(a, b) for a, b in zip(res.vals, last.vals)):
                e.ok("the result of the last step is returned")
            else:
                e.fail("the result of the last step is returned", repr(res))
        else:
            e.ok("the result of the last step is returned")


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) or isinstance(b, Ref):
        return isinstance(a, Ref) and isinstance(b, Ref) and a.c is b.c
    return core.E.entails(V.veq(a, b))


OPTIONS = ("--input", "--path", "--num_threads", "--convert", "--model", "--thermo", "--transport", "--version")
GIVEN = {o: z3.Const("given:" + o, B) for o in OPTIONS}
TEXT = {o: z3.Const("value:" + o, S) for o in OPTIONS}
NUMBER, NUMBERED = z3.Const("value of --num_threads", I), z3.Const("value given:--num_threads", B)


class Parser(Ext):
    """argparse.ArgumentParser: what is declared is what a command line is read into"""
    name = "ArgumentParser"

    def m_add_argument(self, r, *names, **k):
        long = [n for n in names if n.startswith("--")]
        if not long or long[0] not in OPTIONS:
            raise Unsupported(f"option {names}")
        o = long[0]
        dest = k.get("dest", o[2:].replace("-", "_"))
        act, typ = k.get("action"), k.get("type")
        dflt = k.get("default")
        g = GIVEN[o]
        if act in ("store_true", "store_false"):
            v = g if act == "store_true" else Not(g)
            if "default" in k and dflt is not (act != "store_true"):
                v = z3.If(g, z3.BoolVal(act == "store_true"), boolt(dflt))
        elif act is not None:
            raise Unsupported(f"action {act}")
        elif getattr(typ, "name", None) == "int":
            v = NUMBER
            if k.get("nargs") == "?":
                c = k.get("const")
                v = z3.If(NUMBERED, v, num(c)) if c is not None else Opt(NUMBERED, v)
            v = Opt(g, v) if dflt is None else ite(g, v, dflt)
        elif typ is None or getattr(typ, "name", None) == "str":
            if k.get("nargs") is not None:
                raise Unsupported("nargs")
            v = Opt(g, TEXT[o]) if dflt is None else ite(g, TEXT[o], dflt)
        else:
            raise Unsupported("type of an option")
        upd(r, args={**r.c["args"], dest: v})

    def m_parse_args(self, r, argv=None):
        if argv is not r.c["scene"]["argv"]:
            core.E.fail("the given command line is read", repr(argv))
            raise PathEnd()
        return ext(NAMESPACE, **r.c["args"])

    def m_print_help(self, r, *a):
        pass

    m_print_usage = m_print_help

    def m_error(self, r, msg):
        core.throw(SystemExit, 2)

    def m_exit(self, r, *a):
        core.throw(SystemExit, 0)


class Namespace(Ext):
    name = "Namespace"


PARSER, NAMESPACE = Parser(), Namespace()


def pymars_contract(prop):
    @vc(prop, "pymars.pymars: settings of input file and command line reach the steps; a Chemkin model is converted first", functions=["pymars.pymars", "pymars.main"])
    def check(ip):
        e = core.E
        n = e.const("n_argv", I)
        e.assume(n >= 0)
        argv = strlist("argv", n)[0]
        scene = dict(argv=argv)
        ip.lib["%argparser"] = lambda *a, **k: ext(PARSER, args={}, scene=scene)
        d = Driver(ip)
        s = d.s
        e.assume(And(Or(d.known, s["sa"]), Implies(d.known, d.n["targets"] > 0)))
        file_model = z3.Const("model in the input", S)
        dct = ext(INPUT, ip=ip, has=dict(model=e.const("has model", B)), val=dict(model=file_model), log=[])
        has0 = dct.c["has"]["model"]
        reads, conv, parsed = [], [], []
        e.assume(s["threads"] == z3.If(GIVEN["--num_threads"], z3.If(NUMBERED, NUMBER, 0), 1))
        e.assume(s["path"] == z3.If(GIVEN["--path"], TEXT["--path"], lit("")))
        given = lambda o: And(GIVEN[o], TEXT[o] != lit(""))

        def read(p):
            reads.append(p)
            e.prove("the given input file is read", And(GIVEN["--input"], strt(p) == TEXT["--input"]))
            return dct
        ip.lib["%read"] = read
        CONVERTED = z3.Const("converted model", S)

        def convert(ip_, b):
            m, th, tr, p = b.values()
            conv.append(m)
            for a, o in ((th, "--thermo"), (tr, "--transport")):
                if a is None or isinstance(a, Opt):
                    c, v = (z3.BoolVal(False), lit("")) if a is None else (boolt(a.cond), strt(a.v))
                    e.prove(f"converted with the file of {o}", And(c == GIVEN[o], Implies(c, v == TEXT[o])))
                else:
                    e.prove(f"converted with the file of {o}", And(GIVEN[o], strt(a) == TEXT[o]))
            e.prove("converted into the given directory", strt(p) == s["path"])
            if not reads:
                e.prove("the given model is converted", And(GIVEN["--convert"], given("--model"), strt(a_of(m)) == TEXT["--model"]))
            else:
                e.prove("the model of the input is converted", strt(a_of(m)) == z3.If(has0, file_model, lit("")))
            return CONVERTED
        ip.contracts["tools.convert"] = convert

        def parse(ip_, b):
            (inp,) = b.values()
            if inp is not dct:
                e.fail("the input that was read is checked", repr(inp))
                raise PathEnd()
            parsed.append(dct.c["val"]["model"])
            return ip.instantiate(ip.fn("pymars", "ReductionInputs"), [], dict(
                model=s["model"], error=s["error"], ignition_conditions=s["ign"], psr_conditions=s["psr"], flame_conditions=s["flame"], method=s["method"], target_species=s["targets"],
                safe_species=s["safe"], sensitivity_analysis=s["sa"], upper_threshold=s["upper"], sensitivity_type=s["type"], phase_name=s["phase"], min_flame_speed=s["floor"]))
        ip.contracts["pymars.parse_inputs"] = parse
        cover(ip)
        run = And(n > 0, Not(GIVEN["--version"]), Not(GIVEN["--convert"]), given("--input"))
        try:
            ip.verify_call(ip.fn("pymars", "pymars"), [argv], {})
        except ProgExc as ex:
            if d.calls or parsed:
                e.fail("nothing is reduced if the program ends early", repr(d.calls))
            if ex.exc.cls is not SystemExit:
                e.fail("a command line ends in a reduction or an exit", str(ex))
            e.prove("an exit only without a request", Or(n == 0, GIVEN["--version"], And(GIVEN["--convert"], Not(given("--model"))), And(Not(GIVEN["--convert"]), Not(given("--input")))))
            return
        if not parsed:
            e.prove("conversion if requested", And(n > 0, GIVEN["--convert"]))
            if len(conv) != 1 or d.calls:
                e.fail("one conversion, and no reduction", repr((conv, d.calls)))
            return
        cover_end(ip, "a reduction")
        e.prove("a reduction if requested", run)
        if len(parsed) != 1 or len(reads) != 1:
            e.fail("the input is read and checked once", repr((reads, parsed)))
        dot = lambda x: strt(ip.lib["os.path"].d["splitext"].f(x)[1])
        chemkin = And(has0, file_model != lit(""), dot(file_model) != lit(".yaml"), dot(file_model) != lit(".yml"))
        e.prove("a Chemkin model is converted, any other is not", chemkin == z3.BoolVal(len(conv) == 1) if len(conv) <= 1 else z3.BoolVal(False))
        e.prove("the converted model, or that of the input, is checked", strt(parsed[0]) == (CONVERTED if conv else file_model))
        d.performed()


def a_of(m):
    return m.v if isinstance(m, Opt) else m
