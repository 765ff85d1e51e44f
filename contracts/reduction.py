"""Specifications shared by the contracts of the reduction methods: the candidate
model, its file, its metrics and its error."""
from .common import *
from pyvc import lib_nx as NX, loops

MET = z3.Function("METRIC", C.Mod, I, R)          # metrics of the model in a file, under the conditions at hand
NMET = z3.Function("NMETRICS", I)
ERRM = z3.Function("ERROR", C.Mod, R)             # error of the model against the original one
WPATH = z3.Function("WPATH", Str, Str, Str)       # file written by soln2yaml.write(_, name, path)


def has(m, x):
    return And(in_range(C.SPI(m, x), C.NSP(m)), C.SPN(m, C.SPI(m, x)) == x)


def count(m, pred):
    """number of species of m that satisfy pred"""
    k = z3.FreshConst(I, "k")
    return core.mk_sum(k, C.NSP(m), z3.If(boolt(pred(C.SPN(m, k))), z3.IntVal(1), z3.IntVal(0)))


def opaque_list(name):
    n = core.E.const(name + ".len", I)
    core.E.assume(n >= 0)
    return strlist(name, n)[0]


def same(a, b):
    """two arguments carry the same value"""
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.kind == b.kind and a.kind in ("list", "dict", "set", "arr") and a.c is b.c
    if isinstance(a, (Ref, NTV)) or isinstance(b, (Ref, NTV)):
        return False
    try:
        return V.veq(a, b)
    except Unsupported:
        return False


def names_of(m, v):
    """v is the list of the species names of m"""
    if not isinstance(v, Ref) or v.kind not in ("list", "tuple") or len(v.c) != 1 or not isinstance(v.c[0], For):
        return False
    g = v.c[0]
    return len(g.body) == 1 and isinstance(g.body[0], Elem) and is_z3(g.body[0].v) and g.body[0].v.eq(C.SPN(m, g.k)) and num(g.n).eq(C.NSP(m))


def own_file_name(s):
    t = strt(s)
    return z3.is_app(t) and t.num_args() == 1 and t.decl().name() == "fmt:reduced_{}.yaml"


class Scene:
    """a model file, conditions, settings, and the contracts of the functions that a
    reduction calls"""

    def __init__(self, ip, mod, protected=True):
        e = core.E
        self.ip = ip
        self.file, self.phase, self.path = e.const("model_file", Str), e.const("phase", Str), e.const("path", Str)
        self.threads = e.const("num_threads", I)
        self.ign, self.psr, self.flame = (opaque_list(x) for x in ("ignition", "psr", "flame"))
        self.floor = Opt(e.const("floor_given", B), e.const("floor", R))
        self.content0 = ip.fs.c["mod"](self.file)
        self.m0 = C.PHASE(self.content0, self.phase)
        e.assume(C.NSP(self.m0) >= 1)
        self.metrics = alloc("arr", ArrC([Axis(NMET())], lambda i: MET(self.m0, i)))
        self.cands = []
        self.written = ""
        self.fs0 = dict(ip.fs.c)
        ip.contracts["reduce_model.trim"] = self.trim
        ip.contracts["soln2yaml.write"] = self.write
        ip.contracts["sampling.sample_metrics"] = self.sample_metrics
        ip.contracts["sampling.calculate_error"] = self.calculate_error

    def list_of_species(self, name, m=None):
        """a list of names; those in the model are at the positions the model gives them"""
        n = core.E.const("n_" + name, I)
        core.E.assume(n >= 0)
        lst, f = strlist(name, n)
        j = lambda x: exists([k], And(in_range(k, n), f(k) == x))
        k = z3.FreshConst(I, "k")
        return lst, f, n, j

    # ------------------------------------------------- contracts of the callees
    def trim(self, ip, b):
        """trim: see C01"""
        e = core.E
        e.prove("candidates are cut from the given model file", V.veq(b["initial_model_file"], self.file))
        e.prove("candidates are cut from the given phase", V.veq(b["phase_name"], self.phase))
        excl = ip.iter_seq(b["exclusion_list"])
        m1 = e.const("candidate", C.Mod)
        ex = lambda x: boolt(ip.contains(b["exclusion_list"], x))
        x = z3.FreshConst(Str, "x")
        e.assume(z3.ForAll([x], has(m1, x) == And(has(self.m0, x), Not(ex(x)))))
        e.assume(C.NSP(m1) == count(self.m0, lambda x: Not(ex(x))))
        sol = C.solution(ip, m1)
        self.cands.append((m1, sol, ex))
        return sol

    def write(self, ip, b):
        e = core.E
        sol = b["solution"]
        self.written = b["output_filename"]
        e.prove("files are written to the given directory", V.veq(b["path"], self.path))
        p = WPATH(self.path, strt(b["output_filename"]))
        from pyvc.lib_misc import fs_write
        fs_write(ip.fs, p, mod=C.content_of(sol), other=sol)
        return p

    def settings(self, b):
        e = core.E
        for a, v in (("ignition_conditions", self.ign), ("psr_conditions", self.psr), ("flame_conditions", self.flame), ("min_flame_speed", self.floor), ("phase_name", self.phase)):
            e.prove(f"simulations use the given {a}", same(b[a], v))

    def sample_metrics(self, ip, b):
        e = core.E
        self.settings(b)
        e.prove("metrics of a candidate are never taken from saved files", Not(boolt(ip.truth_term(b["reuse_saved"]))))
        c = ip.fs.c["mod"](strt(b["model"]))
        e.prove("the evaluated file exists", ip.fs.c["has"](strt(b["model"])))
        return alloc("arr", ArrC([Axis(NMET())], lambda i: MET(c, i)), ("metrics", c))

    def calculate_error(self, ip, b):
        e = core.E
        vals = list(b.values())
        e.prove("the error is relative to the metrics of the original model", same(vals[0], self.metrics))
        t = vals[1].tag if isinstance(vals[1], Ref) else None
        if not (isinstance(t, tuple) and t[0] == "metrics"):
            e.fail("the error is that of simulated metrics", repr(vals[1]))
            return e.const("error", R)
        return ERRM(t[1])
