"""sample, sample_metrics and the workers (C12, C13).

KINDS: for each kind of simulation, the number n of its cases, the class of its
simulations, the workers, the saved files, metrics and states per case."""
from .common import *
from pyvc.core import ProgExc
from pyvc.values import For, SeqArr
from pyvc.interp import Ext, ext, Native
from pyvc.lib_misc import upd

S = Str
KINDS = {"ignition": ("IgnitionSimulation", "ignition", 1, 20), "psr": ("PSRSimulation", "psr", 3, 3), "flame": ("FlameSimulation", "flame", 1, 20)}
ORDER = ["ignition", "psr", "flame"]
JM = {k: z3.Function(f"{k}.metric", I, R) for k in KINDS}           # what the simulations give
JD = {k: z3.Function(f"{k}.state", I, I, R) for k in KINDS}
OUTN = {k: z3.Const(f"{k}.saved.n", I) for k in KINDS}              # what the saved files hold
OUTV = {k: z3.Function(f"{k}.saved", I, R) for k in KINDS}
DATR, DATC = ({k: z3.Const(f"{k}.saved.{w}", I) for k in KINDS} for w in ("rows", "columns"))
DATV = {k: z3.Function(f"{k}.saved.state", I, I, R) for k in KINDS}
DATOK = {k: z3.Const(f"{k}.saved.complete", B) for k in KINDS}


class Scene:
    def __init__(self, ip, sampling):
        e = core.E
        self.ip, self.sampling = ip, sampling
        self.model, self.phase, self.path = e.const("model", S), e.const("phase", S), e.const("path", S)
        self.threads = e.const("num_threads", I)
        e.assume(self.threads >= 0)
        from pyvc.lib_misc import CPU
        e.assume(CPU >= 1)
        self.floor = Opt(e.const("floor_given", B), e.const("floor", R))
        self.n, self.cases, self.case = {}, {}, {}
        for k in KINDS:
            n = e.const(f"n_{k}", I)
            e.assume(And(n >= 0, OUTN[k] >= 1, DATR[k] >= 1, DATC[k] >= 1))
            self.n[k] = n
            self.cases[k], self.case[k] = strlist(f"{k}_case", n)
        self.content0 = ip.fs.c["mod"](self.model)
        e.assume(ip.fs.c["has"](self.model))
        self.cols = 2 + C.NSP(C.PHASE(self.content0, self.phase))
        e.assume(C.NSP(C.PHASE(self.content0, self.phase)) >= 1)
        df = ip.fn("sampling", "data_files")
        self.files = {}
        for k, v in df.c.items:
            self.files[v] = tuple(k.split("_", 1))       # file name -> (data/output, kind)
        self.ran = {}
        ip.lib["%table"] = self.table
        ip.contracts["sampling._read_saved_data"] = self.saved
        ip.contracts["sampling._run_metric_jobs"] = lambda ip, b: self.jobs(b, False)
        ip.contracts["sampling._run_sampling_jobs"] = lambda ip, b: self.jobs(b, True)
        self.fs0 = dict(ip.fs.c)
        ip.joins = True

    def file(self, what, kind):
        return next(lit(f) for f, w in self.files.items() if w == (what, kind))

    def table(self, p):
        """numpy.genfromtxt of a saved file: no dimension for a single number, one for a
        single row or column, an error if the rows have different lengths"""
        e = core.E
        nm = [f for f in self.files if lit(f).eq(p)]
        if not nm:
            raise Unsupported("a file other than the saved ones is read")
        e.prove("a saved file is read only if it exists", self.ip.fs.c["has"](p))
        what, kind = self.files[nm[0]]
        self.read = getattr(self, "read", set()) | {(what, kind)}
        if what == "output":
            if e.decide(OUTN[kind] == 1):
                return alloc("arr", ArrC([], lambda: OUTV[kind](z3.IntVal(0))))
            return alloc("arr", ArrC([Axis(OUTN[kind])], lambda i: OUTV[kind](i)))
        if not e.decide(DATOK[kind]):
            core.throw(ValueError, "columns")
        r, c, v = DATR[kind], DATC[kind], DATV[kind]
        if e.decide(r == 1):
            if e.decide(c == 1):
                return alloc("arr", ArrC([], lambda: v(z3.IntVal(0), z3.IntVal(0))))
            return alloc("arr", ArrC([Axis(c)], lambda j: v(z3.IntVal(0), j)))
        if e.decide(c == 1):
            return alloc("arr", ArrC([Axis(r)], lambda i: v(i, z3.IntVal(0))))
        return alloc("arr", ArrC([Axis(r), Axis(c)], lambda i, j: v(i, j)))

    def saved(self, ip, b):
        """_read_saved_data: see below; no rows and columns if the file is not a table"""
        e = core.E
        (p,) = b.values()
        nm = [f for f in self.files if lit(f).eq(strt(p))]
        if not nm or self.files[nm[0]][0] != "data":
            raise Unsupported("a file other than the saved ones is read")
        e.prove("a saved file is read only if it exists", ip.fs.c["has"](strt(p)))
        kind = self.files[nm[0]][1]
        r, c = self.shape(kind)
        other = e.func("saved.other", I, I, R)
        return alloc("arr", ArrC([Axis(r), Axis(c)], lambda i, j: z3.If(DATC[kind] == 1, other(i, j), DATV[kind](i, j))))

    def shape(self, kind):
        """rows and columns: as saved; none if the file is not a table; one row if there
        is one column (states have three or more)"""
        r, c, ok = DATR[kind], DATC[kind], DATOK[kind]
        one = c == 1
        return z3.If(ok, z3.If(one, 1, r), 0), z3.If(ok, z3.If(one, r, c), 0)

    def jobs(self, b, with_data):
        """_run_metric_jobs, _run_sampling_jobs: see C12"""
        e, ip = core.E, self.ip
        a = list(b.values())
        sims = ip.iter_seq(a[0])
        w = a[1]
        name = getattr(w, "name", None) or getattr(getattr(w, "node", None), "name", "")
        suffix = "_sample_worker" if self.sampling else "_worker"
        kind = next((k for k in KINDS if name == KINDS[k][1] + suffix), None)
        if kind is None or with_data != self.sampling:
            e.fail("simulations are run by the worker of their kind", name)
            raise PathEnd()
        if kind in self.ran:
            e.fail("simulations of a kind are run once", kind)
        cls, _, width, rows = KINDS[kind]
        n = self.n[kind]
        e.prove("the given number of processes is used", Implies(self.threads != 0, num(a[2]) == self.threads))
        e.prove("a positive number of processes is used", num(a[2]) >= 1)
        e.prove("one simulation per case", num(V.seq_len(sims)) == n)
        k = e.const("k", I)
        snap = list(e.pc)
        e.assume(in_range(k, n))
        if e.entails(z3.BoolVal(False)):
            e.pc[:] = snap
        else:
            self.check_job(V.seq_get(sims, k), k, kind, cls)
            e.pc[:] = snap
        self.ran[kind] = True
        m = alloc("arr", ArrC([Axis(simp(n * width))], lambda i: JM[kind](i)), ("metrics", kind))
        if not with_data:
            return m
        return (m, alloc("arr", ArrC([Axis(simp(n * rows)), Axis(self.cols)], lambda i, j: JD[kind](i, j)), ("states", kind)))

    def check_job(self, job, k, kind, cls):
        e, ip = core.E, self.ip
        items = [g.v for g in ip.iter_seq(job)] if isinstance(job, (Ref, tuple)) else []
        if len(items) != 2 or not isinstance(items[0], Ref) or items[0].kind != "obj":
            e.fail("a job is a simulation and its number", repr(job))
            return
        sim, idx = items
        if sim.tag.name != cls:
            e.fail("simulations are of the kind of their cases", sim.tag.name)
        e.prove("jobs are numbered as the cases", V.veq(idx, k))
        at = lambda nm: ip.getattr(sim, nm)
        e.prove("the simulation has the number of its case", V.veq(at("idx"), k))
        e.prove("the simulation is that of the case", V.veq(at("properties"), self.case[kind](k)))
        e.prove("the given model is simulated", V.veq(at("model"), self.model))
        e.prove("the given phase is simulated", V.veq(at("phase_name"), self.phase))
        e.prove("the given directory is used", V.veq(at("path"), self.path))
        if kind == "flame":
            f = at("min_flame_speed")
            given = self.floor.cond
            if isinstance(f, Opt):
                e.prove("a minimum flame speed is set if one is given", Implies(given, f.cond))
                f = f.v
            if not (is_z3(f) or core.is_num(f)):
                e.fail("the given minimum flame speed is used", repr(f))
            else:
                e.prove("the given minimum flame speed is used", Implies(given, real(f) == real(self.floor.v)))

    # --------------------------------------------------------------- results
    def fits(self, kind):
        """the saved files fit the conditions and the model"""
        n, (_, _, width, rows) = self.n[kind], KINDS[kind]
        h = self.fs0["has"]
        out = And(h(self.file("output", kind)), OUTN[kind] == width * n)
        if not self.sampling:
            return out
        return And(out, h(self.file("data", kind)), DATOK[kind], DATR[kind] == rows * n, DATC[kind] == self.cols)

    def segment(self, a, off, count, src, what):
        e = core.E
        j = e.const("j", I)
        snap = list(e.pc)
        e.assume(in_range(j, count))
        if len(a.axes) == 1:
            e.prove(what, real(a.at(simp(off + j))) == src(j))
        else:
            c = e.const("c", I)
            e.assume(in_range(c, self.cols))
            e.prove(what, real(a.at(simp(off + j), c)) == src(j, c))
        e.pc[:] = snap

    def check_metrics(self, res, order=True):
        e = core.E
        a = A.arrc(res)
        if len(a.axes) != 1:
            e.fail("metrics are one list of numbers", repr(res))
            return
        off = z3.IntVal(0)
        for kind in ORDER:
            n, (_, _, width, _) = self.n[kind], KINDS[kind]
            src = JM[kind] if kind in self.ran else OUTV[kind]
            self.segment(a, off, width * n, src, f"metrics: the {kind} cases, in order, from one source")
            off = simp(off + width * n)
        e.prove("metrics: no others", num(A.count(a.axes[0])) == off)

    def check_states(self, res):
        e = core.E
        total = z3.IntVal(0)
        for kind in ORDER:
            total = simp(total + KINDS[kind][3] * self.n[kind])
        if e.entails(total == 0):
            return
        a = A.arrc(res)
        if len(a.axes) != 2:
            e.fail("states are rows", repr(res))
            return
        off = z3.IntVal(0)
        for kind in ORDER:
            n, (_, _, _, rows) = self.n[kind], KINDS[kind]
            src = JD[kind] if kind in self.ran else DATV[kind]
            self.segment(a, off, rows * n, src, f"states: the {kind} cases, in order, from one source")
            off = simp(off + rows * n)
        e.prove("states: no others", num(A.count(a.axes[0])) == off)

    def check_reuse(self, reuse):
        e, ip = core.E, self.ip
        h0, h1 = self.fs0["has"], ip.fs.c["has"]
        for kind in ORDER:
            n = self.n[kind]
            if kind not in self.ran:
                e.prove(f"saved {kind} results are used only when they fit", Implies(n > 0, And(reuse, self.fits(kind))))
            elif self.sampling:
                for what in ("data", "output"):
                    f = self.file(what, kind)
                    v = ip.fs.c["other"](f)
                    t = v.tag if isinstance(v, Ref) else None
                    good = v is not None and (what == "data" and self.is_states(v, kind) or what == "output" and self.is_metrics(v, kind))
                    if not good:
                        e.fail(f"new {kind} results replace the saved {what} file", repr(v))
                    e.prove("new results are saved", h1(f))
        y = z3.Const("y", S)
        own = [self.file(w, k) for k in self.ran for w in ("data", "output")] if self.sampling else []
        e.prove("no other files change", Implies(And(*[y != f for f in own]), And(h1(y) == h0(y), ip.fs.c["mod"](y) == self.fs0["mod"](y))))
        if any(p not in own and not any(p.eq(f) for f in own) for o, p in ip.fs.c["log"]):
            e.fail("only the saved files of the simulations that ran are written", repr(ip.fs.c["log"]))

    def is_metrics(self, v, kind):
        a = A.arrc(v)
        i = z3.Int("fi")
        return len(a.axes) == 1 and core.E.entails(And(num(A.count(a.axes[0])) == self.n[kind] * KINDS[kind][2], real(a.at(i)) == JM[kind](i)))

    def is_states(self, v, kind):
        a = A.arrc(v)
        i, j = z3.Ints("fi fj")
        return len(a.axes) == 2 and core.E.entails(And(num(A.count(a.axes[0])) == self.n[kind] * KINDS[kind][3], real(a.at(i, j)) == JD[kind](i, j)))


def metrics_contract(prop, aspect):
    @vc(prop, f"sampling.sample_metrics: {'saved values only when they fit' if aspect == 'reuse' else 'every case once, in order'}", functions=["sampling.sample_metrics"])
    def check(ip):
        e = core.E
        sc = Scene(ip, False)
        reuse = e.const("reuse_saved", B)
        cover(ip)
        before = [(x, x.c) for x in sc.cases.values()]
        res = ip.verify_call(ip.fn("sampling", "sample_metrics"), [sc.model, sc.cases["ignition"]],
                             dict(psr_conditions=sc.cases["psr"], flame_conditions=sc.cases["flame"], phase_name=sc.phase, num_threads=sc.threads, path=sc.path, reuse_saved=reuse, min_flame_speed=sc.floor))
        cover_end(ip, "a result")
        if len(sc.ran) == 3:
            cover_end(ip, "all kinds are simulated")
        if aspect == "reuse":
            sc.check_reuse(reuse)
        sc.check_metrics(res)
        for x, c in before:
            if x.c is not c:
                e.fail("arguments unchanged", repr(x))


def sample_contract(prop, aspect):
    @vc(prop, f"sampling.sample: {'saved values only when they fit' if aspect == 'reuse' else 'every case once, in order'}", functions=["sampling.sample"])
    def check(ip):
        e = core.E
        sc = Scene(ip, True)
        cover(ip)
        before = [(x, x.c) for x in sc.cases.values()]
        res = ip.verify_call(ip.fn("sampling", "sample"), [sc.model, sc.cases["ignition"]],
                             dict(psr_conditions=sc.cases["psr"], flame_conditions=sc.cases["flame"], phase_name=sc.phase, num_threads=sc.threads, path=sc.path, min_flame_speed=sc.floor))
        cover_end(ip, "a result")
        if not (isinstance(res, tuple) and len(res) == 2):
            e.fail("metrics and states are returned", repr(res))
            return
        if aspect == "reuse":
            sc.check_reuse(True)
            sc.check_states(res[1])
        sc.check_metrics(res[0])
        for x, c in before:
            if x.c is not c:
                e.fail("arguments unchanged", repr(x))


def read_contract(prop):
    @vc(prop, "sampling._read_saved_data: the saved table, with rows and columns", functions=["sampling._read_saved_data"])
    def check(ip):
        e = core.E
        sc = Scene(ip, True)
        del ip.contracts["sampling._read_saved_data"]
        kind = ORDER[0] if e.decide(e.const("ignition", B)) else ORDER[1] if e.decide(e.const("psr", B)) else ORDER[2]
        f = sc.file("data", kind)
        e.assume(sc.fs0["has"](f))
        cover(ip)
        res = ip.verify_call(ip.fn("sampling", "_read_saved_data"), [f], {})
        cover_end(ip, "a result")
        a = A.arrc(res)
        if len(a.axes) != 2:
            e.fail("two dimensions", repr(res))
            return
        r, c = (num(A.count(x)) for x in a.axes)
        e.prove("the saved rows and columns; none if the file is not a table", And(*[x == y for x, y in zip((r, c), sc.shape(kind))]))
        e.assume(DATC[kind] != 1)
        i, j = e.const("i", I), e.const("j", I)
        e.assume(And(in_range(i, r), in_range(j, c)))
        if not e.entails(z3.BoolVal(False)):
            e.prove("the saved values", real(a.at(i, j)) == DATV[kind](i, j))


def stored_contract(prop):
    @vc(prop, "sampling.read_metrics: the saved values of the kinds in use, in order", functions=["sampling.read_metrics"])
    def check(ip):
        e = core.E
        sc = Scene(ip, True)
        cover(ip)
        res, err = None, None
        try:
            res = ip.verify_call(ip.fn("sampling", "read_metrics"), [sc.cases["ignition"]], dict(psr_conditions=sc.cases["psr"], flame_conditions=sc.cases["flame"]))
        except ProgExc as ex:
            err = ex
        there = And(*[Implies(sc.n[k] > 0, sc.fs0["has"](sc.file("output", k))) for k in ORDER])
        if err is not None:
            e.prove("an error only if a saved file is missing", Not(there))
            return
        cover_end(ip, "a result")
        e.prove("missing files are reported", there)
        a = A.arrc(res)
        off = z3.IntVal(0)
        for k in ORDER:
            c = z3.If(sc.n[k] > 0, OUTN[k], 0)
            sc.segment(a, off, c, OUTV[k], f"the saved {k} values, in order")
            off = simp(off + c)
        e.prove("no others", num(A.count(a.axes[0])) == off)
