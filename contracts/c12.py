"""C12: metrics in the order of the cases, whatever the number of processes."""
from .common import *
from pyvc.values import For, SeqArr
from pyvc.interp import Ext, ext, Native
from pyvc import loops

S = Str
RES = z3.Function("case.result", I, R)             # what the worker computes for a case


def jobs_list(n):
    """simulations [sim_i, i]; the simulation is known by its position only"""
    k = z3.FreshConst(I, "k")
    SIM = z3.Function("simulation", I, S)
    item = alloc("list", (Elem(SIM(k)), Elem(k)))
    item.born = (k,)
    return alloc("list", (For(k, n, (Elem(item),)),)), SIM


@vc("C12", "sampling._run_workers: one result per case, for any number of processes", functions=["sampling._run_workers"])
def workers(ip):
    e = core.E
    n, threads = e.const("n", I), e.const("num_threads", I)
    e.assume(And(n >= 0, threads >= 1))
    sims, SIM = jobs_list(n)
    cover(ip)

    def worker(job):
        """a worker runs one case and returns its result under its number"""
        sim, idx = (x.v for x in ip.iter_seq(job))
        idx = num(idx)
        e.prove("a job is a simulation and its number", strt(sim) == SIM(idx))
        return alloc("dict", DictC(items=((ip.key(idx), RES(idx)),)))
    res = ip.verify_call(ip.fn("sampling", "_run_workers"), [sims, Native("worker", worker), threads], {})
    cover_end(ip, "a result")
    k = e.const("k", I)
    if not (isinstance(res, Ref) and res.kind == "dict"):
        e.fail("a dictionary is returned", repr(res))
        return
    h = boolt(ip.dict_has(res.c, k))
    e.prove("exactly the cases have a result", h == in_range(k, n))
    e.assume(in_range(k, n))
    e.prove("it is that of the case", real(ip.dict_get(res.c, k)) == RES(k))
    e.prove("as many results as cases", num(ip.length(res)) == n)


RES3 = z3.Function("case.results", I, I, R)         # PSR: three values per case
ROWS = z3.Function("case.state", I, I, I, R)        # sampled states: (case, row, column)


def case_value(i, width):
    """metrics of case i: one number, or an array of three"""
    return RES(i) if width == 1 else alloc_at("arr", ArrC([Axis(width)], lambda c: RES3(i, c)), i)


def alloc_at(kind, c, *terms):
    r = alloc(kind, c)
    r.born = tuple(x for t in terms for x in V.consts_of(t))
    return r


def metric_at(j, width):
    return RES(j) if width == 1 else RES3(j / width, j % width)


class Jobs:
    def __init__(self, ip, width, with_data):
        e = core.E
        self.n, self.threads = e.const("n", I), e.const("num_threads", I)
        e.assume(And(self.n >= 0, self.threads >= 1))
        self.sims, _ = jobs_list(self.n)
        self.worker = Native("worker", lambda job: e.fail("workers are run by _run_workers", ""))
        self.rows, self.cols = e.const("n_rows", I), e.const("n_columns", I)
        e.assume(And(self.rows >= 1, self.cols >= 1))
        self.width, self.with_data = width, with_data
        ip.contracts["sampling._run_workers"] = self.run

    def run(self, ip, b):
        e = core.E
        a = list(b.values())
        if a[0] is not self.sims or a[1] is not self.worker:
            e.fail("the given jobs are run by the given worker", repr(a))
        e.prove("with the given number of processes", V.veq(a[2], self.threads))
        n = self.n

        def get(i):
            m = case_value(i, self.width)
            if not self.with_data:
                return m
            return (m, alloc_at("arr", ArrC([Axis(self.rows), Axis(self.cols)], lambda r, c: ROWS(i, r, c)), i))
        # the order of completion is arbitrary
        p = e.func("finished", I, I)
        q = e.func("finished.pos", I, I)
        k = z3.Int("k!")
        e.assume(z3.ForAll([k], Implies(in_range(k, n), And(in_range(p(k), n), q(p(k)) == k)), patterns=[p(k)]))
        e.assume(z3.ForAll([k], Implies(in_range(k, n), And(in_range(q(k), n), p(q(k)) == k)), patterns=[q(k)]))
        kk = z3.FreshConst(I, "k")
        return alloc("dict", DictC(has=lambda i: in_range(num(i), n), get=lambda i: get(num(i)), keys=(For(kk, n, (Elem(p(kk)),)),)))


def metrics_are(sc, m):
    e = core.E
    a = A.arrc(m)
    if len(a.axes) != 1:
        e.fail("metrics are one list", repr(m))
        return
    e.prove("as many metrics as the cases have", num(A.count(a.axes[0])) == sc.n * sc.width)
    j = e.const("j", I)
    e.assume(in_range(j, sc.n * sc.width))
    e.prove("metrics in the order of the cases", real(a.at(j)) == metric_at(j, sc.width))


for width in (1, 3):
    @vc("C12", f"sampling._run_metric_jobs: metrics in the order of the cases ({width} per case)", functions=["sampling._run_metric_jobs"])
    def metric_jobs(ip, width=width):
        sc = Jobs(ip, width, False)
        cover(ip)
        res = ip.verify_call(ip.fn("sampling", "_run_metric_jobs"), [sc.sims, sc.worker, sc.threads], {})
        cover_end(ip, "a result")
        metrics_are(sc, res)


for width, rows in ((1, 20), (3, 3)):
    @vc("C12", f"sampling._run_sampling_jobs: metrics and states in the order of the cases ({width} and {rows} per case)", functions=["sampling._run_sampling_jobs"])
    def sampling_jobs(ip, width=width, rows=rows):
        e = core.E
        sc = Jobs(ip, width, True)
        sc.rows = rows
        cover(ip)
        res = ip.verify_call(ip.fn("sampling", "_run_sampling_jobs"), [sc.sims, sc.worker, sc.threads], {})
        cover_end(ip, "a result")
        if not (isinstance(res, tuple) and len(res) == 2):
            e.fail("metrics and states are returned", repr(res))
            return
        metrics_are(sc, res[0])
        e.assume(sc.n >= 1)
        d = A.arrc(res[1])
        if len(d.axes) != 2:
            e.fail("states are rows", repr(res[1]))
            return
        e.prove("as many states as the cases have", And(num(A.count(d.axes[0])) == sc.n * rows, num(A.count(d.axes[1])) == sc.cols))
        i, r, c = e.const("i", I), e.const("r", I), e.const("c", I)
        e.assume(And(in_range(i, sc.n), in_range(r, z3.IntVal(rows)), in_range(c, sc.cols)))
        e.prove("states in the order of the cases", real(d.at(simp(i * rows + r), c)) == ROWS(i, r, c))


from .sampling import metrics_contract, sample_contract     # noqa: E402

metrics_contract("C12", "order")
sample_contract("C12", "order")

from .workers import all_workers     # noqa: E402

all_workers("C12")
