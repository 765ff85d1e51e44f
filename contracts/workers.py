"""The workers: each runs its case from start to end and returns the results under
the number of the case."""
from .common import *
from pyvc.interp import Ext, ext

S = Str
MET = z3.Const("case.metric", R)
DAT = z3.Const("case.data", S)


class Sim(Ext):
    """a simulation; its methods have to be called in order, each at most once"""
    name = "simulation"

    def step(self, r, name, allowed):
        if r.c["state"] not in allowed:
            core.E.fail(f"{name} is called in the order of a case", f"after {r.c['log']}")
            raise PathEnd()
        from pyvc.interp import upd
        upd(r, state=name, log=r.c["log"] + (name,))

    def m_setup_case(self, r):
        self.step(r, "setup_case", ("new",))

    def m_run_case(self, r, *a, **k):
        self.step(r, "run_case", ("setup_case",) if r.c["stored"] else ())

    def m_process_results(self, r, *a, **k):
        self.step(r, "process_results", ("run_case",) if r.c["stored"] else ("setup_case",))
        return (MET, DAT)

    def m_calculate(self, r):
        self.step(r, "calculate", ("setup_case",))
        return MET

    def m_clean(self, r):
        self.step(r, "clean", ("process_results",))


SIM = Sim()


def worker_contract(prop, name, sampling, stored):
    @vc(prop, f"sampling.{name}: the case is run, and its results returned under its number", functions=[f"sampling.{name}"])
    def check(ip):
        e = core.E
        idx = e.const("idx", I)
        e.assume(idx >= 0)
        sim = ext(SIM, state="new", log=(), stored=stored)
        job = alloc("list", (Elem(sim), Elem(idx)))
        cover(ip)
        res = ip.verify_call(ip.fn("sampling", name), [job], {})
        cover_end(ip, "a result")
        if not (isinstance(res, Ref) and res.kind == "dict"):
            e.fail("a dictionary is returned", repr(res))
            return
        k = e.const("k", I)
        e.prove("one entry: that of the case", boolt(ip.dict_has(res.c, k)) == (k == idx))
        v = ip.dict_get(res.c, idx)
        if sampling:
            if not (isinstance(v, tuple) and len(v) == 2):
                e.fail("the metric and the states", repr(v))
            else:
                e.prove("the metric of the case", V.veq(v[0], MET))
                e.prove("the states of the case", V.veq(v[1], DAT))
        else:
            e.prove("the metric of the case", V.veq(v, MET))
        if stored and sampling and sim.c["state"] != "clean":
            e.fail("the stored time history is removed", repr(sim.c["log"]))


def all_workers(prop):
    for kind in ("ignition", "psr", "flame"):
        worker_contract(prop, f"{kind}_worker", False, kind == "ignition")
        worker_contract(prop, f"{kind}_sample_worker", True, kind == "ignition")
