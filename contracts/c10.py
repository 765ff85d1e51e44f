"""C10: the files of a reduction."""
from .runs import run_contract
from .candidates import graph_method, importance_method
from . import lemmas as L

for mod in ("drg", "drgep", "pfa"):
    run_contract("C10", mod, {"files"})
L.prove_complement("C10")
importance_method("C10", "file")
for mod in ("drg", "pfa"):
    graph_method("C10", mod, f"reduce_{mod}", "file")

from .sa import run_sa_contract

run_sa_contract("C10", {"files"})

from .common import *


@vc("C10", "soln2yaml.write: the named file is replaced completely, no other is touched", functions=["soln2yaml.write"])
def write_contract(ip):
    e = core.E
    m, path, name = e.const("model", C.Mod), e.const("path", Str), e.const("output_filename", Str)
    s = C.solution(ip, m)
    own = s.c["name"]
    h0, md0 = ip.fs.c["has"], ip.fs.c["mod"]
    cover(ip)
    res = ip.verify_call(ip.fn("soln2yaml", "write"), [s], dict(output_filename=name, path=path))
    cover_end(ip, "a file is written")
    h1, md1 = ip.fs.c["has"], ip.fs.c["mod"]
    f = strt(res)
    n = ite(name != lit(""), name, strt(V.mk_str((Elem(V.Fmt(own)), Elem(".yaml")))))
    e.prove("the file is named as requested, in the given directory", f == LM.JOIN(path, n))
    e.prove("the file holds the model", And(h1(f), md1(f) == C.content_of(s)))
    y = e.const("y", Str)
    e.prove("no other file is touched", Implies(y != f, And(h1(y) == h0(y), md1(y) == md0(y))))
