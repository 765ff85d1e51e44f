"""C26: limbo species."""
from .runs import run_contract
from .candidates import graph_method

for mod in ("drgep", "pfa"):
    run_contract("C26", mod, {"limbo"})
graph_method("C26", "pfa", "reduce_pfa", "limbo")
