"""C08: protected species."""
from .runs import run_contract
from .candidates import graph_method, importance_method

for mod in ("drg", "drgep", "pfa"):
    run_contract("C08", mod, {"protected"})
importance_method("C08", "protected")
for mod in ("drg", "pfa"):
    graph_method("C08", mod, f"reduce_{mod}", "protected")

from .sa import run_sa_contract

run_sa_contract("C08", {"species"})

from .driver import parse_contract, main_contract

parse_contract("C08")
main_contract("C08")
