"""C09: the final model of a reduction."""
from .runs import run_contract

for mod in ("drg", "drgep", "pfa"):
    run_contract("C09", mod, {"error"})
for mod in ("drg", "drgep", "pfa"):
    run_contract("C09", mod, {"ends"})

from .sa import run_sa_contract

run_sa_contract("C09", {"error"})

from .driver import main_contract

main_contract("C09")
