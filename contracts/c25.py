"""C25: sensitivity analysis."""
from .sa import evaluate_contract, run_sa_contract

evaluate_contract("C25")
run_sa_contract("C25", {"steps"})
run_sa_contract("C25", {"species"})
