"""C13: saved results are used only when they fit."""
from .sampling import metrics_contract, sample_contract, read_contract, stored_contract

read_contract("C13")
stored_contract("C13")
metrics_contract("C13", "reuse")
sample_contract("C13", "reuse")
