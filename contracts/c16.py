"""C16: ignition delay."""
from .ignition import calculate_contract, run_contract, setup_contract

setup_contract("C16")
calculate_contract("C16")
run_contract("C16")
