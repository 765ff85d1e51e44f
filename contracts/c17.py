"""C17: laminar flames."""
from .cases import flame_contract

flame_contract("C17")
