"""C18: stirred reactors."""
from .cases import psr_contract

psr_contract("C18")
