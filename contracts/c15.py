from .driver import *

parse_contract("C15")
main_contract("C15")
pymars_contract("C15")
