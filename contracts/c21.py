from .reactor import *

residual_contract("C21")
jacobian_contract("C21")
