from world import *
from matrices import run
main("C02", lambda b: run(b, "DRG", drg.create_drg_matrix))
