from world import *
from matrices import run
main("C03", lambda b: run(b, "DRGEP", drgep.create_drgep_matrix))
