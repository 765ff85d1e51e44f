from world import *
from matrices import run
main("C04", lambda b: run(b, "PFA", pfa.create_pfa_matrix))
