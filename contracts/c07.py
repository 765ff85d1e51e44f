"""C07: the candidate of a threshold."""
from .candidates import graph_method, importance_method
from . import lemmas as L

L.prove_full_cover("C07")
importance_method("C07", "exact")
graph_method("C07", "drg", "reduce_drg", "exact")
graph_method("C07", "pfa", "reduce_pfa", "exact")
