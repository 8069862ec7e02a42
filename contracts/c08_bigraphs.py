"""P08 (and P02, P04): edge lists and matrices of directed and bipartite graphs."""
from contracts.structs import *

for _q in (DQ, BQ):
    for _k in GETTERS[_q]:
        getter_contract(_q, _k, ['P02', 'P04'] if _k == 'e' else ['P08', 'P04'], [BG + '.e'] if _k == 'e' else [], hyp=nonneg)
