"""P07 (and P04, P12): matrices of simple graphs."""
from contracts.structs import *

for _k in GETTERS[GQ]:
    _props = {'e': ['P01', 'P04'], 'e_both_side': ['P01', 'P07', 'P04']}.get(_k, ['P07', 'P04'])
    getter_contract(GQ, _k, _props, [BG + '.e'] if _k == 'e' else [], hyp=nonneg)
