"""Enums with many alternatives: every switch width of the dispatcher, on a selection of alternatives."""
import enu

TYPES = {}
SC = []
BIG = {65: [0, 1, 31, 32, 63, 64], 130: [0, 1, 2, 64, 65, 127, 128, 129]}
BIG_T = {255: [0, 1, 127, 128, 129, 200, 253, 254]}


def source(tier):
    o = ['#include "probe.hpp"', 'using namespace vp; using namespace efp;']
    for N, ks in list(BIG.items()) + (list(BIG_T.items()) if tier == 'thorough' else []):
        o += enu.decls(N, ks, False)
    return '\n'.join(o)


for _n in BIG:
    enu.mk(_n, 'quick', BIG[_n], SC)
for _n in BIG_T:
    enu.mk(_n, 'thorough', BIG_T[_n], SC)
