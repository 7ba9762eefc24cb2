"""C04: missing cells through aggregation (the mask part of the three aggregations, and get_masks)."""
from contracts.agg import *
from contracts.C01 import accumulate, ASSUMPTIONS as A1
from contracts.C02 import avg_vcs, lemmas
from contracts.C03 import inst_vcs

ASSUMPTIONS = [
    'each aggregation is requested on windows that the messages cover (preconditions of C01-C03)',
    'all messages of a run are of one kind: plain, masked or masked without mask (mixed sets: run-time contracts)',
    'numpy, numpy.ma, numexpr, bisect, OrderedDict: assumed contracts (pyvc/models), cross-checked by the run-time contracts',
]
KINDS = [('masked', True), ('nomask', 'nomask')]


def vcs(tier):
    out = [dict(name='get_masks', harness=get_masks_contract), dict(name='get_masks-any-number', harness=get_masks_seq), dict(name='lemmas', harness=lemmas)]
    for zero in ('start0', 'start=s', 'later'):
        for force in (False, True):
            for k, k2 in KINDS:
                out.append(dict(name=f'accumulation[{zero},force={force},{k}]', harness=accumulate(k2, force, zero, 'missing'), covers=['pre', 'post']))
    return out + avg_vcs('missing', KINDS) + inst_vcs('missing', KINDS)
