from native.wetlib import *
from spec import smeft


def setup(all_names=False):
    k = smeft.all_keys() if all_names else smeft.keys()
    for b in ('Warsaw', 'Warsaw up', 'Warsaw mass'):
        reg('SMEFT', b, k)


def arrays_of(flat):
    A = {}
    for k, v in flat.items():
        if '_' not in k:
            A[k] = v
            continue
        op, ind = k.split('_')
        if op not in A:
            A[op] = np.zeros((3,) * len(ind), dtype=complex)
        A[op][tuple(int(c) - 1 for c in ind)] = v
    return A


def eff(par):
    p = dict(DEFAULTS)
    p.update(par or {})
    return p
