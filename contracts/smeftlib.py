"""Helpers for contracts on the SMEFT code."""
from .common import *
from .wetlib import NumTensor, plain, fn, ckm
from spec import smeft, jms


def setup(S, all_names=False):
    S.fresh()
    w = S.mod('wcxf')
    k = smeft.all_keys() if all_names else smeft.keys()
    for b in ('Warsaw', 'Warsaw up', 'Warsaw mass'):
        S.register('SMEFT', b, k)
    S.assumed.append('ckmutil.ckm.ckm_tree: a function of (Vus, Vub, Vcb, gamma) with values in U(3)')
    return w


def flat(S, keys=None, cls=None):
    return S.flat(keys or smeft.keys(), real=smeft.is_real, cls=cls or dict)


class T(smeft.Tensor):
    def __init__(self, flat):
        super().__init__(flat, Num.const(0))

    def __call__(self, op, *idx):
        return num(scal(super().__call__(op, *idx)))


def params_eff(S, inp):
    p = dict(S.mod('wcxf.parameters').p)
    if isinstance(inp, guard.GDict):
        p = guard.GDict(p)
        p.update(inp)
        return p
    p.update(inp or {})
    return p


def arr(x, idx):
    """entry of an array-like result"""
    return scal(x[tuple(idx)])
