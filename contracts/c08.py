"""JMS -> Bern and JMS -> flavio preserve the effective Lagrangian."""
from .wetlib import *


def run(S):
    w = setup(S, ('WET', 'WET-4', 'WET-3'))
    scale = S.scale()
    for eft in ('WET', 'WET-4', 'WET-3'):
        for b in ('Bern', 'flavio'):
            absent(S, '%s.%s' % (eft, b), fn(w, eft, 'JMS', b), jms.keys(), jms.is_real)
        for pat in ('given', 'default'):
            if eft != 'WET' and pat == 'default':
                continue
            S.explore(lambda: bern(S, w, eft, pat, scale), 'bern/%s/%s' % (eft, pat))
            S.explore(lambda: flavio(S, w, eft, pat, scale), 'flavio/%s/%s' % (eft, pat))


def inputs(S, pat):
    C = S.flat(jms.keys(), real=jms.is_real)
    par = S.params() if pat == 'given' else None
    return C, par


def bern(S, w, eft, pat, scale):
    C, par = inputs(S, pat)
    snap = snapshot(C)
    out = fn(w, eft, 'JMS', 'Bern')(C, scale, par)
    same_dict(S, 'bern.input-unchanged', C, snap)
    p = running(S, par, scale)
    V = ckm(S, p)
    T = NumTensor(plain(C))
    exp = wet.bern_simple(T, p, V, Ops)
    tag = '%s.%s.' % (eft, pat)
    for k, v in exp.items():
        S.equal(tag + k, dict.get(out, k), v)
    n4 = 4 * p['GF'] / Ops.sqrt(2)
    acc = lambda k: n4 * num(scal(dict.get(out, k, 0)))
    sectors = wet.GENERIC + wet.RED_PL + wet.RED_PR
    for q in sectors:
        lagr_equal(S, tag + q, wet.quark_sector_equations(T, acc, q))
    allk = set(wet.bern_keys())
    S.prove(tag + 'only-Bern-names', set(out) <= allk, str(sorted(set(out) - allk)[:4]))


def flavio(S, w, eft, pat, scale):
    C, par = inputs(S, pat)
    snap = snapshot(C)
    out = fn(w, eft, 'JMS', 'flavio')(C, scale, par)
    same_dict(S, 'flavio.input-unchanged', C, snap)
    p = running(S, par, scale)
    V = ckm(S, p)
    exp = wet.flavio(NumTensor(plain(C)), p, V, Ops)
    S.equal_dicts('%s.%s.flavio' % (eft, pat), out, exp)
