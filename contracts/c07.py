"""Bern <-> flavio: the formulae, and the round trip."""
from .wetlib import *

EFTS = ('WET', 'WET-4', 'WET-3')


def run(S):
    w = setup(S, EFTS)
    scale = S.scale()
    for eft in EFTS:
        absent(S, eft + '.Bern-flavio', fn(w, eft, 'Bern', 'flavio'), wet.bern_keys())
        absent(S, eft + '.flavio-Bern', fn(w, eft, 'flavio', 'Bern'), wet.flavio_keys())
        for pat in ('given', 'default'):
            if eft != 'WET' and pat == 'default':
                continue
            S.explore(lambda: forward(S, w, eft, pat, scale), 'Bern-flavio/%s/%s' % (eft, pat))
            S.explore(lambda: around(S, w, eft, pat, scale), 'flavio-Bern-flavio/%s/%s' % (eft, pat))


def forward(S, w, eft, pat, scale):
    C = S.flat(wet.bern_keys())
    par = S.params() if pat == 'given' else None
    snap = snapshot(C)
    out = fn(w, eft, 'Bern', 'flavio')(C, scale, par)
    same_dict(S, 'input-unchanged', C, snap)
    p = running(S, par, scale)
    V = ckm(S, p)
    d = plain(C)
    exp = wet.flavio_from_bern(lambda k: d.get(k, num(0)), p, V, Ops)
    S.equal_dicts('%s.%s.flavio' % (eft, pat), out, exp)


def around(S, w, eft, pat, scale):
    C = S.flat(wet.flavio_keys())
    par = S.params() if pat == 'given' else None
    snap = snapshot(C)
    bern = fn(w, eft, 'flavio', 'Bern')(C, scale, par)
    same_dict(S, 'input-unchanged', C, snap)
    p = running(S, par, scale)
    exp = wet.bern_from_flavio(lambda k: snap.get(k, num(0)), p, ckm(S, p), Ops)
    S.equal_dicts('%s.%s.Bern' % (eft, pat), bern, exp)
    back = fn(w, eft, 'Bern', 'flavio')(dict(dict.items(bern)), scale, par)
    S.equal_dicts('%s.%s.round-trip' % (eft, pat), back, snap)
