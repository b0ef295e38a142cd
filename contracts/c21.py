"""JMS -> EOS and JMS -> formflavor."""
from .wetlib import *


def run(S):
    w = setup(S)
    scale = S.scale()
    for b in ('EOS', 'formflavor'):
        absent(S, b, fn(w, 'WET', 'JMS', b), jms.keys(), jms.is_real)
    for pat in ('given', 'default'):
        for b, spec in (('EOS', wet.eos), ('formflavor', wet.formflavor)):
            S.explore(lambda: one(S, w, b, spec, pat, scale), '%s/%s' % (b, pat))


def one(S, w, b, spec, pat, scale):
    C = S.flat(jms.keys(), real=jms.is_real)
    par = S.params() if pat == 'given' else None
    snap = snapshot(C)
    out = fn(w, 'WET', 'JMS', b)(C, scale, par)
    same_dict(S, b + '.input-unchanged', C, snap)
    p = running(S, par, scale)
    S.equal_dicts('%s.%s' % (pat, b), out, spec(NumTensor(plain(C)), p, ckm(S, p), Ops))
