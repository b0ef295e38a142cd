"""Matching to theories with fewer flavours."""
from .maplib import *

PAIRS = [('WET', 'flavio', 'WET-4'), ('WET-4', 'flavio', 'WET-3'), ('WET', 'Bern', 'WET-4'),
         ('WET-4', 'Bern', 'WET-3'), ('WET', 'JMS', 'WET-4'), ('WET-4', 'JMS', 'WET-3'), ('WET-3', 'JMS', 'WET-2')]


def run(S):
    for a, b, c in PAIRS:
        S.fresh()
        w = S.mod('wcxf')
        S.explore(lambda: one(S, w, a, b, c), '%s %s -> %s' % (a, b, c))


def one(S, w, a, b, c):
    """For every input dictionary C, every basis definition and every name q:
    q in result  <=>  q in C and q in target basis; result[q] = C[q]."""
    sec = sectors_map('sectors')
    # other bases are registered too: the right one has to be used
    for e in ('WET', 'WET-4', 'WET-3', 'WET-2'):
        for bb in ('flavio', 'Bern', 'JMS'):
            if (e, bb) != (c, b):
                w.Basis(e, bb, sectors_map('other_%s_%s' % (e, bb)))
    w.Basis(c, b, sec)
    C = coeff_map('C')
    before = C.fn
    out = w.Matcher[a, b, c, b].function(C, S.scale(), None)
    q = skey('q')
    tag = '%s.%s.%s.' % (a, b, c)
    inC = bool(C.contains(q))
    inB = exists(lambda s: sec.member2(s, q), 0, ('basis', str(q)))
    p, v = out.at(q)
    got = bool(p)
    S.prove(tag + 'membership', got == (inC and inB))
    if got and inC:
        S.prove(tag + 'value', v() is C.value(q) or num_eq(v(), C.value(q)))
    S.prove(tag + 'input-unchanged', C.fn is before)
