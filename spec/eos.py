"""EOS export: the coefficient(s) a parameter refers to."""


def names():
    out = ['b->s::c%d' % i for i in range(1, 7)] + ['b->s::c8', "b->s::c8'"]
    for part in ('Re', 'Im'):
        for p in ('', "'"):
            out += ['b->s::%s{c7%s}' % (part, p), 'b->s::%s{c8%s}' % (part, p)]
            for l in ('ee', 'mumu'):
                out += ['b->s%s::%s{%s%s}' % (l, part, c, p) for c in ('c9', 'c10', 'cS', 'cP')]
        for l in ('ee', 'mumu', 'tautau'):
            out += ['b->s%s::%s{%s}' % (l, part, c) for c in ('cT', 'cT5')]
        for q in 'uc':
            out += ['b->%slnu::%s{%s}' % (q, part, c) for c in ('cVL', 'cVR', 'cSL', 'cSR', 'cT')]
    out += ['b->dee::Re{c9}', 'b->d::Im{c7}', 'd->ulnu::Im{cVL}', 's->u::Re{cT5}']
    return out


def meaning(name):
    """(part, coefficient names): part 're' or 'im'; two names for the lepton
    flavour universal charged-current parameters."""
    part = 'im' if 'Im{' in name else 're'
    k = name.replace('Re{', '').replace('Im{', '').replace('}', '')
    if 'lnu' in k:
        return part, [k.replace('lnu', 'enue'), k.replace('lnu', 'munumu')]
    return part, [k]
