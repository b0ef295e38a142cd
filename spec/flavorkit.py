"""FlavorKit basis: names, and their correspondence with JMS coefficients.

FlavorKit operators are labelled by the flavours (a, b, c, d) in the order of the
fields in the FlavorKit Lagrangian; the JMS operator with the same field content
has the two indices of each bilinear exchanged (FlavorKit writes the hermitian
conjugate assignment).  The JMS basis contains one representative of each set of
symmetry-related coefficients; if the representative is reached by hermitian
conjugation, the value is complex conjugated."""
import json
import os
from . import jms

# family -> (JMS operator, index layout)
FAM = {
    'DSRR': ('S1ddRR', 'badc'), 'DVLL': ('VddLL', 'badc'), 'DVRR': ('VddRR', 'badc'),
    'DVLR': ('V1ddLR', 'badc'), 'DVRL': ('V1ddLR', 'dcba'),
    'ESRR': ('SedRR', 'dcba'), 'ESLR': ('SedRL', 'dcba'), 'ETRR': ('TedRR', 'dcba'),
    'EVLL': ('VedLL', 'dcba'), 'EVRR': ('VedRR', 'dcba'), 'EVLR': ('VdeLR', 'badc'), 'EVRL': ('VedLR', 'dcba'),
    'FVLL': ('VnudLL', 'dcba'), 'FVRL': ('VnudLR', 'dcba'),
    'AVLL': ('VeeLL', 'badc'), 'AVRR': ('VeeRR', 'badc'), 'AVLR': ('VeeLR', 'badc'), 'ASRR': ('SeeRR', 'badc'),
    'BVLL': ('VedLL', 'badc'), 'BVRR': ('VedRR', 'badc'), 'BVLR': ('VedLR', 'badc'),
    'BSRL': ('SedRL', 'badc'), 'BSRR': ('SedRR', 'badc'), 'BTRR': ('TedRR', 'badc'),
    'CVLL': ('VeuLL', 'badc'), 'CVRR': ('VeuRR', 'badc'), 'CVLR': ('VeuLR', 'badc'),
    'CSRL': ('SeuRL', 'badc'), 'CSRR': ('SeuRR', 'badc'), 'CTRR': ('TeuRR', 'badc'),
    'Q1R': ('dgamma', 'ba'), 'Q2R': ('dG', 'ba'), 'K2R': ('egamma', 'ba'),
}
# charged currents: hermitian conjugate operators, (d, u, nu, e) -> (nu, e, d, u)
CCUR = {'GVLL': 'VnueduLL', 'GVRL': 'VnueduLR', 'GSLL': 'SnueduRR', 'GSRL': 'SnueduRL'}

NAMES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'flavorkit_names.json')))


def target(name):
    """JMS name, conjugate?"""
    fam, ind = name.split('_')
    t = dict(zip('abcd', ind))
    if fam in CCUR:
        return '%s_%s' % (CCUR[fam], t['c'] + t['d'] + t['a'] + t['b']), True
    op, lay = FAM[fam]
    idx = tuple(int(t[x]) - 1 for x in lay)
    best = min(jms.orbit(op, idx))
    orb = jms.orbit(op, idx)
    rep = min(i for i, _ in orb)
    # without conjugation if possible
    cj = not any(i == rep and not c for i, c in orb)
    return jms.key(op, rep), cj


def factor(name, p, ops):
    """JMS = factor * FlavorKit (lepton dipoles), else None."""
    fam, ind = name.split('_')
    if fam != 'K2R':
        return None
    m = p[{'1': 'm_e', '2': 'm_mu', '3': 'm_tau'}[ind[0]]]
    return ops.sqrt(4 * ops.pi * p['alpha_e']) * m / 2


def to_jms(C, p, ops):
    out = {}
    for k, v in C.items():
        t, cj = target(k)
        v = v.conjugate() if cj else v
        f = factor(k, p, ops)
        out[t] = v if f is None else f * v
    return out


def from_jms(C, p, ops):
    out = {}
    for k in NAMES:
        t, cj = target(k)
        if t in C:
            v = C[t]
            v = v.conjugate() if cj else v
            f = factor(k, p, ops)
            out[k] = v if f is None else v / f
    return out
