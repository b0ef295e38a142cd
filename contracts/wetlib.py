"""Helpers for contracts on the WET translators."""
from .common import *
from spec import jms, wet


def setup(S, efts=('WET',)):
    """Package with the WET bases registered (the bases submodule is data that
    the library loads; its content is a precondition)."""
    S.fresh()
    w = S.mod('wcxf')
    for e in efts:
        S.register(e, 'JMS', jms.keys())
        S.register(e, 'Bern', wet.bern_keys())
        S.register(e, 'flavio', wet.flavio_keys())
    S.assume_qcd()
    S.assumed.append('ckmutil.ckm.ckm_tree: a function of (Vus, Vub, Vcb, gamma) with non-vanishing entries')
    return w


def running(S, inp, scale, f=5):
    """The parameters a translator has to use, given its inputs: overrides on top
    of the defaults, masses and alpha_s run to the scale in the f-flavour theory."""
    p0 = dict(S.mod('wcxf.parameters').p)
    p = dict(S.defaults) if hasattr(S, 'defaults') else p0
    if inp is not None:
        p.update(inp)
    q = {k: p[k] for k in ('m_W', 'm_Z', 'GF', 'alpha_e', 'Vus', 'Vub', 'Vcb', 'gamma', 'm_e', 'm_mu', 'm_tau')}
    q['m_b'] = S.qcd('m_b', p['m_b'], scale, f, p['alpha_s'])
    q['m_s'] = S.qcd('m_s', p['m_s'], scale, f, p['alpha_s'])
    q['alpha_s'] = S.qcd('alpha_s', scale, f, p['alpha_s'])
    return q


def ckm(S, p):
    from pyvc.models import V_matrix
    m = V_matrix([p['Vus'], p['Vub'], p['Vcb'], p['gamma']])
    return [[m.data[i, j] for j in range(3)] for i in range(3)]


def fn(w, eft, a, b):
    return w.Translator[eft, a, b].function


class Acc:
    """C(key) accessor with absent = 0."""
    def __init__(self, d):
        self.d = d

    def __call__(self, k):
        return dict.get(self.d, k, 0)


class NumTensor(jms.Tensor):
    def __call__(self, name, *idx):
        return num(scal(super().__call__(name, *idx)))


def plain(d):
    return dict(dict.items(d))


def weight(c, w):
    """c * (re + i im)"""
    r, i = w
    z = Num({P.ONE: P.gq(P.norm_q(r), P.norm_q(i))}, 'complex')
    return num(c) * z


def lagr_equal(S, name, eqs):
    for k, A, B in eqs:
        a = num(0)
        for c, w in A:
            a = a + weight(c, w)
        b = num(0)
        for c, w in B:
            b = b + weight(c, w)
        S.equal('%s%s' % (name, list(k)), b, a)


def absent(S, name, f, keys, real=lambda k: False):
    """An absent coefficient counts as zero, for every subset at once:
    f(subset) = f(all coefficients, with zero for those not in the subset)."""
    def go():
        scale, par = S.scale(), S.params()
        C, x = S.subset(keys, real=real)
        s = guard.snap(C)
        out = f(C, scale, par)
        S.prove(name + '.subset.input-unchanged', guard.unchanged(C, s))
        ref = f(dict(x), scale, par)
        S.equal_dicts(name + '.subset', out, {k: scal(v) for k, v in dict.items(ref)})

    def samples():
        def one():
            scale, par = S.scale(), S.params()
            for n in range(6):
                sub = [k for i, k in enumerate(keys) if (i * 5 + n) % 7 < 3]
                C = S.flat(sub, real=real, cls=dict)
                ref = f(dict({k: num(0) for k in keys}, **C), scale, par)
                S.equal_dicts(name + '.sample', f(dict(C), scale, par), {k: scal(v) for k, v in dict.items(ref)})
        S.explore(one, name + '/samples')
    S.every_subset(go, name + '/every subset', samples, 'six subsets')
