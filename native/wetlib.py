"""Helpers for native oracles on the WET translators."""
import math
from collections import OrderedDict
import numpy as np
import ckmutil.ckm
import wcxf
import wcxf.util.qcd as qcd
from wcxf.parameters import p as defaults
from spec import jms, wet

DEFAULTS = {'m_W': 80.385, 'm_Z': 91.1876, 'GF': 1.1663787e-5, 'alpha_e': 1 / 127.9, 'alpha_s': 0.1185,
            'Vus': 0.2243, 'Vub': 3.62e-3, 'Vcb': 4.221e-2, 'gamma': 1.27, 'm_b': 4.18, 'm_s': 0.095,
            'm_e': 0.0005109989461, 'm_mu': 0.1056583745, 'm_tau': 1.77686}


class Ops:
    pi = math.pi
    sqrt = staticmethod(math.sqrt)
    abs = staticmethod(abs)


def setup(efts=('WET', 'WET-4', 'WET-3')):
    for e in efts:
        reg(e, 'JMS', jms.keys())
        reg(e, 'Bern', wet.bern_keys())
        reg(e, 'flavio', wet.flavio_keys())


def reg(eft, basis, keys):
    return wcxf.Basis(eft, basis, {'all': {k: {} for k in keys}})


def rand_params(R):
    """None, full or partial overrides."""
    r = R.rng
    full = {k: v * r.uniform(0.8, 1.2) for k, v in DEFAULTS.items()}
    c = r.random()
    if c < .25:
        return None
    if c < .5:
        return full
    ks = set(r.sample(sorted(full), r.randint(1, 5)))
    for g in R.news_keys(sorted(full)):
        if r.random() < .5:
            (ks.update if r.random() < .5 else ks.difference_update)(g)
    ks = sorted(ks)
    r.shuffle(ks)
    return {k: full[k] for k in ks}


def rand_scale(R):
    r = R.rng
    N = [abs(x) for x in R.news()[1] if 2 <= abs(x) <= 1e4]
    if N and r.random() < .3:
        return float(r.choice(N)) * r.choice([1., 1., .99, 1.01])
    return r.choice([2.0, 4.18, 4.8, 4.2, 5.0, 80.385, 91.1876, 100.0, 120.0, 160.0, 246.0, 1000.0, 10.0,
                     r.uniform(2, 200), r.uniform(2, 10), r.uniform(100, 2000)])


def running(inp, scale, f=5):
    p = dict(DEFAULTS)
    if inp:
        p.update(inp)
    q = {k: p[k] for k in p}
    q['m_b'] = qcd.m_b(p['m_b'], scale, f, p['alpha_s'])
    q['m_s'] = qcd.m_s(p['m_s'], scale, f, p['alpha_s'])
    q['alpha_s'] = qcd.alpha_s(scale, f, p['alpha_s'])
    return q


def ckm(p):
    V = ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
    return [[complex(V[i, j]) for j in range(3)] for i in range(3)]


def rand_flat(R, keys, real=lambda k: False, mode=None):
    """Random subset of coefficients, sizes spread over orders of magnitude."""
    r = R.rng
    keys = allkeys = list(keys)
    m = mode or r.choice(['all', 'few', 'some', 'one', 'realonly', 'allbut'])
    if m == 'few':
        keys = r.sample(keys, min(len(keys), r.randint(2, 12)))
    elif m == 'some':
        keys = [k for k in keys if r.random() < r.choice([.2, .5, .8])]
    elif m == 'one':
        keys = [r.choice(keys)]
    elif m == 'allbut':
        no = set(r.sample(keys, min(len(keys), r.randint(1, 4))))
        keys = [k for k in keys if k not in no]
    if mode is None and R.news_keys(allkeys) and r.random() < .7:
        have = set(keys)
        for g in R.news_keys(allkeys):
            c = r.random()
            if c < .35:
                have.difference_update(g)
            elif c < .6:
                have.update(g)
            elif c < .8:
                for k in g:
                    (have.add if r.random() < .5 else have.discard)(k)
        keys = [k for k in allkeys if k in have]
    if m != 'all':
        r.shuffle(keys)
    if mode is None and r.random() < .12:
        # all of them tiny (coefficients have dimension GeV^-2)
        t = 10.0 ** -r.uniform(6, 24)
        return {k: t * (R.num(True) if real(k) or r.random() < .1 else R.num()) for k in keys}
    if m == 'realonly':
        return around(R, {k: R.num(True) for k in keys}, mode)
    return around(R, {k: (R.num(True) if real(k) or r.random() < .1 else R.num()) for k in keys}, mode)


def around(R, flat, mode=None, p=.3):
    """values near constants that are new in the source"""
    r = R.rng
    N = [abs(x) for x in R.news()[1]]
    if mode is not None or not N or r.random() > p:
        return flat
    x = r.choice(N)
    if r.random() < .5:
        f = x * r.choice([1., .3, 3.]) / max([abs(v) for v in flat.values()] + [1e-300])
        return {k: v * f for k, v in flat.items()}
    return {k: (r.choice([1, -1]) * x * r.choice([1., .5, 2., .999, 1.001]) if r.random() < .5 else v) for k, v in flat.items()}


def wc_of(eft, basis, scale, flat):
    return wcxf.WC(eft, basis, scale, {k: ({'Re': v.real, 'Im': v.imag} if isinstance(v, complex) else v)
                                       for k, v in flat.items()})


class MyDict(dict):
    """a user's own dictionary class"""


def direct(R, conv, flat, mu, par, ref, **data):
    """The registered function called directly, with other mapping types and
    another order: same result, arguments unchanged."""
    ks = list(flat)
    R.rng.shuffle(ks)
    D = R.rng.choice([dict, OrderedDict, MyDict])((k, flat[k]) for k in ks)
    P = R.rng.choice([dict, OrderedDict, MyDict])(par) if par is not None else None
    out = R.guard('function', lambda: conv.function(D, mu, P), **data)
    if out is R.FAILED:
        return
    R.check('function.input-unchanged', list(D.items()) == [(k, flat[k]) for k in ks] and out is not D, '', **data)
    R.check('function.parameters-unchanged', P is None or dict(P) == par, '', **data)
    compare(R, 'function', {k: v for k, v in out.items() if v != 0}, ref, tol=1e-6, rel=1e-6, **data)



class Acc:
    def __init__(self, d):
        self.d = d

    def __call__(self, k):
        return self.d.get(k, 0)


def compare(R, name, out, exp, tol=1e-8, closed=True, rel=1e-7, **data):
    """Coefficient sets equal (absent = 0); per-family noise floor."""
    mx = max([abs(v) for v in exp.values()] + [0])
    ok = True
    for k, v in exp.items():
        a = out.get(k, 0)
        if not R.close('%s[%s]' % (name, k), a, v, tol=tol, floor=rel * mx, **data):
            ok = False
            if len(R.failures) > 20:
                return False
    if closed:
        for k in out:
            if k not in exp:
                ok &= R.close('%s[%s]' % (name, k), out[k], 0, 'coefficient outside the expected set', floor=mx, **data)
    return ok
