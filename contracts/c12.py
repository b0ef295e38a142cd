"""Tree-level matching SMEFT (Warsaw up) -> WET (JMS).

Layers: the effective couplings vT, eps, g2b, g1b, sb, cb, eb, gzb are each
verified against their defining formula (callees through their contracts); in
the verification of the matching itself they are opaque functions of exactly the
inputs they may depend on.  A coupling whose function is not found under its name
is inlined."""
from .smeftlib import *
from spec import matching as M
from pyvc import poly as P
import itertools
import mpmath

MOD = 'wcxf.matchers.smeft.'


class MpOps:
    sqrt = staticmethod(mpmath.sqrt)
    abs = staticmethod(mpmath.fabs)

    @staticmethod
    def frac(a, b):
        return mpmath.mpf(a) / b

    class _Pi:
        pass


MpOps.pi = mpmath.pi
ATTR = {'vT': 'v', 'eps': 'eps', 'g2b': 'g2', 'g1b': 'g1', 'sb': 'sb', 'cb': 'cb', 'eb': 'eb', 'gzb': 'gz'}
ATTR.update(sb='s', cb='c', eb='e')


def inputs(C, p):
    """what the couplings may depend on"""
    ll, ph = C['ll'], C['phil3']
    x = [p['GF'], p['m_W'], p['alpha_e'], arr(ll, (1, 0, 0, 1)), arr(ll, (0, 1, 1, 0)),
         arr(ph, (1, 1)), arr(ph, (0, 0)), scal(C['phiWB'])]
    return [num(i).p for i in x]


INLINE = ()             # couplings without the frame that hooks assume
NEEDS = {'vT': (0, 3, 4, 5, 6), 'g2b': (0, 1, 3, 4, 5, 6)}


def symbol(name, args):
    use = NEEDS.get(name, range(8))
    a = [args[i] for i in use]

    def f(*v, use=tuple(use)):
        full = [mpmath.mpf(1)] * 8
        for i, x in zip(use, v):
            full[i] = x
        return getattr(M.Couplings(MpOps, *full), ATTR[name])
    return Num(P.p_fun('matching.' + name, a, f), 'float')


class Sym:
    """couplings as symbols"""
    def __init__(self, C, p):
        a = inputs(C, p)
        self.v, self.g2, self.g1, self.s, self.c, self.e, self.gz = [
            symbol(n, a) for n in ('vT', 'g2b', 'g1b', 'sb', 'cb', 'eb', 'gzb')]
        self.eps = num(scal(C['phiWB'])) * self.v ** 2


def hook(S, name):
    def h(f, args, kw):
        b = f.bind(args, kw)
        vals = list(b.values())
        if len(vals) != 2 or not all(isinstance(x, dict) for x in vals):
            raise Unsupported('signature of %s' % name)
        S.eng.calls.append((name, None))
        return symbol(name, inputs(*vals))
    return h


def hooks(S, m, but=()):
    have = []
    for n in ('vT', 'g2b', 'g1b', 'sb', 'cb', 'eb', 'gzb'):
        S.eng.contracts.pop(MOD + n, None)
        if hasattr(m, n) and n not in but and n not in INLINE:
            S.eng.contracts[MOD + n] = hook(S, n)
            have.append(n)
    return have


def run(S):
    w = setup(S, True)
    S.register('WET', 'JMS', M.all_names())
    m = S.mod('wcxf.matchers.smeft')
    S.explore(lambda: couplings(S, m), 'effective couplings')
    have = hooks(S, m)
    if len(have) < 7:
        S.notes.append('couplings under contract: %s (others inlined)' % have)
    S.explore(lambda: whole(S, w, m, True), 'matching/given')
    S.explore(lambda: whole(S, w, m, False), 'matching/defaults')
    S.every_subset(lambda: every(S, w, m), 'matching/subsets',
                   lambda: S.explore(lambda: subsets(S, w, m), 'matching/samples'))
    hooks(S, m, ('vT', 'g2b', 'g1b', 'sb', 'cb', 'eb', 'gzb'))
    S.assumed.append('couplings: g2b^2 > 4 pi alpha_e and non-zero effective couplings (denominators)')


def arrays(S, C):
    """array dictionary as the couplings see it"""
    np_ = S.mod('wcxf.util.smeftutil').np
    t = T(C)
    A = {}
    for op in smeft.OPS:
        a = np_.zeros((3,) * len(smeft.OPS[op]), dtype=complex)
        for i in smeft.indices(op):
            a[i] = t(op, *i)
        A[op] = a
    for k in smeft.SCALARS:
        A[k] = t.scalar(k)
    return A


def couplings(S, m):
    par = S.params()
    A = arrays(S, flat(S))
    k = Sym(A, par)
    o = Ops
    exp = {
        'vT': lambda: M.vT(o, par['GF'], arr(A['ll'], (1, 0, 0, 1)), arr(A['ll'], (0, 1, 1, 0)),
                           arr(A['phil3'], (1, 1)), arr(A['phil3'], (0, 0))),
        'eps': lambda: M.eps(o, k.v, A['phiWB']),
        'g2b': lambda: M.g2b(o, par['m_W'], k.v),
        'g1b': lambda: M.g1b(o, par['alpha_e'], k.g2, k.eps),
        'sb': lambda: M.sb(o, k.g1, k.g2, k.eps),
        'cb': lambda: M.cb(o, k.g1, k.g2, k.eps),
        'eb': lambda: M.eb(o, k.g2, k.s, k.c, k.eps),
        'gzb': lambda: M.gzb(o, k.e, k.s, k.c, k.g1, k.g2, k.eps),
    }
    for n, f in exp.items():
        if hasattr(m, n):
            hooks(S, m, (n,))
            S.equal('coupling.' + n, getattr(m, n)(A, par), f())
    frames(S, m, A)


def frames(S, m, A):
    """The couplings leave coefficients and parameters alone, which is what their
    symbols stand for in the verification of their callers; one that does not is
    inlined instead."""
    global INLINE
    par = S.params()
    snap, asnap = dict(par), dict(A)
    data = {k: list(a.data.flat) for k, a in A.items() if isinstance(a, NDArray)}
    INLINE = ()
    bad = []
    for n in sorted(ATTR, key=list(ATTR).index):
        if hasattr(m, n):
            hooks(S, m, (n,))
            p, C = dict(par), dict(A)
            getattr(m, n)(C, p)
            if same(p, snap) and same(C, asnap) and all(x is y for k, a in data.items() for x, y in zip(a, A[k].data.flat)):
                S.prove('coupling.%s.frame' % n, True)
            else:
                bad.append(n)
            for k, a in data.items():
                A[k].data.flat = a
    if bad:
        INLINE = tuple(bad)
        S.notes.append('couplings that modify their arguments, inlined: %s' % bad)
    hooks(S, m)


def same(d, e):
    return len(d) == len(e) and all(k in e and d[k] is e[k] for k in d)


def expected(S, C, par, names):
    p = params_eff(S, par)
    zero = num(0)
    t = T(C)
    A = arrays(S, C)
    Z = arrays(S, {})
    full = M.Full(t, Sym(A, p), p, Ops, zero)
    sm = M.Full(M.NoNP(zero), Sym(Z, p), p, Ops, zero)
    return M.match(names, full, sm, ckm(S, p), zero)


def whole(S, w, m, given):
    C = flat(S)
    snap = dict(C)
    par = S.params() if given else None
    psnap = dict(par) if given else None
    out = w.Matcher['SMEFT', 'Warsaw up', 'WET', 'JMS'].function(C, S.scale(), par)
    tag = 'given.' if given else 'default.'
    same_dict(S, tag + 'input-unchanged', C, snap)
    if given:
        same_dict(S, tag + 'parameters-unchanged', par, psnap)
    names = M.all_names()
    exp = expected(S, snap, par, names if given else jms.keys())
    S.prove(tag + 'only-JMS-names', set(out) <= set(names), str(sorted(set(out) - set(names))[:4]))
    S.equal_dicts(tag + 'C', {k: v for k, v in out.items() if k in exp}, exp)


def every(S, w, m):
    """every subset of the coefficients at once"""
    par = S.params()
    f = w.Matcher['SMEFT', 'Warsaw up', 'WET', 'JMS'].function
    f({}, S.scale(), par)
    w.Basis['WET', 'JMS'].all_wcs               # computed on first use
    names = jms.keys()
    C, x = S.subset(smeft.keys(), real=smeft.is_real)
    s = guard.snap(C)
    out = f(C, S.scale(), par)
    S.prove('subset.input-unchanged', guard.unchanged(C, s))
    exp = expected(S, x, par, names)
    total = out.total if isinstance(out, guard.GDict) else lambda k: dict.get(out, k, 0)
    S.prove('subset.only-JMS-names', set(dict.keys(out)) <= set(M.all_names()))
    S.equal_dicts('subset.C', {k: total(k) for k in names}, exp)


def subsets(S, w, m):
    par = S.params()
    f = w.Matcher['SMEFT', 'Warsaw up', 'WET', 'JMS'].function
    S.equal_dicts('empty', f({}, S.scale(), par), {})
    names = jms.keys()
    groups = [[k] for k in smeft.SCALARS] + [smeft.keys([op])[::2] for op in smeft.OPS] + \
             [smeft.keys([op])[1::2] for op in smeft.OPS]
    for g in groups[::1 if S.tier == 'thorough' else 4]:
        C = flat(S, g)
        out = f(dict(C), S.scale(), par)
        exp = expected(S, C, par, names)
        S.equal_dicts('subset.%s' % g[0], {k: v for k, v in out.items() if k in exp}, exp)
