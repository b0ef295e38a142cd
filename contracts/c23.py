"""Warsaw -> Warsaw mass."""
from .smeftlib import *
from pyvc.models import *
from collections import OrderedDict

ROT = ('uphi', 'uG', 'uW', 'uB')


def run(S):
    for given in (True, False):
        w = setup(S, True)
        S.explore(lambda: full(S, w, given), 'full/%s' % given)
    w = setup(S, True)
    S.every_subset(lambda: every(S, w), 'subsets', lambda: S.explore(lambda: subsets(S, w), 'samples'))
    S.assumed.append('ckmutil.diag.msvd: singular values are a function of the matrix (natively compared with numpy)')


def expected(S, C, par):
    V = ckm(S, params_eff(S, par))
    t = T(C)
    exp = {k: v for k, v in C.items() if k.split('_')[0] not in ROT + ('llphiphi',)}
    for op in ROT:
        for i in range(3):
            for j in range(3):
                v = num(0)
                for k in range(3):
                    v = v + V[i][k] * t(op, k, j)
                exp[smeft.key(op, (i, j))] = v
    np_ = S.mod('wcxf.util.smeftutil').np
    a = np_.zeros((3, 3), dtype=complex)
    for i in range(3):
        for j in range(3):
            a[i, j] = t('llphiphi', i, j)
    msvd = S.mod('wcxf.translators.smeft').ckmutil.diag.msvd
    s = msvd(a)[1]
    for i in range(3):
        for j in range(3):
            exp[smeft.key('llphiphi', (i, j))] = scal(s[i]) if i == j else num(0)
    return exp


def one(S, w, C, par, tag):
    snap = dict(C)
    psnap = dict(par) if par is not None else None
    out = fn(w, 'SMEFT', 'Warsaw', 'Warsaw mass')(C, S.scale(), par)
    S.prove(tag + 'input-unchanged', len(C) == len(snap) and all(k in snap and C[k] is snap[k] for k in C))
    if par is not None:
        same_dict(S, tag + 'parameters-unchanged', par, psnap)
    S.prove(tag + 'new-object', out is not C)
    S.equal_dicts(tag + 'entry', out, expected(S, snap, par))


def full(S, w, given):
    # the type of the dictionary is arbitrary
    for cls in (dict, OrderedDict):
        one(S, w, cls(flat(S)), S.params() if given else None, 'given.' if given else 'default.')


def every(S, w):
    """every subset of the coefficients at once"""
    par = S.params()
    C, x = S.subset(smeft.keys(), real=smeft.is_real)
    s = guard.snap(C)
    out = fn(w, 'SMEFT', 'Warsaw', 'Warsaw mass')(C, S.scale(), par)
    S.prove('subset.input-unchanged', guard.unchanged(C, s))
    S.prove('subset.new-object', out is not C)
    S.equal_dicts('subset.entry', out, expected(S, x, par))


def subsets(S, w):
    par = S.params()
    one(S, w, {}, par, 'empty.')
    for op in smeft.OPS:
        ks = smeft.keys([op])
        for n, sub in enumerate((ks[::2], ks[1::2], ks[-1:])):
            one(S, w, flat(S, sub), par, 'subset.%s.%d.' % (op, n))
    for k in smeft.SCALARS:
        one(S, w, flat(S, [k]), par, 'subset.%s.' % k)
    for n in range(12):
        one(S, w, flat(S, [k for i, k in enumerate(smeft.keys()) if (i * 7 + n) % 12 < 5]), par, 'mix%d.' % n)
