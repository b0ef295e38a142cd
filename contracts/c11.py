"""Warsaw <-> Warsaw up: rotation of the quark doublets."""
from .smeftlib import *
import itertools

PAIRS = (('Warsaw', 'Warsaw up'), ('Warsaw up', 'Warsaw'))


def matrix(S, w, par, pair):
    V = ckm(S, params_eff(S, par))
    return smeft.dagger(V) if pair[1] == 'Warsaw up' else V


def run(S):
    for pair in PAIRS:
        for par in ('given', None):
            w = setup(S, True)
            S.explore(lambda: rot(S, w, pair, par), 'rotation/%s/%s' % (pair[1], par))
        S.explore(lambda: targets(S, pair), 'targets/%s' % pair[1])
        w = setup(S, True)
        S.every_subset(lambda: every(S, w, pair), 'subsets/%s' % pair[1],
                       lambda: S.explore(lambda: subsets(S, w, pair), 'samples/%s' % pair[1]))
    S.explore(lambda: lemmas(S), 'lemmas')


def rot(S, w, pair, given):
    """every entry (redundant ones included) is the rotated symmetric tensor"""
    C = flat(S)
    snap = dict(C)
    par = S.params() if given else None
    psnap = dict(par) if given else None
    out = fn(w, 'SMEFT', *pair)(C, S.scale(), par)
    tag = '%s.%s.' % (pair[1].replace(' ', '-'), 'par' if given else 'default')
    same_dict(S, tag + 'input-unchanged', C, snap)
    if given:
        same_dict(S, tag + 'parameters-unchanged', par, psnap)
    U = matrix(S, w, par, pair)
    names = smeft.all_keys() if given else smeft.keys()
    exp = smeft.rotated_flat(snap, U, names, Num.const(0))
    S.equal_dicts(tag + 'entry', out, exp, closed=given is not None)


def targets(S, pair):
    """only names of the target basis; whatever representatives it uses"""
    S.fresh()
    w = S.mod('wcxf')
    allk = smeft.all_keys()
    some = [k for n, k in enumerate(allk) if n % 3 == 0]
    S.register('SMEFT', pair[0], allk)
    S.register('SMEFT', pair[1], some)
    S.register('SMEFT', 'Warsaw mass', allk[:10])
    C = flat(S)
    par = S.params()
    out = fn(w, 'SMEFT', *pair)(dict(C), S.scale(), par)
    tag = 'target.%s.' % pair[1].replace(' ', '-')
    S.prove(tag + 'names', set(out) <= set(some), str(sorted(set(out) - set(some))[:4]))
    S.equal_dicts(tag + 'entry', out, smeft.rotated_flat(C, matrix(S, w, par, pair), some, Num.const(0)))


def every(S, w, pair):
    """every subset of the independent coefficients at once"""
    par = S.params()
    U = matrix(S, w, par, pair)
    fn(w, 'SMEFT', *pair)({}, S.scale(), par)
    w.Basis['SMEFT', pair[1]].all_wcs       # computed on first use
    tag = 'subset.%s.' % pair[1].replace(' ', '-')
    C, x = S.subset(smeft.keys(), real=smeft.is_real)
    s = guard.snap(C)
    out = fn(w, 'SMEFT', *pair)(C, S.scale(), par)
    S.prove(tag + 'input-unchanged', guard.unchanged(C, s))
    S.equal_dicts(tag + 'entry', out, smeft.rotated_flat(x, U, smeft.all_keys(), Num.const(0)))


def subsets(S, w, pair):
    """one operator at a time, with every second coefficient missing"""
    par = S.params()
    U = matrix(S, w, par, pair)
    tag = 'subset.%s.' % pair[1].replace(' ', '-')
    for op in smeft.OPS:
        ks = smeft.keys([op])
        for sub in (ks[::2], ks[1::2], ks[-1:]):
            C = flat(S, sub)
            out = fn(w, 'SMEFT', *pair)(dict(C), S.scale(), par)
            S.equal_dicts(tag + op, out, smeft.rotated_flat(C, U, smeft.all_keys(), Num.const(0)))
    out = fn(w, 'SMEFT', *pair)({}, S.scale(), par)
    S.equal_dicts(tag + 'empty', out, {})
    for k in smeft.SCALARS:
        C = flat(S, [k])
        out = fn(w, 'SMEFT', *pair)(dict(C), S.scale(), par)
        S.equal_dicts(tag + k, out, C)


def lemmas(S):
    """Round trip.  (1) a rotated tensor keeps its symmetries, so that its
    independent entries determine it; (2) rotations compose slot by slot;
    (3) V V^dagger = 1.  Together: up(down(C)) = C."""
    U = [[Num.sym('U%d%d' % (i, j), 'complex') for j in range(3)] for i in range(3)]
    A = [[Num.sym('A%d%d' % (i, j), 'complex') for j in range(3)] for i in range(3)]
    zero = Num.const(0)
    for op in smeft.OPS:
        if not any(f in 'qQ' for f in smeft.OPS[op]):
            continue
        C = flat(S, smeft.keys([op]))
        t = smeft.Tensor(C, zero)
        ind = smeft.rotated_flat(C, U, smeft.keys([op]), zero)
        r = smeft.Tensor(ind, zero)
        for i in smeft.indices(op):
            S.equal('lemma.symmetric.' + smeft.key(op, i), num(r(op, *i)), num(smeft.rotate(t, op, i, U, zero)))
    X = [Num.sym('X%d' % i, 'complex') for i in range(3)]

    def un(U, x):
        return [sum((U[i][a] * x[i] for i in range(3)), zero) for a in range(3)]

    def ba(U, x):
        return [sum((U[i][a].conjugate() * x[i] for i in range(3)), zero) for a in range(3)]
    UA = [[sum((U[i][k] * A[k][j] for k in range(3)), zero) for j in range(3)] for i in range(3)]
    for f, n in ((un, 'q'), (ba, 'Q')):
        one = f(A, f(U, X))
        two = f(UA, X)
        for a in range(3):
            S.equal('lemma.compose.%s[%d]' % (n, a), one[a], two[a])
    S.assumed.append('unitarity of the CKM matrix (checked natively for every matrix used)')
