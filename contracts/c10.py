"""Symmetrisation of SMEFT coefficient arrays."""
from .smeftlib import *
import itertools


def run(S):
    w = setup(S, True)
    su = S.mod('wcxf.util.smeftutil')
    ts = S.mod('wcxf.translators.smeft')
    if hasattr(su, 'symmetrize'):
        for op in smeft.OPS:
            S.explore(lambda: one(S, su, op), 'symmetrize/' + op)
        S.explore(lambda: scalars(S, su), 'symmetrize/scalars')
        S.explore(lambda: together(S, su), 'symmetrize/together')
        S.every_subset(lambda: any_arrays(S, su), 'symmetrize/any arrays', lambda: None, 'all or one of the arrays given')
    else:
        S.notes.append('smeftutil.symmetrize not found: only the translators are checked')
    # the same, as seen through the translators (full set of names registered): the
    # operators without quark doublets come out as their symmetric arrays
    for pair in (('Warsaw', 'Warsaw up'), ('Warsaw up', 'Warsaw')):
        S.explore(lambda: seen(S, w, pair), 'translate/%s-%s' % pair)
        S.every_subset(lambda: seen_subset(S, w, pair), 'translate-subset/%s-%s' % pair, lambda: None, 'all coefficients given')


def tensor_array(S, su, op, f, shape):
    """numpy array (of the interpreter) with f(idx) at idx"""
    np_ = S.it.load('wcxf.util.smeftutil').np
    a = np_.zeros(shape, dtype=complex)
    for idx in itertools.product(range(3), repeat=len(shape)):
        a[idx] = f(idx)
    return a


def one(S, su, op):
    n = len(smeft.OPS[op])
    C = flat(S, smeft.keys([op]))
    t = T(C)
    a = tensor_array(S, su, op, lambda i: C.get(smeft.key(op, i), 0), (3,) * n)
    before = {i: a[i] for i in smeft.indices(op)}
    out = su.symmetrize({op: a})
    S.prove(op + '.present', set(out) == {op}, str(list(out)[:3]))
    for i in smeft.indices(op):
        S.equal('%s.symmetric%s' % (op, list(i)), arr(out[op], i), t(op, *i))
        S.equal('%s.input-unchanged' % op, arr(a, i), before[i])
    # symmetric input: nothing changes
    b = tensor_array(S, su, op, lambda i: t(op, *i), (3,) * n)
    out = su.symmetrize({op: b})
    for i in smeft.indices(op):
        S.equal('%s.idempotent%s' % (op, list(i)), arr(out[op], i), t(op, *i))
    # whatever the redundant entries (and the imaginary parts of real ones) are:
    # the non-redundant coefficients determine the result
    X = {}
    for i in smeft.indices(op):
        k = smeft.key(op, i)
        if k not in C:
            X[i] = Num.sym('redundant_%s' % k, 'complex', ty='complex')
        elif smeft.is_real(k):
            X[i] = C[k] + 1j * Num.sym('imag_%s' % k, 'real', ty='float')
        else:
            X[i] = C[k]
    d = tensor_array(S, su, op, lambda i: X[i], (3,) * n)
    out = su.symmetrize({op: d})
    for i in smeft.indices(op):
        S.equal('%s.determined%s' % (op, list(i)), arr(out[op], i), t(op, *i))


def scalars(S, su):
    C = {k: Num.sym(k, 'real', ty='float') for k in smeft.SCALARS}
    out = su.symmetrize(dict(C))
    S.equal_dicts('scalars', out, C)
    S.equal_dicts('empty', su.symmetrize({}), {})


def together(S, su):
    """All operators at once: no operator is lost or affects another one."""
    C = flat(S)
    t = T(C)
    A = {}
    for op in smeft.OPS:
        A[op] = tensor_array(S, su, op, lambda i: C.get(smeft.key(op, i), 0), (3,) * len(smeft.OPS[op]))
    for k in smeft.SCALARS:
        A[k] = C[k]
    out = su.symmetrize(A)
    S.prove('together.names', set(out) == set(A), str(set(A) ^ set(out)))
    for op in smeft.OPS:
        if op in out:
            for i in smeft.indices(op):
                S.equal('together.%s%s' % (op, list(i)), arr(out[op], i), t(op, *i))


def seen(S, w, pair):
    C = flat(S)
    snap = dict(C)
    out = fn(w, 'SMEFT', *pair)(C, S.scale(), None)
    same_dict(S, 'input-unchanged', C, snap)
    t = T(snap)
    for op in smeft.OPS:
        if any(f in 'qQ' for f in smeft.OPS[op]):
            continue
        for i in smeft.indices(op):
            S.equal('%s.%s' % (pair[1].replace(' ', '-'), smeft.key(op, i)), dict.get(out, smeft.key(op, i)), t(op, *i))


def here(d, k):
    """1 where the dictionary has the key, 0 elsewhere"""
    if not dict.__contains__(d, k):
        return num(0)
    g = d.g.get(k) if isinstance(d, guard.GDict) else None
    return num(1) if g is None else guard.indicator((('pos', g),))


def any_arrays(S, su):
    """Any subset of the operators."""
    C = flat(S)
    t = T(C)
    A = [(op, tensor_array(S, su, op, lambda i: C.get(smeft.key(op, i), 0), (3,) * len(smeft.OPS[op]))) for op in smeft.OPS]
    D = guard.subset(A + [(k, C[k]) for k in smeft.SCALARS], 'op.')
    snap = guard.snap(D)
    out = su.symmetrize(D)
    S.prove('any-arrays.input-unchanged', guard.unchanged(D, snap))
    for op in smeft.OPS:
        S.equal('any-arrays.%s.kept' % op, here(out, op), here(D, op))
        if dict.__contains__(out, op):
            for i in smeft.indices(op):
                S.equal('any-arrays.%s%s' % (op, list(i)), arr(dict.__getitem__(out, op), i), t(op, *i))
    S.prove('any-arrays.nothing-else', set(dict.keys(out)) <= set(smeft.OPS) | set(smeft.SCALARS))


def seen_subset(S, w, pair):
    """Any subset of the coefficients."""
    fn(w, 'SMEFT', *pair)({}, S.scale(), None)
    w.Basis['SMEFT', pair[1]].all_wcs       # computed on first use
    C, x = S.subset(smeft.keys(), real=smeft.is_real)
    s = guard.snap(C)
    out = fn(w, 'SMEFT', *pair)(C, S.scale(), None)
    S.prove('subset.input-unchanged', guard.unchanged(C, s))
    t = T(x)
    for op in smeft.OPS:
        if any(f in 'qQ' for f in smeft.OPS[op]):
            continue
        for i in smeft.indices(op):
            k = smeft.key(op, i)
            S.equal('subset.%s.%s' % (pair[1].replace(' ', '-'), k),
                    out.total(k) if isinstance(out, guard.GDict) and dict.__contains__(out, k) else dict.get(out, k, 0), t(op, *i))
