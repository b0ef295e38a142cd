"""Flat names <-> flavour arrays."""
from .smeftlib import *
from spec import wet
import itertools


def run(S):
    w = setup(S, True)
    ts = S.mod('wcxf.translators.smeft')
    if hasattr(ts, 'wcxf2arrays'):
        S.explore(lambda: to_arrays(S, ts), 'wcxf2arrays')
        S.every_subset(lambda: subset(S, ts), 'wcxf2arrays/every subset',
                       lambda: S.explore(lambda: singles(S, ts), 'wcxf2arrays/singles'))
    else:
        S.notes.append('wcxf2arrays not found')
    if hasattr(ts, 'arrays2wcxf'):
        S.explore(lambda: to_flat(S, ts), 'arrays2wcxf')
    else:
        S.notes.append('arrays2wcxf not found')
    if hasattr(ts, 'smeft_toarray') and hasattr(ts, 'smeft_fromarray'):
        S.explore(lambda: single(S, ts), 'smeft_toarray')
        S.every_subset(lambda: single(S, ts, True), 'smeft_toarray/every subset', lambda: None)
    # seen through the translators, for operators no rotation acts on
    for pair in (('Warsaw', 'Warsaw up'), ('Warsaw up', 'Warsaw'), ('Warsaw', 'Warsaw mass')):
        w = setup(S, True)
        S.explore(lambda: through(S, w, pair), 'translate/' + pair[1])
    for last in (False, True, 'mixed'):
        w = jsetup(S, last)
        S.explore(lambda: jms_arrays(S, w, last), 'JMS arrays/%s' % last)
        S.every_subset(lambda: jms_arrays(S, w, last, True), 'JMS arrays/every subset/%s' % last, lambda: None)


def zeros(S, shape):
    return S.mod('wcxf.util.smeftutil').np.zeros(shape, dtype=complex)


def zero(x):
    if not isinstance(x, Num):
        return x == 0
    return bool(x.is_const()) and x.const_val() == 0


def to_arrays(S, ts):
    # every position, redundant ones included, has its own value
    C = {k: Num.sym(k, 'complex', ty='complex') for k in smeft.all_keys()}
    snap = dict(C)
    A = ts.wcxf2arrays(C)
    same_dict(S, 'to-arrays.input-unchanged', C, snap)
    S.prove('to-arrays.names', set(A) == set(smeft.OPS) | set(smeft.SCALARS), str(set(A) ^ (set(smeft.OPS) | set(smeft.SCALARS))))
    for op in smeft.OPS:
        S.prove('to-arrays.shape.' + op, tuple(A[op].shape) == (3,) * len(smeft.OPS[op]))
        for i in smeft.indices(op):
            S.equal('to-arrays.' + smeft.key(op, i), arr(A[op], i), snap[smeft.key(op, i)])
    for k in smeft.SCALARS:
        S.equal('to-arrays.' + k, A[k], snap[k])
    S.equal_dicts('to-arrays.empty', ts.wcxf2arrays({}), {})


def subset(S, ts):
    """every subset of the names (redundant ones included): the arrays hold the
    given values and zeros"""
    C, x = S.subset(smeft.all_keys())
    s = guard.snap(C)
    A = ts.wcxf2arrays(C)
    S.prove('subset.input-unchanged', guard.unchanged(C, s))
    S.prove('subset.is-dict', isinstance(A, guard.GDict))
    S.prove('subset.names', set(dict.keys(A)) == set(smeft.OPS) | set(smeft.SCALARS))
    for op in smeft.OPS:
        ks = [smeft.key(op, i) for i in smeft.indices(op)]
        g = A.g.get(op)
        here = guard.indicator((('pos', g),)) if g is not None else num(1)
        a = dict.__getitem__(A, op)
        S.prove('subset.shape.' + op, tuple(a.shape) == (3,) * len(smeft.OPS[op]))
        for i, k in zip(smeft.indices(op), ks):
            S.equal('subset.' + k, here * num(arr(a, i)), x[k])
    for k in smeft.SCALARS:
        S.equal('subset.' + k, A.total(k), x[k])
    if hasattr(ts, 'arrays2wcxf'):
        S.equal_dicts('subset.there-and-back', ts.arrays2wcxf(A), x)


def singles(S, ts):
    # a single coefficient: zero elsewhere
    snap = {k: Num.sym(k, 'complex', ty='complex') for k in smeft.all_keys()}
    for op in smeft.OPS:
        for j in smeft.indices(op):
            k = smeft.key(op, j)
            A = ts.wcxf2arrays({k: snap[k]})
            S.prove('single.names.' + op, set(A) == {op}, str(list(A)))
            ok = True
            for i in smeft.indices(op):
                if i != j:
                    ok = ok and zero(arr(A[op], i))
            S.prove('single.zero-elsewhere.' + k, ok)
            S.equal('single.' + k, arr(A[op], j), snap[k])
    for k in smeft.SCALARS:
        S.equal_dicts('single.' + k, ts.wcxf2arrays({k: snap[k]}), {k: snap[k]})


def to_flat(S, ts):
    A, exp = {}, {}
    for op in smeft.OPS:
        a = zeros(S, (3,) * len(smeft.OPS[op]))
        for i in smeft.indices(op):
            v = Num.sym(smeft.key(op, i), 'complex', ty='complex')
            a[i] = v
            exp[smeft.key(op, i)] = v
        A[op] = a
    for k in smeft.SCALARS:
        A[k] = exp[k] = Num.sym(k, 'real', ty='float')
    d = ts.arrays2wcxf(A)
    S.prove('to-flat.names', set(d) == set(exp), str(sorted(set(d) ^ set(exp))[:4]))
    S.equal_dicts('to-flat', d, exp)
    S.equal_dicts('to-flat.empty', ts.arrays2wcxf({}), {})
    if hasattr(ts, 'wcxf2arrays'):
        B = ts.wcxf2arrays(d)
        for op in smeft.OPS:
            for i in smeft.indices(op):
                S.equal('there-and-back.' + smeft.key(op, i), arr(B[op], i), arr(A[op], i))
        for k in smeft.SCALARS:
            S.equal('there-and-back.' + k, B[k], A[k])


def single(S, ts, sub=False):
    C = flat(S)
    t = T(C)
    if sub:
        C, x = S.subset(smeft.keys(), real=smeft.is_real)
        t = T(x)
    for op in smeft.OPS:
        a = ts.smeft_toarray(op, C.copy())
        for i in smeft.indices(op):
            S.equal('toarray.' + 'subset.' * sub + smeft.key(op, i), arr(a, i), t(op, *i))
        if sub:
            continue
        d = ts.smeft_fromarray(op, a)
        S.equal_dicts('fromarray.' + op, d, {smeft.key(op, i): t(op, *i) for i in smeft.indices(op)})
        S.prove('fromarray.names.' + op, len(d) == 3 ** len(smeft.OPS[op]))


def through(S, w, pair):
    C = flat(S)
    t = T(C)
    out = fn(w, 'SMEFT', *pair)(dict(C), S.scale(), None)
    tag = 'through.%s.' % pair[1].replace(' ', '-')
    for op in smeft.OPS:
        if not any(f in 'qQ' for f in smeft.OPS[op]) and op != 'llphiphi':
            for i in smeft.indices(op):
                k = smeft.key(op, i)
                if k in C or pair[1] != 'Warsaw mass':
                    S.equal(tag + k, dict.get(out, k), t(op, *i))
    for k in smeft.SCALARS:
        S.equal(tag + k, dict.get(out, k), C[k])


def reps(last):
    if last == 'mixed':
        out = []
        for a, b in zip(jms.keys(), sorted_pairs()):
            out.append(b)
        return out
    return jms.keys(last=last)


def sorted_pairs():
    """alternating choice of representatives"""
    out = []
    n = 0
    for op, ff in jms.OPS.items():
        for idx in itertools.product(*[range(jms.NGEN[f]) for f in ff]):
            orb = sorted(t for t, _ in jms.orbit(op, idx))
            if idx == orb[0]:
                out.append(jms.key(op, orb[n % len(orb)]))
                n += 1
    return out + jms.SCALARS


def jsetup(S, last):
    S.fresh()
    w = S.mod('wcxf')
    for e in ('WET', 'WET-4', 'WET-3'):
        S.register(e, 'JMS', reps(last))
        S.register(e, 'Bern', wet.bern_keys())
        S.register(e, 'flavio', wet.flavio_keys())
    S.assume_qcd()
    return w


def jms_arrays(S, w, last, sub=False):
    tw = S.mod('wcxf.translators.wet')
    tag = 'jms.%s.' % last
    if sub:
        C, snap = S.subset(reps(last), real=jms.is_real)
        tag += 'subset.'
    else:
        C = S.flat(reps(last), real=jms.is_real)
        snap = snapshot(C)
    t = NumTensor(snap)
    f = getattr(tw, '_JMS_to_array', None) or getattr(tw, 'JMS_to_array', None)
    if f is not None:
        A = f(C)
        if not sub:
            same_dict(S, tag + 'input-unchanged', C, snap)
        for op, ff in jms.OPS.items():
            if not any(x in 'ud' for x in ff):
                continue
            for i in itertools.product(*[range(jms.NGEN[x]) for x in ff]):
                S.equal(tag + jms.key(op, i), arr(A[op], i), t(op, *i))
        for k in jms.SCALARS:
            S.equal(tag + k, A[k], snap[k])
    else:
        S.notes.append('JMS_to_array not found: seen through the translators only')
    from .wetlib import running
    par = S.params()
    scale = S.scale()
    out = fn(w, 'WET', 'JMS', 'flavio')(C.copy() if sub else plain(C), scale, par)
    p = running(S, par, scale)
    S.equal_dicts(tag + 'flavio', out, wet.flavio(t, p, ckm(S, p), Ops))
