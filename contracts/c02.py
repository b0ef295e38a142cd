"""Translator.translate, Matcher.match, WC.translate, WC.match (arbitrary
registered functions, unbounded inputs and outputs)."""
from .maplib import *
from .c01 import file_values, unchanged


def run(S):
    w = S.mod('wcxf')
    for what in ('translate', 'match'):
        for n, (deco, first, read, par) in enumerate([(0, 1, 0, 1), (1, 0, 1, 0), (0, 0, 1, 1), (1, 1, 0, 0)]):
            S.explore(lambda: one(S, w, what, deco, first, read, par), '%s %d' % (what, n))
        for emptied in (0, 1):
            S.explore(lambda: missing(S, w, what, emptied), '%s not registered %d' % (what, emptied))


def conv(S, w, what, key, log, tag, deco=0):
    """Registers an arbitrary conversion function under key; returns the map it computes."""
    res = coeff_map('R_' + tag)

    def function(C, scale, parameters):
        log.append((tag, C, scale, parameters))
        return res
    if deco:
        got = (w.translator if what == 'translate' else w.matcher)(*key)(function)
        S.prove(what + '.decorator-returns-function', got is function)
    else:
        (w.Translator if what == 'translate' else w.Matcher)(*key, function)
    return res


def one(S, w, what, deco, first, read, withpar):
    w.Translator.clear_all()
    w.Matcher.clear_all()
    E, F, T, E2 = skey('eft'), skey('from'), skey('to'), skey('toeft')
    O1, O2, O3, O4 = (skey('o') for i in range(4))
    key = (E, F, T) if what == 'translate' else (E, F, E2, T)
    log = []
    # a different registered conversion, before or after
    okey = (O1, O2, O3) if what == 'translate' else (O1, O2, O4, O3)
    same = s_and(*[key_eq(a, b) for a, b in zip(key, okey)])
    CTX.engine.assume(s_not(same))
    if first:
        conv(S, w, what, okey, log, 'other')
        res = conv(S, w, what, key, log, 'f', deco)
    else:
        res = conv(S, w, what, key, log, 'f', deco)
        conv(S, w, what, okey, log, 'other')
    vals = file_values('values', ['float', 'both'])
    before, rbefore = vals.fn, res.fn
    mu = S.scale()
    wc = w.WC(E, F, mu, vals)
    if read:
        wc.dict
    if withpar:
        par = {'GF': Num.sym('p.GF', 'pos', ty='float')}
        psnap = dict(par)
        out = wc.translate(T, parameters=par) if what == 'translate' else wc.match(E2, T, parameters=par)
        S.prove(what + '.parameters-unchanged', len(par) == 1 and par['GF'] is psnap['GF'])
    else:
        par = None
        out = wc.translate(T) if what == 'translate' else wc.match(E2, T)
    S.prove(what + '.calls-the-registered-function-once', len(log) == 1 and log[0][0] == 'f')
    if not log:
        return
    _, C, scale, p = log[0]
    S.prove(what + '.passes-parameters', p is par or (isinstance(p, dict) and isinstance(par, dict) and same_par(p, par)))
    S.equal(what + '.passes-scale', scale, mu)
    S.prove(what + '.label-eft', key_eq(out.eft, E if what == 'translate' else E2))
    S.prove(what + '.label-basis', key_eq(out.basis, T))
    S.equal(what + '.scale', out.scale, mu)
    S.prove(what + '.new-object', out is not wc and out.values is not vals)
    q = skey('q')
    inV = bool(vals.contains(q))
    S.prove(what + '.passes-names', bool(C.contains(q)) == inV)
    if inV:
        kind, e, snap = vals.expected(q)
        S.equal(what + '.passes-value', C.at(q)[1](), e)
    inR = bool(res.contains(q))
    nz = inR and not bool(num_eq(res.value(q), 0))
    p1, v1 = out.values.at(q)
    S.prove(what + '.non-zero-only', bool(p1) == nz)
    p2, v2 = out.dict.at(q)
    S.prove(what + '.names', bool(p2) == nz)
    if nz and bool(p2):
        S.equal(what + '.value', v2(), res.value(q))
        x = v1()
        real = bool(num_eq(num(res.value(q)).imag, 0))
        S.prove(what + '.encoding', isinstance(x, dict) != real)
    # frame
    S.prove(what + '.input-label', key_eq(wc.eft, E) is True and key_eq(wc.basis, F) is True)
    S.equal(what + '.input-scale', wc.scale, mu)
    S.prove(what + '.input-values', wc.values is vals and vals.fn is before)
    if inV:
        S.prove(what + '.input-value-unchanged', unchanged(vals.value(q), snap))
        S.equal(what + '.input-number-unchanged', wc.dict.at(q)[1](), e)
    S.prove(what + '.function-result-unchanged', res.fn is rbefore)
    # again: same answer
    out2 = wc.translate(T, parameters=par) if what == 'translate' else wc.match(E2, T, parameters=par)
    p3, v3 = out2.dict.at(q)
    S.prove(what + '.again', bool(p3) == nz and len(log) == 2 and log[1][0] == 'f')
    if nz and bool(p3):
        S.equal(what + '.again-value', v3(), res.value(q))


def same_par(p, q):
    return len(p) == len(q) and all(k in q and p[k] is q[k] for k in p)


def missing(S, w, what, emptied):
    """No conversion under exactly this key: ValueError, whatever else is registered."""
    E, F, T, E2 = skey('eft'), skey('from'), skey('to'), skey('toeft')
    O = [skey('o') for i in range(4)]
    log = []
    key = (E, F, T) if what == 'translate' else (E, F, E2, T)
    okey = tuple(O[:3]) if what == 'translate' else tuple(O)
    CTX.engine.assume(s_not(s_and(*[key_eq(a, b) for a, b in zip(key, okey)])))
    w.Translator.clear_all()
    w.Matcher.clear_all()
    if not emptied:
        conv(S, w, what, okey, log, 'other')
    # a conversion of the other kind with the same names does not count
    if what == 'translate':
        conv(S, w, 'match', (E, F, E, T), log, 'x')
    else:
        conv(S, w, 'translate', (E, F, T), log, 'x')
    wc = w.WC(E, F, S.scale(), coeff_map('C'))
    try:
        if what == 'translate':
            wc.translate(T)
        else:
            wc.match(E2, T)
        r = 'returned'
    except ValueError:
        r = 'ValueError'
    S.prove(what + '.missing-raises-ValueError', r == 'ValueError' and not log)
