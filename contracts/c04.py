"""Basis inheritance over arbitrary (unbounded) sector tables."""
from .maplib import *


def run(S):
    w = S.mod('wcxf')
    for n in ('plain', 'all', 'all-parent-read', 'grandchild', 'same-name'):
        S.explore(lambda: child(S, w, n), n)
    for n in (0, 1):
        S.explore(lambda: missing(S, w, n), 'missing parent')


def label(n):
    """An arbitrary name that is not a sector or coefficient of interest."""
    return SStr.fresh('%s%d' % (n, CTX.engine.fresh_id()))


def clear(w):
    w.Basis.clear_all()


def inner(m, s):
    """(present, inner map) of a sector table at s"""
    p, v = m.at(s)
    return (True, v()) if bool(p) else (False, None)


def check_sectors(S, tag, sectors, layers, s, k):
    """sectors = the layers merged, later layers replacing whole sectors."""
    p, got = inner(sectors, s)
    exp = None
    for m in reversed(layers):
        q, x = inner(m, s)
        if q:
            exp = x
            break
    S.prove(tag + '.sector-present', p == (exp is not None))
    if p and exp is not None:
        S.prove(tag + '.sector-content', got is exp or bool(got.contains(k)) == bool(exp.contains(k)))
        if got is not exp and bool(exp.contains(k)) and bool(got.contains(k)):
            S.prove(tag + '.coefficient-definition', True if got.at(k)[1]() is exp.at(k)[1]() else False)
    return exp


def in_layers(layers, s, k):
    r = False
    for m in layers:
        r = s_or(m.member2(s, k), s_and(s_not(m.contains(s)), r))
    return r


def check_all(S, tag, basis, layers, k):
    got = bool(basis.all_wcs.contains(k))
    exp = exists(lambda s: in_layers(layers, s, k), 0, (tag, 'all', str(k)))
    S.prove(tag + '.all_wcs', got == exp)
    got2 = bool(basis.all_wcs.contains(k))
    S.prove(tag + '.all_wcs-again', got2 == exp)


def child(S, w, case):
    clear(w)
    E, P, B, E2 = label('eft'), label('parent'), label('child'), label('eft2')
    if case == 'same-name':
        B = P
    else:
        CTX.engine.assume(s_not(key_eq(P, B)))
    CTX.engine.assume(s_not(key_eq(E, E2)))
    ps, own, other = sectors_map('ps'), sectors_map('own'), sectors_map('other')
    pf, of = ps.fn, own.fn
    # a basis of another EFT with the same name does not count
    w.Basis(E2, P, other)
    par = w.Basis(E, P, ps)
    s, k = label('s'), skey('k')
    if case == 'all-parent-read':
        check_all(S, 'parent-before', par, [ps], k)
    b = w.Basis(E, B, own, parent=P, metadata={'x': 1})
    S.prove(case + '.registered', w.Basis[E, B] is b)
    S.prove(case + '.label', key_eq(b.eft, E) is True and key_eq(b.basis, B) is True and key_eq(b.parent, P) is True
            and b.metadata == {'x': 1})
    if not case.startswith('all'):
        check_sectors(S, case + '.child', b.sectors, [ps, own], s, k)
    S.prove(case + '.parent-sectors-unchanged', par.sectors is ps and ps.fn is pf)
    S.prove(case + '.own-sectors-unchanged', own.fn is of)
    if case.startswith('all'):
        check_all(S, case + '.child', b, [ps, own], k)
        check_all(S, case + '.parent-after', par, [ps], k)
    if case == 'plain':
        S.prove('plain.basis-without-parent', w.Basis[E, P] is par)
    if case == 'grandchild':
        G = label('grandchild')
        third = sectors_map('third')
        g = w.Basis(E, G, third, parent=B)
        check_sectors(S, case + '.grandchild', g.sectors, [ps, own, third], s, k)
        check_sectors(S, case + '.child-after', b.sectors, [ps, own], s, k)
        S.prove(case + '.parent-after', par.sectors is ps and ps.fn is pf)


def missing(S, w, n):
    clear(w)
    E, P, B, E2 = label('eft'), label('parent'), label('child'), label('eft2')
    CTX.engine.assume(s_not(key_eq(E, E2)))
    old = None
    if n:
        w.Basis(E2, P, sectors_map('other'))
        if CTX.engine.decide(SBool(z3.Bool('existing'))):
            CTX.engine.assume(s_not(key_eq(B, P)))
            old = w.Basis(E, B, sectors_map('old'))
    own = sectors_map('own')
    of = own.fn
    try:
        w.Basis(E, B, own, parent=P)
        r = 'created'
    except ValueError:
        r = 'ValueError'
    S.prove('missing.raises-ValueError', r == 'ValueError')
    try:
        got = w.Basis[E, B]
    except (KeyError, AttributeError):
        got = None
    S.prove('missing.nothing-registered', got is old)
    S.prove('missing.own-unchanged', own.fn is of)
