"""Running coupling and masses; CRunDec methods are uninterpreted functions of
their arguments and of the threshold record."""
from .common import *
from pyvc.models import CRunDecModel, _NfMmu
from spec import qcd as Q


def rd(method, *args):
    a = []
    for x in args:
        if isinstance(x, tuple):
            t = _NfMmu()
            t.Mth, t.muth, t.nf = x
            x = t
        a.append(x)
    return getattr(CRunDecModel(), method)(*a)


def eq(a, b):
    return bool(num(a) == num(b))


FN = ['alpha_s', 'm_b', 'm_c', 'm_s']


def run(S):
    m = S.mod('wcxf.util.qcd')
    for fn in FN:
        for f in (3, 4, 5, 6):
            for given in (0, 1):
                S.explore(lambda: value(S, m, fn, f, given), '%s f=%d' % (fn, f))
        for f in (-1, 0, 1, 2, 7, 8, 100):
            S.explore(lambda: bad_f(S, m, fn, f), '%s f=%d' % (fn, f))
        for f in (3, 4, 5, 6):
            S.explore(lambda: bad_scale(S, m, fn, f), '%s scale<=0' % fn)
    S.assumed.append('CRunDec methods: pure functions of their arguments and the threshold record')
    S.assumed.append('functools.lru_cache: returns what the function returns (histories are run natively)')


def call(m, fn, mass, scale, f, a):
    args = ([] if fn == 'alpha_s' else [mass]) + [scale, f] + ([] if a is None else [a])
    return getattr(m, fn)(*args)


def spec(fn, mass, scale, f, a):
    args = ([] if fn == 'alpha_s' else [mass]) + [scale, f] + ([] if a is None else [a])
    return getattr(Q, fn)(rd, eq, *args)


def value(S, m, fn, f, given):
    scale, mass = S.scale(), Num.sym('m', 'pos', ty='float')
    a = Num.sym('alphasMZ', 'pos', ty='float') if given else None
    n = len(S.eng.calls)
    exp = spec(fn, mass, scale, f, a)
    tag = '%s.f=%d' % (fn, f)
    if exp is None:
        try:
            call(m, fn, mass, scale, f, a)
            r = 'returned'
        except ValueError:
            r = 'ValueError'
        S.prove(tag + '.raises-ValueError', r == 'ValueError')
        return
    got = call(m, fn, mass, scale, f, a)
    S.equal(tag, got, exp)
    # again, and after a call with other arguments
    call(m, fn, Num.sym('m2', 'pos', ty='float'), Num.sym('scale2', 'pos', ty='float'), f, a)
    S.equal(tag + '.again', call(m, fn, mass, scale, f, a), exp)


def bad_f(S, m, fn, f):
    scale, mass = S.scale(), Num.sym('m', 'pos', ty='float')
    try:
        call(m, fn, mass, scale, f, None)
        r = 'returned'
    except ValueError:
        r = 'ValueError'
    S.prove('%s.f-out-of-range' % fn, r == 'ValueError')


def bad_scale(S, m, fn, f):
    scale, mass = Num.sym('scale', 'real', ty='float'), Num.sym('m', 'pos', ty='float')
    CTX.engine.assume(scale <= 0)
    try:
        call(m, fn, mass, scale, f, None)
        r = 'returned'
    except ValueError:
        r = 'ValueError'
    S.prove('%s.scale-out-of-range' % fn, r == 'ValueError')
