"""Running coupling and masses on the real code, histories of calls."""
import math
import rundec
import wcxf.util.qcd as qcd
from spec import qcd as Q


def rd(method, *args):
    c = rundec.CRunDec()
    a = []
    for x in args:
        if isinstance(x, tuple):
            c.nfMmu.Mth, c.nfMmu.muth, c.nfMmu.nf = x
            x = c.nfMmu
        a.append(x)
    return getattr(c, method)(*a)


def eq(a, b):
    return a == b


def run(R):
    r = R.rng
    hints = [float(x) for x in R.hints()[1] if 0.9 < abs(x) < 1e4]
    n = 0
    seen = []
    while R.time_left(12) and n < 4000 * R.n and not R.failures:
        n += 1
        fn = r.choice(['alpha_s', 'm_b', 'm_c', 'm_s'])
        f = r.choice([3, 4, 5, 6])
        mass = {'alpha_s': None, 'm_b': r.choice([4.18, 4.2, r.uniform(3.5, 5)]), 'm_c': r.choice([1.275, 1.3, r.uniform(1.1, 1.5)]),
                'm_s': r.choice([.095, .1, r.uniform(.05, .2)])}[fn]
        lo = {3: 1.0, 4: 1.2, 5: 3.5, 6: 100}[f]
        scale = r.choice([r.uniform(lo, 10 * lo), r.uniform(lo, 5), 91.1876, 2, 2.0, 1.3, 4.8, 170, mass if mass and mass > 1 else 160.,
                          math.exp(r.uniform(math.log(lo), math.log(1e4))), r.choice(hints), r.randint(2, 200)])
        if scale < 1:
            scale = 1.0
        a = r.choice([None, .1185, r.uniform(.112, .125)])
        args = ([] if fn == 'alpha_s' else [mass]) + [scale, f] + ([] if a is None else [a])
        if seen and r.random() < .3:
            fn, args = r.choice(seen)
        exp = getattr(Q, fn)(rd, eq, *args)
        data = dict(call='%s%r' % (fn, tuple(args)), after=n)
        F = getattr(qcd, fn)
        if exp is None:
            R.guard('undefined-flavour-number', lambda: F(*args), expect=ValueError, **data)
            continue
        if not (isinstance(exp, (int, float)) and math.isfinite(exp)):
            continue
        kw = r.random() < .2 and len(args) == (3 if fn == 'alpha_s' else 4)
        got = R.guard('value', lambda: F(*args[:-1], alphasMZ=args[-1]) if kw else F(*args), **data)
        if got is R.FAILED:
            break
        R.close('value', got, exp, tol=1e-10, **data)
        ref = {'alpha_s': (5, 91.1876), 'm_b': (5, args[0]), 'm_c': (4, args[0]), 'm_s': (3, 2)}[fn]
        ff, ss = (args[1], args[0]) if fn == 'alpha_s' else (args[2], args[1])
        if (ff, ss) == ref:
            R.check('reference', got == ((args[2] if len(args) > 2 else 0.1185) if fn == 'alpha_s' else args[0]), 'got %r' % got, **data)
        seen.append((fn, args))
        R.cases += 1
        # bad arguments
        b = list(args)
        i = 0 if fn == 'alpha_s' else 1
        if r.random() < .3:
            c = r.random()
            if c < .5:
                b[i + 1] = r.choice([-1, 0, 1, 2, 7, 8, 12, 3.5, '5', None])
            else:
                b[i] = r.choice([0, 0.0, -1, -91.1876, -1e-9, '100', None])
            R.guard('bad-arguments', lambda: F(*b), expect=ValueError, call='%s%r' % (fn, tuple(b)))
