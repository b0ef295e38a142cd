"""Decoding and encoding of coefficient values on the real code."""
from collections import OrderedDict
import copy
import math
import numpy as np
import wcxf


def rnd(R):
    r = R.rng
    c = r.random()
    if c < .15:
        return 0.0
    if c < .25:
        return float(r.randint(-5, 5))
    if c < .35:
        return r.choice([5e-324, 2.2e-308, 1.7e308, -1.7e308, 1e-300, 1e22, 0.1, 1 / 3., -1e-17, 1e16 + 2, 2.0 ** 53, 123456789.123456789])
    return (1 if r.random() < .5 else -1) * r.random() * 10.0 ** r.uniform(-30, 30)


def run(R):
    r = R.rng
    names = [s for s in R.hints()[0] if s.strip()] + ['C9_bsmumu', 'Re', 'Im', '', 'a b', 'é', '_x', 'phil1_11']
    n = 0
    while R.time_left(8) and n < 8000 * R.n and not R.failures:
        n += 1
        vals, exp = (OrderedDict() if r.random() < .5 else {}), {}
        for k in r.sample(names, r.choice([0, 1, 1, 2, 5, min(20, len(names))])):
            a, b = rnd(R), rnd(R)
            c = r.randrange(10)
            D = OrderedDict if r.random() < .5 else dict
            if c == 0:
                vals[k], exp[k] = a, a
            elif c == 1:
                i = r.randint(-10 ** 6, 10 ** 6)
                vals[k], exp[k] = i, float(i)
            elif c == 2:
                vals[k], exp[k] = repr(a), a
            elif c == 3:
                vals[k], exp[k] = D([('Re', a), ('Im', b)]), complex(a, b)
            elif c == 4:
                vals[k], exp[k] = D([('Im', b), ('Re', a)]), complex(a, b)
            elif c == 5:
                vals[k], exp[k] = D([('Re', a)]), complex(a, 0)
            elif c == 6:
                vals[k], exp[k] = D([('Im', b)]), complex(0, b)
            elif c == 7:
                vals[k], exp[k] = D(), 0
            elif c == 8:
                vals[k], exp[k] = D([('Re', repr(a)), ('Im', repr(b))]), complex(a, b)
            else:
                i = r.randint(-9, 9)
                vals[k], exp[k] = D([('Re', i), ('Im', b)]), complex(i, b)
        snap = copy.deepcopy(vals)
        data = dict(values=snap)

        def body():
            wc = wcxf.WC('E', 'B', rnd(R), vals)
            d1 = dict(wc.dict)
            d2 = dict(wc.dict)
            wc2 = wcxf.WC('E2', 'B2', 1, vals)
            return wc, d1, d2, dict(wc2.dict)
        out = R.guard('decode', body, **data)
        if out is R.FAILED:
            break
        wc, d1, d2, d3 = out
        R.check('decode.value', d1 == exp, 'got %r' % {k: d1.get(k, 'absent') for k in set(exp) | set(d1) if d1.get(k, 'absent') != exp.get(k, 'absent')}, **data)
        R.check('decode.again', d2 == exp and d3 == exp, 'a later read differs: %r %r' % (d2, d3), **data)
        R.check('decode.numbers', all(isinstance(x, (float, complex)) for x in d1.values()), '%r' % d1, **data)
        R.check('decode.values-unchanged', wc.values is vals and vals == snap and repr(vals) == repr(snap), '%r' % wc.values, **data)
        # encode
        src = {}
        for k in r.sample(names, r.choice([0, 1, 2, 5, 20])):
            a, b = rnd(R), rnd(R)
            src[k] = r.choice([a, complex(a, b), complex(a, 0), complex(0, b), np.float64(a), np.complex128(complex(a, b)),
                               r.randint(-10 ** 6, 10 ** 6), np.complex128(a), 0, 0j])
        ssnap = dict(src)
        v = R.guard('encode', lambda: wcxf.WC.dict2values(src), numbers=ssnap)
        if v is R.FAILED:
            break
        R.check('encode.names', set(v) == set(src), '%r' % v, numbers=ssnap)
        R.check('encode.input-unchanged', src == ssnap, '%r' % src, numbers=ssnap)
        for k in set(v) & set(src):
            z, x = complex(src[k]), v[k]
            if z.imag == 0:
                R.check('encode.real', type(x) is float and x == z.real, '%s: %r' % (k, x), numbers=ssnap)
            else:
                R.check('encode.complex', isinstance(x, dict) and set(x) == {'Re', 'Im'} and type(x['Re']) is float and type(x['Im']) is float
                        and x['Re'] == z.real and x['Im'] == z.imag, '%s: %r' % (k, x), numbers=ssnap)
        back = R.guard('roundtrip', lambda: wcxf.WC('E', 'B', 1, v).dict, numbers=ssnap)
        if back is not R.FAILED:
            R.check('roundtrip', dict(back) == src, '%r' % back, numbers=ssnap)
        R.cases += 1
