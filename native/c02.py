"""Labels and completeness of translation and matching on the real code."""
import copy
import numpy as np
import wcxf
from native.c01 import rnd

NAMES = ['E', 'E1', 'WET', 'SMEFT', 'B', 'B 2', 'flavio', 'Warsaw', 'WET-4', 'JMS']


def number(R):
    r = R.rng
    a, b = rnd(R), rnd(R)
    return r.choice([a, complex(a, b), complex(0, b), complex(a, 0), np.float64(a), np.complex128(complex(a, b)), 0, 0.0, 0j,
                     np.complex128(0), r.randint(-9, 9), 1e-300, complex(1e-200, 1e-320), np.complex128(1e-30j)])


def run(R):
    r = R.rng
    hints = [s for s in R.hints()[0] if s.strip()] + ['x', 'C9_bsmumu']
    n = 0
    while R.time_left(10) and n < 1000 * R.n and not R.failures:
        n += 1
        saved = wcxf.Translator.instances, wcxf.Matcher.instances
        if r.random() < .7:
            wcxf.Translator.clear_all()
            wcxf.Matcher.clear_all()
        reg = {}
        for kind, arity in (('t', 3), ('m', 4)):
            for _ in range(r.randint(1, 4)):
                key = tuple(r.choice(NAMES) for _ in range(arity))
                res = {k: number(R) for k in r.sample(hints, r.choice([0, 1, 3, 10]))}
                log = []

                def f(C, scale, parameters, res=res, log=log):
                    log.append((dict(C), scale, parameters))
                    return res
                if r.random() < .5:
                    g = (wcxf.translator if kind == 't' else wcxf.matcher)(*key)(f)
                    R.check('decorator', g is f, 'decorator changed the function', key=key)
                else:
                    (wcxf.Translator if kind == 't' else wcxf.Matcher)(*key, f)
                reg[kind, key] = (res, log)
        for (kind, key), (res, log) in list(reg.items()):
            flat = {k: number(R) for k in r.sample(hints, r.choice([0, 1, 5]))}
            values = {}
            for k, v in flat.items():
                z = complex(v)
                values[k] = z.real if z.imag == 0 and r.random() < .7 else {'Re': z.real, 'Im': z.imag}
            mu = r.choice([1, 4.8, 91.1876, 160, 1e3, r.uniform(.5, 1e4)])
            par = r.choice([None, {}, {'Vus': .2}, {'GF': 1e-5, 'zz': 3}])
            vsnap, psnap, rsnap = copy.deepcopy(values), copy.deepcopy(par), dict(res)
            wc = wcxf.WC(key[0], key[1], mu, values)
            if r.random() < .5:
                wc.dict
            data = dict(conversion=str(key), values=vsnap, function_result=rsnap, scale=mu, parameters=str(par))
            before = len(log)
            pub = dict((k, v) for k, v in wc.__dict__.items() if not k.startswith('_'))

            def go():
                a = key[2:]
                m = wc.translate if kind == 't' else wc.match
                return m(*a) if par is None and r.random() < .5 else m(*a, parameters=par)
            out = R.guard('convert', go, **data)
            if out is R.FAILED:
                break
            R.check('label', (out.eft, out.basis, out.scale) == (key[0] if kind == 't' else key[2], key[-1], float(mu)),
                    'got %r' % ((out.eft, out.basis, out.scale),), **data)
            exp = {k: complex(v) for k, v in rsnap.items() if v != 0}
            R.check('content', {k: complex(v) for k, v in out.dict.items()} == exp, 'got %r expected %r' % (out.dict, exp), **data)
            R.check('values', set(out.values) == set(exp), 'names in the file: %r' % sorted(out.values), **data)
            R.check('called', len(log) == before + 1, 'function called %d times' % (len(log) - before), **data)
            if len(log) > before:
                C, s, p = log[-1]
                R.check('arguments', {k: complex(v) for k, v in C.items()} == {k: complex(v) for k, v in flat.items()}
                        and s == float(mu) and p == psnap, 'function got %r %r %r' % (C, s, p), **data)
            R.check('input-unchanged', wc is not out and values == vsnap and wc.values is values
                    and dict((k, v) for k, v in wc.__dict__.items() if not k.startswith('_')) == pub
                    and {k: complex(v) for k, v in wc.dict.items()} == {k: complex(v) for k, v in flat.items()}
                    and par == psnap and res == rsnap, 'input changed', **data)
            # converting twice and with an equal input gives the same
            out2 = R.guard('again', go, **data)
            if out2 is not R.FAILED:
                R.check('again', out2.dict == out.dict and out2.values == out.values, 'second conversion differs', **data)
            # not registered
            miss = tuple(r.choice(NAMES) for _ in key)
            if miss not in (wcxf.Translator.instances if kind == 't' else wcxf.Matcher.instances):
                w2 = wcxf.WC(miss[0], miss[1], mu, values)
                R.guard('missing', lambda: (w2.translate if kind == 't' else w2.match)(*miss[2:]), expect=ValueError, key=miss)
            R.cases += 1
        wcxf.Translator.instances, wcxf.Matcher.instances = saved
    real(R)


def real(R):
    """The conversions that ship with the package."""
    from native import wetlib as L, smeftlib as L2
    L.setup(('WET', 'WET-4', 'WET-3', 'WET-2'))
    L2.setup(True)
    r = R.rng
    for key in list(wcxf.Translator.instances):
        flat = {}
        wc = wcxf.WC(key[0], key[1], 91.1876, {})
        out = R.guard('shipped', lambda: wc.translate(key[2]), key=key)
        if out is not R.FAILED:
            R.check('shipped.label', (out.eft, out.basis, out.scale) == (key[0], key[2], 91.1876), '%r' % out, key=key)
            R.check('shipped.zero', all(v != 0 for v in out.dict.values()), '%r' % out.dict, key=key)
    for key in list(wcxf.Matcher.instances):
        wc = wcxf.WC(key[0], key[1], 91.1876, {})
        out = R.guard('shipped', lambda: wc.match(key[2], key[3]), key=key)
        if out is not R.FAILED:
            R.check('shipped.label', (out.eft, out.basis, out.scale) == (key[2], key[3], 91.1876), '%r' % out, key=key)
            R.check('shipped.zero', all(v != 0 for v in out.dict.values()), '%r' % out.dict, key=key)
