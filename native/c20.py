from native.wetlib import *
from spec import flavorkit as fk

KEYS = {'JMS': (jms.keys, jms.is_real), 'Bern': (wet.bern_keys, lambda k: False),
        'flavio': (wet.flavio_keys, lambda k: False),
        'FlavorKit': (lambda: fk.NAMES, lambda k: jms.is_real(fk.target(k)[0]))}


def run(R):
    setup()
    reg('WET', 'FlavorKit', fk.NAMES)
    todo = [k for k in wcxf.Translator.instances if k[0].startswith('WET') and k[1] in KEYS]
    R.coverage['translators'] = len(todo)
    n = 0
    while R.time_left(25) and n < 40 * R.n and not R.failures:
        n += 1
        for t in todo:
            keys, real = KEYS[t[1]]
            par, mu = rand_params(R), rand_scale(R)
            a = R.rng.choice([-1.0, 2.0, 0.5, -3.0, 1e-6, 1e6, R.rng.uniform(-5, 5)])
            A, B = rand_flat(R, keys(), real), rand_flat(R, keys(), real)
            X = dict(B)
            for k, v in A.items():
                X[k] = a * v + B.get(k, 0)
            tr = lambda c: wc_of(t[0], t[1], mu, c).translate(t[2], parameters=par).dict
            data = dict(translator=str(t), params=par, scale=mu, factor=a, A=A, B=B)
            r = R.guard('translate', lambda: (tr(X), tr(A), tr(B), tr({})), **data)
            if r is R.FAILED:
                continue
            o, oA, oB, z = r
            for k in set(o) | set(oA) | set(oB):
                x, y = a * oA.get(k, 0), oB.get(k, 0)
                # rounding: relative to the largest contribution to this coefficient
                if not R.close('linear[%s]' % k, o.get(k, 0), x + y, tol=1e-6, floor=1e-7 * max(
                        [abs(a * v) for v in oA.values()] + [abs(v) for v in oB.values()] + [0]), **data):
                    break
            R.check('zero', not z, 'empty input gives %s' % list(z.items())[:3], **data)
            R.cases += 1
