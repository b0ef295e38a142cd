from native.matchlib import *


def run(R):
    setup(False)
    n = 0
    for b, k in (('JMS', jms.keys()), ('flavio', wet.flavio_keys()), ('Bern', wet.bern_keys())):
        reg('WET', b, k)
    while R.time_left(25) and n < 40 * R.n and not R.failures:
        n += 1
        flat = small_flat(R, 'all' if n == 1 else None)
        par, mu = rand_params(R), rand_scale(R)
        p0 = dict(par) if par else par
        data = dict(coefficients=flat, parameters=par, scale=mu)
        wc = wc_of('SMEFT', 'Warsaw', mu, flat)
        before = dict(wc.dict)
        up = R.guard('translate', lambda: wc.translate('Warsaw up', parameters=par), **data)
        if up is R.FAILED:
            continue
        ref = R.guard('match up', lambda: up.match('WET', 'JMS', parameters=par), **data)
        got = R.guard('match', lambda: wc.match('WET', 'JMS', parameters=par), **data)
        if ref is R.FAILED or got is R.FAILED:
            continue
        R.check('label', (got.eft, got.basis, got.scale) == ('WET', 'JMS', mu), '', **data)
        same(R, 'JMS', got.dict, ref.dict, **data)
        for b in ('flavio', 'Bern', 'EOS'):
            t = R.guard('match ' + b, lambda: wc.match('WET', b, parameters=par), **data)
            e = R.guard('translate ' + b, lambda: got.translate(b, parameters=par), **data)
            if t is R.FAILED or e is R.FAILED:
                continue
            R.check('label', (t.eft, t.basis, t.scale) == ('WET', b, mu), '', **data)
            if n % 3 == 0:
                direct(R, wcxf.Matcher['SMEFT', 'Warsaw', 'WET', b], flat, mu, par, t.dict, **data)
            compare(R, b, t.dict, e.dict, tol=1e-6, rel=1e-6, **data)
        R.check('input-unchanged', wc.dict == before and par == p0, '', **data)
        R.cases += 1
