from native.matchlib import *


def run(R):
    setup(True)
    n = 0
    while R.time_left(25) and n < 50 * R.n and not R.failures:
        n += 1
        names = M.all_names() if n % 3 == 1 else jms.keys(last=bool(n % 2))
        reg('WET', 'JMS', names)
        flat = small_flat(R, 'all' if n == 1 else None)
        par, mu = rand_params(R), rand_scale(R)
        p0 = dict(par) if par else par
        data = dict(coefficients=flat, parameters=par, scale=mu)
        wc = wc_of('SMEFT', 'Warsaw up', mu, flat)
        before = dict(wc.dict)
        t = R.guard('match', lambda: wc.match('WET', 'JMS', parameters=par), **data)
        if t is R.FAILED:
            continue
        R.check('label', (t.eft, t.basis, t.scale) == ('WET', 'JMS', mu), '', **data)
        R.check('input-unchanged', wc.dict == before and par == p0, '', **data)
        R.check('only-JMS-names', set(t.dict) <= set(names), '%s' % sorted(set(t.dict) - set(names))[:4], **data)
        if n % 2:
            direct(R, wcxf.Matcher['SMEFT', 'Warsaw up', 'WET', 'JMS'], flat, mu, par, t.dict, **data)
        same(R, 'C', t.dict, expected(flat, par, names), **data)
        R.cases += 1
