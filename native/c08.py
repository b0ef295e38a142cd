from native.wetlib import *


def lagr(R, name, eqs, **data):
    for k, A, B in eqs:
        a = sum(complex(c) * complex(float(w[0]), float(w[1])) for c, w in A)
        b = sum(complex(c) * complex(float(w[0]), float(w[1])) for c, w in B)
        s = sum(abs(complex(c)) * abs(complex(float(w[0]), float(w[1]))) for c, w in A + B)
        if not R.close('%s%s' % (name, list(k)), b, a, floor=s, **data):
            return


def run(R):
    setup()
    sectors = wet.GENERIC + wet.RED_PL + wet.RED_PR
    n = 0
    while R.time_left(25) and n < 80 * R.n and not R.failures:
        n += 1
        eft = R.rng.choice(['WET', 'WET', 'WET-4', 'WET-3'])
        par, mu = rand_params(R), rand_scale(R)
        flat = rand_flat(R, jms.keys(), jms.is_real, 'all' if n == 1 else None)
        data = dict(eft=eft, params=par, scale=mu, coefficients=flat)
        p = running(par, mu)
        V = ckm(p)
        T = jms.Tensor(flat)
        wc = wc_of(eft, 'JMS', mu, flat)
        out = R.guard('translate-Bern', lambda: wc.translate('Bern', parameters=par).dict, **data)
        if out is not R.FAILED:
            compare(R, 'Bern', out, wet.bern_simple(T, p, V, Ops), closed=False, **data)
            R.check('Bern-names', set(out) <= set(wet.bern_keys()), 'unknown names', **data)
            n4 = 4 * p['GF'] / math.sqrt(2)
            for q in sectors:
                lagr(R, 'Bern.' + q, wet.quark_sector_equations(T, lambda k: n4 * out.get(k, 0), q), **data)
        out = R.guard('translate-flavio', lambda: wc.translate('flavio', parameters=par).dict, **data)
        if out is not R.FAILED:
            compare(R, 'flavio', out, wet.flavio(T, p, V, Ops), **data)
            if n % 4 == 0:
                direct(R, wcxf.Translator[eft, 'JMS', 'flavio'], flat, mu, par, out, **data)
        R.check('input-unchanged', wc.dict == flat, 'input coefficients changed', **data)
        R.cases += 1
