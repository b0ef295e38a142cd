from native.wetlib import *


def run(R):
    setup(('WET',))
    n = 0
    while R.time_left(20) and n < 150 * R.n and not R.failures:
        n += 1
        par, mu = rand_params(R), rand_scale(R)
        flat = rand_flat(R, jms.keys(), jms.is_real, 'all' if n == 1 else None)
        data = dict(params=par, scale=mu, coefficients=flat)
        p = running(par, mu)
        V = ckm(p)
        wc = wc_of('WET', 'JMS', mu, flat)
        for b, spec in (('EOS', wet.eos), ('formflavor', wet.formflavor)):
            out = R.guard('translate-' + b, lambda: wc.translate(b, parameters=par).dict, **data)
            if out is not R.FAILED:
                compare(R, b, out, spec(jms.Tensor(flat), p, V, Ops), **data)
                if n % 8 == 0:
                    direct(R, wcxf.Translator['WET', 'JMS', b], flat, mu, par, out, **data)
        R.check('input-unchanged', wc.dict == flat, '', **data)
        R.cases += 1
