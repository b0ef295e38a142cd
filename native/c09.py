from native.wetlib import *
from spec import flavorkit as fk


def run(R):
    setup(('WET',))
    reg('WET', 'FlavorKit', fk.NAMES)
    covered = {fk.target(k)[0] for k in fk.NAMES}
    real = lambda k: jms.is_real(fk.target(k)[0])
    n = 0
    while R.time_left(15) and n < 150 * R.n and not R.failures:
        n += 1
        par, mu = rand_params(R), rand_scale(R)
        p = running(par, mu)
        V = ckm(p)
        flat = rand_flat(R, fk.NAMES, real, 'all' if n == 1 else None)
        data = dict(params=par, scale=mu, coefficients=flat)
        wc = wc_of('WET', 'FlavorKit', mu, flat)
        out = R.guard('FlavorKit-JMS', lambda: wc.translate('JMS', parameters=par), **data)
        if out is not R.FAILED:
            if n % 4 == 0:
                direct(R, wcxf.Translator['WET', 'FlavorKit', 'JMS'], flat, mu, par, out.dict, **data)
            compare(R, 'JMS', out.dict, fk.to_jms(flat, p, Ops), **data)
            back = R.guard('back', lambda: out.translate('FlavorKit', parameters=par).dict, **data)
            if back is not R.FAILED:
                compare(R, 'FlavorKit-JMS-FlavorKit', back, flat, **data)
        fl = R.guard('FlavorKit-flavio', lambda: wc.translate('flavio', parameters=par).dict, **data)
        if fl is not R.FAILED:
            compare(R, 'flavio', fl, wet.flavio(jms.Tensor(fk.to_jms(flat, p, Ops)), p, V, Ops), **data)
        R.check('input-unchanged', wc.dict == flat, '', **data)
        flat = rand_flat(R, jms.keys(), jms.is_real, 'all' if n == 1 else None)
        data = dict(params=par, scale=mu, coefficients=flat)
        wc = wc_of('WET', 'JMS', mu, flat)
        out = R.guard('JMS-FlavorKit', lambda: wc.translate('FlavorKit', parameters=par), **data)
        if out is not R.FAILED:
            if n % 4 == 0:
                direct(R, wcxf.Translator['WET', 'JMS', 'FlavorKit'], flat, mu, par, out.dict, **data)
            compare(R, 'FlavorKit', out.dict, fk.from_jms(flat, p, Ops), **data)
            back = R.guard('back', lambda: out.translate('JMS', parameters=par).dict, **data)
            if back is not R.FAILED:
                compare(R, 'JMS-FlavorKit-JMS', back, {k: v for k, v in flat.items() if k in covered}, **data)
        R.cases += 1
    for bad in ('XVLL_1211', 'DVLL_9999', 'AVLL_22310', 'VddLL_1223', 'Q1R_11', 'K1R_12', 'dgamma_12', 'GVLL_31'):
        wc = wc_of('WET', 'FlavorKit', 100., {bad: 1.})
        R.guard('unknown-name', lambda: wc.translate('JMS'), expect=ValueError, name_=bad)
        R.guard('unknown-name-flavio', lambda: wc.translate('flavio'), expect=ValueError, name_=bad)
