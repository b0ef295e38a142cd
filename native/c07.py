from native.wetlib import *


def run(R):
    setup()
    n = 0
    while R.time_left(20) and n < 400 * R.n and not R.failures:
        n += 1
        eft = R.rng.choice(['WET', 'WET', 'WET-4', 'WET-3'])
        par, mu = rand_params(R), rand_scale(R)
        data = dict(eft=eft, params=par, scale=mu)
        p = running(par, mu)
        V = ckm(p)
        flat = rand_flat(R, wet.bern_keys(), mode='all' if n == 1 else None)
        wc = wc_of(eft, 'Bern', mu, flat)
        out = R.guard('Bern-flavio', lambda: wc.translate('flavio', parameters=par).dict, coefficients=flat, **data)
        if out is not R.FAILED:
            if n % 4 == 1:
                direct(R, wcxf.Translator[eft, 'Bern', 'flavio'], flat, mu, par, out, coefficients=flat, **data)
            compare(R, 'flavio', out, wet.flavio_from_bern(Acc(flat), p, V, Ops), coefficients=flat, **data)
            R.check('input-unchanged', wc.dict == flat, '', coefficients=flat, **data)
        flat = rand_flat(R, wet.flavio_keys(), mode='all' if n == 1 else None)
        wc = wc_of(eft, 'flavio', mu, flat)
        bern = R.guard('flavio-Bern', lambda: wc.translate('Bern', parameters=par), coefficients=flat, **data)
        if bern is not R.FAILED:
            if n % 4 == 0:
                direct(R, wcxf.Translator[eft, 'flavio', 'Bern'], flat, mu, par, bern.dict, coefficients=flat, **data)
            compare(R, 'Bern', bern.dict, wet.bern_from_flavio(Acc(flat), p, V, Ops), coefficients=flat, **data)
            back = R.guard('flavio-Bern-flavio', lambda: bern.translate('flavio', parameters=par).dict, coefficients=flat, **data)
            if back is not R.FAILED:
                compare(R, 'round-trip', back, flat, coefficients=flat, **data)
        R.cases += 1
