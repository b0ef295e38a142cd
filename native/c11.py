from native.smeftlib import *

PAIRS = (('Warsaw', 'Warsaw up'), ('Warsaw up', 'Warsaw'))


def run(R):
    r = R.rng
    n = 0
    allk = smeft.all_keys()
    while R.time_left(20) and n < 40 * R.n and not R.failures:
        n += 1
        full = n % 2
        for b in ('Warsaw', 'Warsaw up', 'Warsaw mass'):
            reg('SMEFT', b, allk if full else smeft.keys())
        flat = rand_flat(R, smeft.keys(), smeft.is_real, 'all' if n == 1 else None)
        par, mu = rand_params(R), rand_scale(R)
        V = ckm(eff(par))
        M = np.array(V)
        R.check('unitary', np.allclose(M @ M.conj().T, np.eye(3), atol=1e-12), '')
        for a, b in PAIRS:
            data = dict(pair=a + ' -> ' + b, coefficients=flat, parameters=par, scale=mu)
            wc = wc_of('SMEFT', a, mu, flat)
            p0 = dict(par) if par else par
            t = R.guard('translate', lambda: wc.translate(b, parameters=par), **data)
            if t is R.FAILED:
                continue
            R.check('parameters-unchanged', par == p0, '', **data)
            R.check('label', (t.eft, t.basis, t.scale) == ('SMEFT', b, mu), '', **data)
            U = smeft.dagger(V) if b == 'Warsaw up' else V
            names = allk if full else smeft.keys()
            compare(R, b, t.dict, smeft.rotated_flat(flat, U, names), rel=1e-4, **data)
            if n % 2 == 0:
                direct(R, wcxf.Translator['SMEFT', a, b], flat, mu, par, t.dict, **data)
            # and back
            wcxf.Basis('SMEFT', a, {'all': {k: {} for k in smeft.keys()}})
            ind = {k: v for k, v in t.dict.items() if k in IND}
            back = R.guard('back', lambda: wc_of('SMEFT', b, mu, ind).translate(a, parameters=par).dict, **data)
            if back is not R.FAILED:
                compare(R, 'back.' + a, {k: v for k, v in back.items() if k in IND},
                        {k: complex(v) for k, v in flat.items()}, rel=1e-4, **data)
            reg('SMEFT', a, allk if full else smeft.keys())
        if n % 4 == 0:
            # any target basis: only its names
            some = [k for k in allk if r.random() < .3]
            reg('SMEFT', 'Warsaw up', some)
            o = R.guard('translate', lambda: wc_of('SMEFT', 'Warsaw', mu, flat).translate('Warsaw up', parameters=par).dict)
            if o is not R.FAILED:
                R.check('only-target', set(o) <= set(some), '%s' % sorted(set(o) - set(some))[:4])
        R.cases += 1


IND = set(smeft.keys())
