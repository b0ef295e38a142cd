from native.smeftlib import *

ROT = ('uphi', 'uG', 'uW', 'uB')


def run(R):
    setup(True)
    n = 0
    while R.time_left(15) and n < 300 * R.n and not R.failures:
        n += 1
        flat = rand_flat(R, smeft.keys(), smeft.is_real, 'all' if n == 1 else None)
        if n % 3 == 0:
            flat = {k: v for k, v in flat.items() if k.split('_')[0] not in R.rng.sample(ROT, 2)}
        if n % 4 == 0:
            flat = rand_flat(R, smeft.keys(['llphiphi', 'uphi', 'uG', 'uW', 'uB', 'dphi', 'phiud']), smeft.is_real)
        par, mu = rand_params(R), rand_scale(R)
        p0 = dict(par) if par else par
        data = dict(coefficients=flat, parameters=par, scale=mu)
        wc = wc_of('SMEFT', 'Warsaw', mu, flat)
        before = dict(wc.dict)
        t = R.guard('translate', lambda: wc.translate('Warsaw mass', parameters=par), **data)
        if t is R.FAILED:
            continue
        R.check('input-unchanged', wc.dict == before and list(wc.dict) == list(before) and wc.basis == 'Warsaw', '', **data)
        R.check('parameters-unchanged', par == p0, '', **data)
        R.check('label', (t.eft, t.basis, t.scale) == ('SMEFT', 'Warsaw mass', mu), '', **data)
        V = np.array(ckm(eff(par)))
        T = smeft.Tensor(flat)
        out = t.dict
        if n % 2:
            direct(R, wcxf.Translator['SMEFT', 'Warsaw', 'Warsaw mass'], flat, mu, par, out, **data)
        exp = {k: v for k, v in flat.items() if k.split('_')[0] not in ROT + ('llphiphi',)}
        R.check('others', {k: v for k, v in out.items() if k.split('_')[0] not in ROT + ('llphiphi',)} ==
                {k: complex(v) for k, v in exp.items() if v != 0}, '', **data)
        for op in ROT:
            M = V @ np.array([[T(op, i, j) for j in range(3)] for i in range(3)], dtype=complex)
            mx = abs(M).max()
            for i in range(3):
                for j in range(3):
                    R.close(smeft.key(op, (i, j)), out.get(smeft.key(op, (i, j)), 0), M[i, j], floor=1e-3 * mx, **data)
        N = np.array([[T('llphiphi', i, j) for j in range(3)] for i in range(3)], dtype=complex)
        s = sorted(np.linalg.svd(N)[1])
        for i in range(3):
            for j in range(3):
                R.close(smeft.key('llphiphi', (i, j)), out.get(smeft.key('llphiphi', (i, j)), 0),
                        s[i] if i == j else 0, floor=1e-2 * s[-1], **data)
        R.cases += 1
