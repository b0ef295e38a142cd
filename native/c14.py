from native.smeftlib import *
import itertools


def reps(R):
    out = []
    for op, ff in jms.OPS.items():
        for idx in itertools.product(*[range(jms.NGEN[f]) for f in ff]):
            orb = sorted(t for t, _ in jms.orbit(op, idx))
            if idx == orb[0]:
                out.append(jms.key(op, R.rng.choice(orb)))
    return out + jms.SCALARS


def run(R):
    setup(True)
    import wcxf.translators.smeft as ts
    import wcxf.translators.wet as tw
    w2a, a2w = getattr(ts, 'wcxf2arrays', None), getattr(ts, 'arrays2wcxf', None)
    ta, fa = getattr(ts, 'smeft_toarray', None), getattr(ts, 'smeft_fromarray', None)
    ja = getattr(tw, '_JMS_to_array', None) or getattr(tw, 'JMS_to_array', None)
    n = 0
    while R.time_left(20) and n < 60 * R.n and not R.failures:
        n += 1
        flat = rand_flat(R, smeft.all_keys(), lambda k: '_' not in k, 'all' if n == 1 else None)
        data = dict(coefficients=flat)
        if w2a is not None:
            A = R.guard('wcxf2arrays', lambda: w2a(dict(flat)), **data)
            if A is not R.FAILED:
                E = arrays_of(flat)
                R.check('names', set(A) == set(E), '%s' % sorted(set(A) ^ set(E))[:4], **data)
                for op in E:
                    if op in A:
                        R.check('array.' + op, np.array_equal(np.asarray(A[op]), np.asarray(E[op])), 'wrong entries', **data)
                if a2w is not None:
                    d = R.guard('arrays2wcxf', lambda: a2w(A), **data)
                    if d is not R.FAILED:
                        R.check('there-and-back', {k: complex(v) for k, v in d.items() if v != 0} ==
                                {k: complex(v) for k, v in flat.items() if v != 0}, '', **data)
                        exp = set()
                        for op in E:
                            exp |= {op} if op in smeft.SCALARS else {smeft.key(op, i) for i in smeft.indices(op)}
                        R.check('all-entries', set(d) == exp, '%s' % sorted(set(d) ^ exp)[:4], **data)
        ind = rand_flat(R, smeft.keys(), smeft.is_real)
        T = smeft.Tensor(ind)
        if ta is not None:
            for op in R.rng.sample(sorted(smeft.OPS), 8):
                a = R.guard('toarray', lambda: ta(op, dict(ind)), coefficients=ind, op=op)
                if a is R.FAILED:
                    continue
                for i in smeft.indices(op):
                    R.close('toarray.' + smeft.key(op, i), a[i], T(op, *i), coefficients=ind)
                if fa is not None:
                    d = R.guard('fromarray', lambda: fa(op, a), coefficients=ind, op=op)
                    if d is not R.FAILED:
                        R.check('fromarray.' + op, d == {smeft.key(op, i): a[i] for i in smeft.indices(op)}, '', coefficients=ind)
        # through the API
        for pair in (('Warsaw', 'Warsaw up'), ('Warsaw up', 'Warsaw')):
            out = R.guard('translate', lambda: wc_of('SMEFT', pair[0], 91., ind).translate(pair[1]).dict, coefficients=ind)
            if out is not R.FAILED:
                for op in smeft.OPS:
                    if T.has(op) and not any(f in 'qQ' for f in smeft.OPS[op]):
                        for i in smeft.indices(op):
                            R.close('through.' + smeft.key(op, i), out.get(smeft.key(op, i), 0), T(op, *i), coefficients=ind)
                for k in smeft.SCALARS:
                    R.close('through.' + k, out.get(k, 0), ind.get(k, 0), coefficients=ind)
        # JMS
        ks = reps(R)
        for e in ('WET', 'WET-4', 'WET-3'):
            reg(e, 'JMS', ks)
            reg(e, 'Bern', wet.bern_keys())
            reg(e, 'flavio', wet.flavio_keys())
        jf = rand_flat(R, ks, jms.is_real)
        TJ = jms.Tensor(jf)
        if ja is not None:
            A = R.guard('JMS arrays', lambda: ja(dict(jf)), coefficients=jf)
            if A is not R.FAILED:
                for op, ff in jms.OPS.items():
                    if any(x in 'ud' for x in ff):
                        for i in itertools.product(*[range(jms.NGEN[x]) for x in ff]):
                            R.close('jms.' + jms.key(op, i), A[op][i], TJ(op, *i), coefficients=jf)
        par, mu = rand_params(R), rand_scale(R)
        out = R.guard('JMS', lambda: wc_of('WET', 'JMS', mu, jf).translate('flavio', parameters=par).dict, coefficients=jf)
        if out is not R.FAILED:
            p = running(par, mu)
            compare(R, 'flavio', out, wet.flavio(jms.Tensor(jf), p, ckm(p), Ops), coefficients=jf, parameters=par, scale=mu)
        R.cases += 1
