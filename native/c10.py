from native.smeftlib import *


def run(R):
    setup(True)
    su = getattr(wcxf.util, 'smeftutil', None)
    if su is None:
        import wcxf.util.smeftutil as su
    sym = getattr(su, 'symmetrize', None)
    n = 0
    while R.time_left(15) and n < 60 * R.n and not R.failures:
        n += 1
        flat = rand_flat(R, smeft.keys(), smeft.is_real, 'all' if n == 1 else None)
        T = smeft.Tensor(flat)
        data = dict(coefficients=flat)
        if sym is not None:
            A = arrays_of(flat)
            B = {k: np.array(v, copy=True) if np.ndim(v) else v for k, v in A.items()}
            out = R.guard('symmetrize', lambda: sym(A), **data)
            if out is not R.FAILED:
                R.check('names', set(out) == set(A), 'got %s' % sorted(set(A) ^ set(out)), **data)
                for op in A:
                    R.check('input-unchanged', np.array_equal(A[op], B[op]), op, **data)
                    if op not in out:
                        continue
                    if op in smeft.SCALARS:
                        R.close('scalar.' + op, out[op], flat[op], **data)
                        continue
                    for i in smeft.indices(op):
                        R.close('symmetric.' + smeft.key(op, i), out[op][i], T(op, *i), **data)
                again = R.guard('again', lambda: sym(out), **data)
                if again is not R.FAILED:
                    for op in again:
                        R.check('idempotent', np.allclose(again[op], out[op], rtol=1e-13, atol=0), op, **data)
            # whatever the redundant entries are
            X = {k: np.array(v, dtype=complex) if np.ndim(v) else v for k, v in A.items()}
            keys = set(smeft.keys())
            for op in X:
                if op in smeft.SCALARS:
                    continue
                for i in smeft.indices(op):
                    k = smeft.key(op, i)
                    if k not in keys:
                        X[op][i] = complex(R.rng.gauss(0, 1), R.rng.gauss(0, 1))
                    elif smeft.is_real(k):
                        X[op][i] += 1j * R.rng.gauss(0, 1)
            out = R.guard('symmetrize', lambda: sym(X), **data)
            if out is not R.FAILED:
                for op in out:
                    if op not in smeft.SCALARS:
                        for i in smeft.indices(op):
                            R.close('determined.' + smeft.key(op, i), out[op][i], T(op, *i), **data)
        for pair in (('Warsaw', 'Warsaw up'), ('Warsaw up', 'Warsaw')):
            wc = wc_of('SMEFT', pair[0], 1000., flat)
            out = R.guard('translate', lambda: wc.translate(pair[1]).dict, **data)
            if out is R.FAILED:
                continue
            for op in smeft.OPS:
                if T.has(op) and not any(f in 'qQ' for f in smeft.OPS[op]):
                    for i in smeft.indices(op):
                        R.close('%s.%s' % (pair[1], smeft.key(op, i)), out.get(smeft.key(op, i), 0), T(op, *i), **data)
        R.cases += 1
