from native.smeftlib import *
from spec import matching as M


class MOps:
    pi = math.pi
    abs = staticmethod(abs)

    @staticmethod
    def sqrt(x):
        return math.sqrt(x)

    @staticmethod
    def frac(a, b):
        return a / b


def couplings(T, p):
    r = lambda x: complex(x).real
    return M.Couplings(MOps, p['GF'], p['m_W'], p['alpha_e'], r(T('ll', 1, 0, 0, 1)), r(T('ll', 0, 1, 1, 0)),
                       r(T('phil3', 1, 1)), r(T('phil3', 0, 0)), r(T.scalar('phiWB')))


def expected(flat, par, names):
    p = eff(par)
    T = smeft.Tensor(flat)
    full = M.Full(T, couplings(T, p), p, MOps)
    n = M.NoNP(0)
    sm = M.Full(n, couplings(n, p), p, MOps)
    return M.match(names, full, sm, ckm(p))


def small_flat(R, mode=None, keys=None):
    f = rand_flat(R, keys or smeft.keys(), smeft.is_real, mode)
    if R.rng.random() < .3 and keys is None:
        # make sure the coefficients that shift the couplings are there
        for k in ('phiWB', 'll_1221', 'phil3_11', 'phil3_22', 'phiq3_13', 'phiud_12'):
            if R.rng.random() < .6:
                f[k] = R.num(smeft.is_real(k))
    f = {k: v * 1e-9 for k, v in f.items()}
    return {k: v for k, v in around(R, f, mode, .15).items() if abs(v) < 1e-6} if mode is None else f


def same(R, name, out, exp, **data):
    for k, v in exp.items():
        if not R.close('%s[%s]' % (name, k), out.get(k, 0), v, tol=1e-7, floor=1e-9, **data) and len(R.failures) > 10:
            return
    for k in out:
        if k not in exp:
            R.close('%s[%s]' % (name, k), out[k], 0, 'coefficient outside the expected set', tol=1e-7, floor=1e-9, **data)
