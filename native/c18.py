from native.wetlib import *
import string

PAIRS = [('WET', 'flavio', 'WET-4'), ('WET-4', 'flavio', 'WET-3'), ('WET', 'Bern', 'WET-4'),
         ('WET-4', 'Bern', 'WET-3'), ('WET', 'JMS', 'WET-4'), ('WET-4', 'JMS', 'WET-3'), ('WET-3', 'JMS', 'WET-2')]


def run(R):
    r = R.rng
    pool = {'flavio': wet.flavio_keys(), 'Bern': wet.bern_keys(), 'JMS': jms.keys()}
    hints = [s for s in R.hints()[0] if s.strip()]
    n = 0
    while R.time_left(10) and n < 60 * R.n and not R.failures:
        n += 1
        names = {}
        for e in ('WET', 'WET-4', 'WET-3', 'WET-2'):
            for b, keys in pool.items():
                ks = [k for k in keys if r.random() < .5] + r.sample(hints, 3)
                names[e, b] = ks
                cut = r.randint(0, len(ks))
                wcxf.Basis(e, b, {'x': {k: {} for k in ks[:cut]}, 'y': {k: None for k in ks[cut:]}})
        for a, b, c in PAIRS:
            flat = rand_flat(R, pool[b] + hints)
            par, mu = rand_params(R), rand_scale(R)
            data = dict(pair=str((a, b, c)), coefficients=flat, basis=names[c, b], scale=mu)
            wc = wc_of(a, b, mu, flat)
            out = R.guard('match', lambda: wc.match(c, b, parameters=par), **data)
            if out is R.FAILED:
                continue
            t = set(names[c, b])
            exp = {k: v for k, v in flat.items() if k in t and v != 0}
            R.check('restriction', out.dict == exp, 'differs: %s' % sorted(
                k for k in set(exp) | set(out.dict) if exp.get(k) != out.dict.get(k))[:5], **data)
            R.check('label', (out.eft, out.basis, out.scale) == (c, b, mu), '', **data)
            R.check('input-unchanged', wc.dict == flat, '', **data)
            if n % 3 == 0:
                direct(R, wcxf.Matcher[a, b, c, b], flat, mu, par, exp, **data)
            R.cases += 1
