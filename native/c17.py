"""Partial parameters and histories of conversions against independent formulae."""
from native.matchlib import *
from spec import flavorkit as fk

NAMES = {'JMS': (jms.keys, jms.is_real), 'Bern': (wet.bern_keys, lambda k: False),
         'flavio': (wet.flavio_keys, lambda k: False),
         'FlavorKit': (lambda: fk.NAMES, lambda k: jms.is_real(fk.target(k)[0]))}


def wet_expected(t, flat, par, mu):
    p = running(par, mu)
    V = ckm(p)
    a, b = t[1:]
    if a == 'FlavorKit':
        flat = fk.to_jms(flat, p, Ops)
        if b == 'JMS':
            return flat
        a = 'JMS'
    if a == 'JMS':
        T = jms.Tensor(flat)
        if b == 'FlavorKit':
            return fk.from_jms(flat, p, Ops)
        return {'flavio': wet.flavio, 'EOS': wet.eos, 'formflavor': wet.formflavor, 'Bern': wet.bern_simple}[b](T, p, V, Ops)
    return (wet.flavio_from_bern if a == 'Bern' else wet.bern_from_flavio)(Acc(flat), p, V, Ops)


def few(R, keys, real, n=12):
    ks = R.rng.sample(list(keys), min(n, len(list(keys))))
    return {k: R.num(real(k)) for k in ks}


DIP = ['uphi_12', 'uG_13', 'uW_22', 'uB_31', 'phiq3_12', 'phiq1_13', 'qq1_1213', 'qu1_1223', 'lq1_2223', 'dW_23']


def params(R):
    r = R.rng
    full = {k: v * r.uniform(.8, 1.2) for k, v in DEFAULTS.items()}
    if r.random() < .3:
        full['gamma'] = r.choice([-1.1, 1, 2.])
    if r.random() < .3:
        full['m_b'] = r.choice([4, 5])
    c = r.random()
    if c < .15:
        return None
    if c < .25:
        return {}
    if c < .6:
        k = r.choice(sorted(full) + ['gamma'])
        return {k: full[k]}
    if c < .75:
        return full
    ks = [k for k in sorted(full) if r.random() < .5]
    r.shuffle(ks)
    return {k: full[k] for k in ks}


def run(R):
    r = R.rng
    setup(False)
    for e in ('WET', 'WET-4', 'WET-3'):
        for b in ('JMS', 'Bern', 'flavio'):
            reg(e, b, NAMES[b][0]())
    reg('WET', 'FlavorKit', fk.NAMES)
    R.check('documented-defaults', all(k in defaults and abs(defaults[k] / v - 1) < 1e-14 for k, v in DEFAULTS.items()),
            '%s' % defaults)
    d0 = dict(defaults)
    tr = [t for t in wcxf.Translator.instances if t[0] == 'SMEFT' or t[1] in NAMES]
    ma = [t for t in wcxf.Matcher.instances if t[0] == 'SMEFT']
    R.coverage.update(translators=len(tr), matchers=len(ma))
    kept = []                # earlier conversions, to be repeated later
    hist = []
    n = 0
    while R.time_left(35) and n < 12 * R.n and not R.failures:
        n += 1
        order = tr + ma + tr
        r.shuffle(order)
        for t in order:
            if not R.time_left(35) or R.failures:
                break
            if len(t) == 4 and n % 2 and r.random() < .5:
                continue
            par, mu = params(R), rand_scale(R)
            if t[0] == 'SMEFT' and t[-1] not in ('flavio', 'EOS', 'Bern') and r.random() < .2:
                par = dict(par or {}, Vub=r.choice([0, 0.]))       # nothing here divides by V_ub
            if t[0] == 'SMEFT':
                flat = few(R, smeft.keys(), smeft.is_real, 20)
                for k in r.sample(DIP, 5):
                    flat[k] = R.num()
                if len(t) == 4:
                    flat = {k: v * 1e-9 for k, v in flat.items()}
                    for k in ('phiWB', 'll_1221', 'phil3_11', 'phil3_22'):
                        if r.random() < .7:
                            flat[k] = R.num(True) * 1e-9
            else:
                keys, real = NAMES[t[1]]
                flat = few(R, keys(), real, 60)
                if t[1] == 'JMS':
                    for k in keys():
                        if ('gamma' in k or 'G' in k) and r.random() < .5:
                            flat[k] = R.num()
            reuse = par
            data = dict(conversion='/'.join(t), coefficients=flat, parameters=par, scale=mu, history=hist[-6:])
            p0 = dict(par) if par is not None else None

            def call(p):
                wc = wc_of(t[0], t[1], mu, flat)
                w = wc.translate(t[2], parameters=p) if len(t) == 3 else wc.match(t[2], t[3], parameters=p)
                return w.dict
            out = R.guard('convert', lambda: call(reuse), **data)
            if out is R.FAILED:
                continue
            hist.append('%s %s' % ('/'.join(t), par))
            R.check('parameters-unchanged', par == p0 and (par is None or list(par) == list(p0)), '%s' % par, **data)
            R.check('defaults-unchanged', dict(defaults) == d0, '%s' % [k for k in set(d0) | set(defaults) if d0.get(k) != defaults.get(k)], **data)
            # the same with the defaults written out
            full = dict(DEFAULTS)
            full.update(par or {})
            ref = R.guard('convert', lambda: call(full), **data)
            if ref is not R.FAILED:
                compare(R, 'defaults-written-out.' + '/'.join(t), out, ref, tol=1e-9, rel=1e-9, **data)
            # independent formula
            if len(t) == 3 and t[0] != 'SMEFT':
                compare(R, '/'.join(t), out, wet_expected(t, flat, par, mu), closed=False, **data)
            elif len(t) == 3 and t[2] != 'Warsaw mass':
                V = ckm(full)
                compare(R, '/'.join(t), out, smeft.rotated_flat(flat, smeft.dagger(V) if t[2] == 'Warsaw up' else V, smeft.keys()),
                        rel=1e-4, **data)
            elif len(t) == 3:
                V = ckm(full)
                T = smeft.Tensor(flat)
                for op in ('uphi', 'uG', 'uW', 'uB'):
                    for i in range(3):
                        for j in range(3):
                            R.close('/'.join(t), out.get(smeft.key(op, (i, j)), 0), sum(V[i][k] * T(op, k, j) for k in range(3)),
                                    floor=1e-2 * max(abs(T(op, k, j)) for k in range(3)), **data)
            elif t[1:] == ('Warsaw up', 'WET', 'JMS'):
                same(R, '/'.join(t), out, expected(flat, par, jms.keys()), **data)
            elif t[1:] == ('Warsaw', 'WET', 'JMS'):
                up = smeft.rotated_flat(flat, smeft.dagger(ckm(full)), smeft.keys())
                same(R, '/'.join(t), out, expected(up, par, jms.keys()), **data)
            if r.random() < .3:
                kept.append((t, dict(flat), par, mu, out))
            # an earlier conversion, again: same result
            if kept and r.random() < .3:
                t_, f_, p_, m_, o_ = r.choice(kept)
                wc = wc_of(t_[0], t_[1], m_, f_)
                again = R.guard('again', lambda: (wc.translate(t_[2], parameters=p_) if len(t_) == 3 else
                                                  wc.match(t_[2], t_[3], parameters=p_)).dict, **data)
                if again is not R.FAILED:
                    R.check('history.' + '/'.join(t_), again == o_, 'result changed: %s' %
                            [k for k in set(again) | set(o_) if again.get(k) != o_.get(k)][:4],
                            conversion='/'.join(t_), coefficients=f_, parameters=p_, scale=m_, history=hist[-8:])
            R.cases += 1
