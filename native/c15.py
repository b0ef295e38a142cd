"""EOS export of random coefficients, Standard Model values and directories."""
import os
import shutil
import tempfile
import copy
import yaml
from native.wetlib import *
from wcxf.converters import eos
from spec import eos as SP

EXTRA = ['B->K::alpha^f+_0@KMPW2010', 'mass::b(MSbar)', 'b->s::c9-like', 'GSW::sin^2(theta)']


def dump(path, d):
    with open(path, 'w') as f:
        yaml.dump(d, f, default_flow_style=False)


def expected(names, wc, sm):
    out = {}
    for k in names:
        if k in EXTRA:
            out[k] = sm[k]['central'] + (complex(wc[k]).real if k in wc else 0)
            continue
        part, ks = SP.meaning(k)
        x = [complex(wc.get(c, 0)) for c in ks]
        if len(set(x)) > 1:
            return None
        out[k] = sm[k]['central'] + (x[0].real if part == 're' else x[0].imag)
    return out


def coefficients(R, names):
    r = R.rng
    wc = {}
    lfu = r.random() < .7
    for k in names:
        if k in EXTRA:
            continue
        part, ks = SP.meaning(k)
        if r.random() < .4 or ks[0] in wc:
            continue
        v = r.choice([R.num(), R.num(), R.num(True), R.num() * 1j, 1j * R.num(True), 0.0, complex(0, 0)])
        for c in ks:
            wc[c] = v
        if len(ks) == 2 and not lfu:
            m = r.random()
            if m < .2:
                wc[ks[0]] = complex(v) + 1e-9j
            elif m < .4:
                wc[ks[1]] = complex(v) + 1e-3
            elif m < .6:
                del wc[r.choice(ks)]
            elif m < .7:
                wc[ks[1]] = complex(v).conjugate()
    ks = list(wc)
    r.shuffle(ks)
    return {k: wc[k] for k in ks}


def run(R):
    r = R.rng
    tmp = tempfile.mkdtemp(prefix='c15')
    try:
        n = 0
        while R.time_left(20) and n < 300 * R.n and not R.failures:
            n += 1
            names = [k for k in SP.names() if r.random() < r.choice([.1, .5, 1])] + [k for k in EXTRA if r.random() < .2]
            r.shuffle(names)
            sm = {k: {'central': R.num(True), 'min': R.num(True), 'max': R.num(True)} for k in names}
            if r.random() < .3:
                for k in sm:
                    sm[k]['latex'] = '$x$'
            wc = coefficients(R, names)
            data = dict(sm=sm, coefficients=wc)
            if n % 3 == 0:
                # through files
                d = os.path.join(tmp, str(n))
                os.mkdir(d)
                dump(os.path.join(d, 'a.yaml'), dict({'@metadata@': {'wcxf-relevant': True}},
                                                    **{k: v for i, (k, v) in enumerate(sm.items()) if i % 2}))
                dump(os.path.join(d, 'b.yaml'), dict({'@metadata@': {'title': 'x', 'wcxf-relevant': True}},
                                                    **{k: v for i, (k, v) in enumerate(sm.items()) if not i % 2}))
                junk = {'junk::%d' % i: {'central': 1., 'min': 1., 'max': 1.} for i in range(3)}
                dump(os.path.join(d, 'c.yaml'), dict({'@metadata@': {'wcxf-relevant': False}}, **junk))
                dump(os.path.join(d, 'd.yaml'), junk)
                dump(os.path.join(d, 'e.yaml'), dict({'@metadata@': {}}, **junk))
                dump(os.path.join(d, 'f.yaml'), dict({'@metadata@': {'title': 'wcxf-relevant'}}, **junk))
                dump(os.path.join(d, 'g.yml.bak'), dict({'@metadata@': {'wcxf-relevant': True}}, **junk))
                got = R.guard('get_sm_wcs', lambda: eos.get_sm_wcs(d), **data)
                shutil.rmtree(d)
                if got is R.FAILED:
                    continue
                R.check('files', got == sm, 'got %s' % sorted(set(got) ^ set(sm))[:5], **data)
                smd = got
            else:
                smd = copy.deepcopy(sm)
            w = wc_of('WET', 'EOS', rand_scale(R), wc)
            vals = copy.deepcopy(w.values)
            exp = expected(names, wc, sm)
            s0 = copy.deepcopy(smd)
            if exp is None:
                R.guard('lepton-universality', lambda: eos.wcxf2eos(w, smd), expect=ValueError, **data)
            else:
                out = R.guard('wcxf2eos', lambda: eos.wcxf2eos(w, smd), **data)
                if out is R.FAILED:
                    continue
                R.check('names', set(out) == set(names), '%s' % (set(out) ^ set(names)), **data)
                for k in names:
                    if k in out:
                        R.check('quantities', set(out[k]) == {'central', 'min', 'max'}, '%s' % out[k], **data)
                        for q in ('central', 'min', 'max'):
                            R.close('%s.%s' % (k, q), out[k].get(q), exp[k], tol=1e-12, **data)
                            R.check('real', isinstance(out[k].get(q), float), '%s %r' % (k, out[k].get(q)), **data)
            R.check('input-unchanged', smd == s0 and w.values == vals, '', **data)
            R.cases += 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
