"""Basis inheritance on the real code, random family trees."""
import copy
import io
import json
from collections import OrderedDict
import wcxf

SN = ['sbsb', 'dF=2', 's 1', 'nu', 'x', 'y', 'z']


def table(R, odd=False):
    r = R.rng
    D = OrderedDict if r.random() < .5 else dict
    t = D()
    for s in r.sample(SN, r.choice([0, 1, 2, 4])):
        t[s] = D((r.choice(['a', 'b', 'C_%d' % r.randint(0, 9), 'Q']) + str(i),
                  r.choice([None, {}, {'tex': 'x', 'real': True}, {'tex': 'y'}])) for i in range(r.choice([0, 1, 3])))
    return t


def run(R):
    r = R.rng
    saved = getattr(wcxf.Basis, 'instances', None)
    n = 0
    while R.time_left(8) and n < 9000 * R.n and not R.failures:
        n += 1
        wcxf.Basis.clear_all()
        model = {}
        log = []
        for step in range(r.randint(2, 7)):
            e, b = r.choice(['E', 'F']), r.choice(['p', 'q', 'r', 's'])
            own = table(R)
            snap = copy.deepcopy(own)
            extra = r.choice([{}, {'metadata': {'d': 1}}])
            cand = [k[1] for k in model if k[0] == e]
            c = r.random()
            data = dict(history=log)
            if c < .3:
                log.append(('basis', e, b, snap))
                o = R.guard('create', lambda: wcxf.Basis(e, b, own, **extra), **data)
                exp = snap
            elif c < .85 and cand:
                par = r.choice(cand)
                log.append(('child', e, b, par, snap))
                if r.random() < .5:
                    o = R.guard('create', lambda: wcxf.Basis(e, b, own, parent=par, **extra), **data)
                else:
                    text = json.dumps(dict(eft=e, basis=b, sectors=own, parent=par, **extra))
                    o = R.guard('create', lambda: wcxf.Basis.load(io.StringIO(text)), **data)
                exp = OrderedDict(copy.deepcopy(model[e, par][1]))
                exp.update(snap)
            else:
                par = r.choice(['p', 'q', 'r', 's', 'none'])
                if (e, par) in model:
                    continue
                log.append(('orphan', e, b, par))
                R.guard('orphan', lambda: wcxf.Basis(e, b, own, parent=par, **extra), expect=ValueError, **data)
                o = exp = None
                R.check('orphan.own-unchanged', own == snap, '%r' % own, **data)
            if o is R.FAILED:
                break
            if o is not None:
                model[e, b] = (o, exp)
                R.check('own-unchanged', own == snap, 'the sector table passed was changed: %r' % own, **data)
            observe(R, model, log, r.random() < .5)
        observe(R, model, log, True)
        R.cases += 1
    if saved is not None:
        wcxf.Basis.instances = saved


def observe(R, model, log, allw):
    for k in [(e, b) for e in 'EF' for b in 'pqrs']:
        try:
            got = wcxf.Basis[k]
        except KeyError:
            got = None
        R.check('registered', got is (model[k][0] if k in model else None), '%r registered: %r' % (k, got), history=log)
    for k, (o, exp) in model.items():
        R.check('sectors', dict(o.sectors) == dict(exp), '%r: %r, expected %r' % (k, o.sectors, exp), history=log)
        R.check('sector-order', {s: list(o.sectors[s]) for s in o.sectors} == {s: list(exp[s]) for s in exp}, '%r' % (k,), history=log)
        if allw:
            l = R.guard('all_wcs', lambda: list(o.all_wcs), history=log)
            if l is not R.FAILED:
                R.check('all_wcs', sorted(l) == sorted(x for s in exp.values() for x in s), '%r: %r' % (k, l), history=log)
