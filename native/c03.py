"""Random histories of the name registries against a model."""
import io
import json
import wcxf

EN = ['WET', 'SMEFT', 'E 1', 'e', 'WET-4']
BN = ['flavio', 'JMS', 'b 1', 'WET', 'Warsaw']


def run(R):
    r = R.rng
    kinds = {'EFT': wcxf.EFT, 'Basis': wcxf.Basis, 'Translator': wcxf.Translator, 'Matcher': wcxf.Matcher}
    for k, key in (('EFT', 'no such'), ('Basis', ('a', 'b')), ('Translator', ('a', 'b', 'c')), ('Matcher', ('a', 'b', 'c', 'd'))):
        R.guard('initial', lambda: kinds[k][key], expect=KeyError, kind=k)
    e = wcxf.EFT('fresh', {})
    kb = R.guard('initial.known', lambda: (list(e.known_bases), list(e.known_translators)))
    R.check('initial.known', kb is R.FAILED or kb == ([], []), '%r' % (kb,))
    del wcxf.EFT['fresh']
    saved = {k: getattr(c, 'instances', None) for k, c in kinds.items()}
    n = 0
    try:
        while R.time_left(10) and n < 5000 * R.n and not R.failures:
            n += 1
            history(R, kinds)
            R.cases += 1
    finally:
        for k, c in kinds.items():
            if saved[k] is not None:
                c.instances = saved[k]


def rkey(r, kind):
    if kind == 'EFT':
        return r.choice(EN)
    if kind == 'Basis':
        return r.choice(EN), r.choice(BN)
    if kind == 'Translator':
        return r.choice(EN), r.choice(BN), r.choice(BN)
    return r.choice(EN), r.choice(BN), r.choice(EN), r.choice(BN)


def history(R, kinds):
    r = R.rng
    model = {k: {} for k in kinds}
    log = []
    for c in kinds.values():
        c.clear_all()
    for step in range(r.randint(1, 25)):
        kind = r.choice(list(kinds))
        K = kinds[kind]
        key = rkey(r, kind)
        c = r.random()
        if c < .6:
            log.append('create %s %r' % (kind, key))

            def make():
                f = lambda C, s, p: {}
                if kind == 'EFT':
                    if r.random() < .5:
                        return wcxf.EFT(key, {'s': {}})
                    return wcxf.EFT.load(io.StringIO(json.dumps({'eft': key, 'sectors': {'s': {}}, 'metadata': {'a': 1}})))
                if kind == 'Basis':
                    q = r.random()
                    if q < .4:
                        return wcxf.Basis(key[0], key[1], {'s': {'x': {}}})
                    if q < .6:
                        par = [k for k in model['Basis'] if k[0] == key[0]]
                        if par:
                            return wcxf.Basis(key[0], key[1], {'s2': {'y': {}}}, parent=r.choice(par)[1])
                    return wcxf.Basis.load(json.dumps({'eft': key[0], 'basis': key[1], 'sectors': {'s': {'x': {}}}}))
                if kind == 'Translator' and r.random() < .5:
                    wcxf.translator(*key)(f)
                    return wcxf.Translator[key]
                if kind == 'Matcher' and r.random() < .5:
                    wcxf.matcher(*key)(f)
                    return wcxf.Matcher[key]
                return K(*key, f)
            old = list(model[kind].values())
            o = R.guard('create', make, history=log)
            if o is R.FAILED:
                return
            R.check('create.new', all(o is not x for x in old), 'creation did not register a new instance', history=log)
            model[kind][key] = o
        elif c < .85:
            log.append('delete %s %r' % (kind, key))

            def rm():
                if r.random() < .5:
                    del K[key]
                else:
                    K.del_instance(key)
            if key in model[kind]:
                if R.guard('delete', rm, history=log) is R.FAILED:
                    return
                del model[kind][key]
            else:
                R.guard('delete-missing', rm, expect=KeyError, history=log)
        elif c < .9:
            log.append('clear %s' % kind)
            if R.guard('clear', K.clear_all, history=log) is R.FAILED:
                return
            model[kind] = {}
        # observe
        if r.random() < .5:
            observe(R, kinds, model, log)
    observe(R, kinds, model, log)


def observe(R, kinds, model, log):
    r = R.rng
    for kind, K in kinds.items():
        for key in set(list(model[kind]) + [rkey(r, kind) for _ in range(2)]):
            get = (lambda: K[key]) if r.random() < .5 else (lambda: K.get_instance(key))
            if key in model[kind]:
                o = R.guard('lookup', get, history=log, key=key)
                if o is not R.FAILED:
                    R.check('lookup.latest', o is model[kind][key], '%s %r: not the most recent instance' % (kind, key), history=log)
            else:
                R.guard('lookup-missing', get, expect=KeyError, history=log, key=key)
    for e, o in model['EFT'].items():
        kb = R.guard('known_bases', lambda: list(o.known_bases), history=log)
        if kb is not R.FAILED:
            R.check('known_bases', sorted(kb) == sorted(b for (x, b) in model['Basis'] if x == e), '%s: %r' % (e, kb), history=log)
        kt = R.guard('known_translators', lambda: list(o.known_translators), history=log)
        if kt is not R.FAILED:
            R.check('known_translators', sorted(kt) == sorted(t for t in model['Translator'] if t[0] == e), '%s: %r' % (e, kt), history=log)
    for (e, b), o in model['Basis'].items():
        kt = R.guard('basis.known_translators', lambda: {k: list(v) for k, v in o.known_translators.items()}, history=log)
        if kt is not R.FAILED:
            R.check('basis.known_translators.from', sorted(kt.get('from', ())) == sorted(t for t in model['Translator'] if t[:2] == (e, b)), '%r: %r' % ((e, b), kt), history=log)
            R.check('basis.known_translators.to', sorted(kt.get('to', ())) == sorted(t for t in model['Translator'] if (t[0], t[2]) == (e, b)), '%r: %r' % ((e, b), kt), history=log)
