"""Real-linearity of every WET translator."""
from .wetlib import *
from spec import flavorkit as fk

KEYS = {'JMS': (jms.keys, jms.is_real), 'Bern': (wet.bern_keys, lambda k: False),
        'flavio': (wet.flavio_keys, lambda k: False),
        'FlavorKit': (lambda: fk.NAMES, lambda k: jms.is_real(fk.target(k)[0]))}


def run(S):
    w = setup(S, ('WET', 'WET-4', 'WET-3'))
    S.register('WET', 'FlavorKit', fk.NAMES)
    scale = S.scale()
    todo = [k for k in w.Translator.instances if k[0].startswith('WET')]
    S.prove('translators-registered', len(todo) >= 15, str(len(todo)))
    tasks = []
    for t in todo:
        if t[1] in KEYS:
            tasks.append((lambda t=t: linear(S, w, t, scale), '/'.join(t)))
            tasks.append((lambda t=t: absent(S, '-'.join(t), w.Translator[t].function, KEYS[t[1]][0](), KEYS[t[1]][1]), None))
        else:
            S.bounded.append('translator %s: source basis not specified' % (t,))
    S.parallel(tasks)


def linear(S, w, t, scale):
    keys, real = KEYS[t[1]]
    keys = keys()
    par = S.params()
    a = Num.sym('a', 'real', ty='float')
    A = S.flat(keys, 'A.', real, cls=dict)
    B = S.flat(keys, 'B.', real, cls=dict)
    f = w.Translator[t].function
    tag = '-'.join(t) + '.'
    X = {k: a * A[k] + B[k] for k in keys}
    o = f(X, scale, par)
    oA, oB = f(dict(A), scale, par), f(dict(B), scale, par)
    S.equal_dicts(tag + 'linear', o, {k: a * num(scal(oA.get(k, 0))) + num(scal(oB.get(k, 0))) for k in set(oA) | set(oB)})
    z = f({}, scale, par)
    S.equal_dicts(tag + 'zero', z, {})
