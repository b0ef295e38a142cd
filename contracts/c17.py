"""Parameters: overrides on top of the documented defaults, for every registered
conversion; frame conditions on the defaults and the caller's dictionary.

For a conversion T, coefficients C and scale s (all symbolic) and overrides P:
T(C, s, P) = T(C, s, D + P) with D the documented defaults written out, for every
subset P of the parameters (guarded execution) and for P = None; T depends on every
parameter its operator normalisation contains (table DEPENDS, from spec/)."""
from .smeftlib import *
from . import wetlib as W, c12, c13
from .c20 import KEYS, fk
from spec import wet
from spec.defaults import DEFAULTS

CKM = {'Vus', 'Vub', 'Vcb', 'gamma'}
DEPENDS = {
    ('SMEFT', 'Warsaw', 'Warsaw mass'): CKM,
    ('SMEFT', 'Warsaw', 'Warsaw up'): CKM,
    ('SMEFT', 'Warsaw up', 'Warsaw'): CKM,
    ('WET', 'JMS', 'flavio'): CKM | {'GF', 'alpha_e', 'alpha_s', 'm_b'},
    ('WET', 'Bern', 'flavio'): CKM | {'GF', 'alpha_e', 'alpha_s', 'm_b'},
    ('WET', 'flavio', 'Bern'): CKM | {'GF', 'alpha_e', 'alpha_s', 'm_b'},
    ('WET', 'JMS', 'EOS'): CKM | {'GF', 'alpha_e', 'alpha_s', 'm_b'},
    ('WET', 'JMS', 'Bern'): {'GF', 'alpha_s', 'm_b', 'alpha_e'},
    ('WET', 'JMS', 'formflavor'): {'alpha_e', 'alpha_s'},
    ('WET', 'FlavorKit', 'JMS'): set(),
    ('WET', 'JMS', 'FlavorKit'): set(),
    ('WET', 'FlavorKit', 'flavio'): set(),
    ('SMEFT', 'Warsaw up', 'WET', 'JMS'): CKM | {'GF', 'm_W', 'alpha_e'},
}


def consts(S):
    """The documented defaults (the exact numbers the code holds, which agree
    with the documented ones to 15 digits)."""
    P = S.mod('wcxf.parameters').p
    return {k: num(P[k]) for k in DEFAULTS}


def sym(k):
    return parameter('p.' + k)


def run(S):
    w = W.setup(S, ('WET', 'WET-4', 'WET-3', 'WET-2'))
    S.register('WET', 'FlavorKit', fk.NAMES)
    for b in ('Warsaw', 'Warsaw up', 'Warsaw mass'):
        S.register('SMEFT', b, smeft.keys())
    m = S.mod('wcxf.matchers.smeft')
    S.explore(lambda: c12.frames(S, m, c12.arrays(S, flat(S))), 'effective couplings')
    c12.hooks(S, m)
    P = S.mod('wcxf.parameters').p
    S.prove('documented-defaults', set(DEFAULTS) <= set(P))
    for k in DEFAULTS:
        v = num(P.get(k, 0))
        S.prove('documented-defaults[%s]' % k, v.is_const() and abs(float(v.const_val()) / DEFAULTS[k] - 1) < 1e-14)
    todo = [(t, w.Matcher[t].function) for t in w.Matcher.instances if t[0] == 'SMEFT']
    todo += [(t, w.Translator[t].function) for t in w.Translator.instances if t[0] == 'SMEFT' or t[1] in KEYS]
    tasks = []
    for t, f in todo:
        if len(t) == 4 and t[1] == 'Warsaw':
            tasks.append((lambda t=t, f=f: composed(S, w, t, f, P), None))
            continue
        tasks.append((lambda t=t, f=f: conv(S, t, f, P, all_coefficients(S, t)), '/'.join(t)))
        tasks.append((lambda t=t, f=f: subsets(S, t, f, P, all_coefficients(S, t)), None))
    tasks.sort(key=lambda x: x[1] != 'SMEFT/Warsaw up/WET/JMS')
    S.parallel(tasks)


def subsets(S, t, f, P, C):
    S.every_subset(lambda: every(S, t, f, P, C), '/'.join(t) + '/every subset',
                   lambda: S.explore(lambda: samples(S, t, f, P), '/'.join(t) + '/samples'),
                   'overrides sampled')


def composed(S, w, t, f, P):
    """The matchers from the Warsaw basis are compositions (C13).  First with
    basis change, matching and translation as opaque functions of coefficients,
    effective parameters and scale - what is proved here for each of them; where
    that is not how the matcher works, everything inlined, for the coefficients
    in SHIFT."""
    e = S.eng
    n = len(e.obligations), len(e.undecided), len(S.errors), len(S.bounded)
    for name, full in c13.CALLEES.items():
        mod, fnname = full.rsplit('.', 1)
        if hasattr(S.mod(mod), fnname):
            keys = smeft.keys() if name == 'up' else jms.keys() if name == 'match' else ['%s_%d' % (name, i) for i in range(5)]
            e.contracts[full] = c13.hook(S, name, keys, name not in ('up', 'match'))
    try:
        C = flat(S)
        S.explore(lambda: conv(S, t, f, P, C), '/'.join(t))
        subsets(S, t, f, P, C)
    finally:
        for full in c13.CALLEES.values():
            e.contracts.pop(full, None)
    if all(o.status == 'proved' for o in e.obligations[n[0]:]) and (len(e.undecided), len(S.errors), len(S.bounded)) == n[1:]:
        S.assumed.append('contracts of warsaw_to_warsaw_up, match_all, JMS_to_*, when called by the matchers from the Warsaw basis: determined by coefficients, effective parameters, scale')
        return
    del e.obligations[n[0]:], e.undecided[n[1]:], S.errors[n[2]:], S.bounded[n[3]:]
    S.notes.append('%s: not a composition of the functions under contract; inlined' % '/'.join(t))
    S.bounded.append('%s: %d coefficients given' % ('/'.join(t), len(SHIFT)))
    S.explore(lambda: conv(S, t, f, P, flat(S, SHIFT)), '/'.join(t))
    subsets(S, t, f, P, flat(S, SHIFT))


SHIFT = ['phiWB', 'll_1221', 'phil3_11', 'phil3_22', 'phiq3_11', 'phiq1_12', 'phiud_13', 'uphi_12', 'uG_13', 'dW_23',
         'dB_23', 'lq1_2223', 'lequ1_1122', 'qu8_2233', 'G']


def coefficients(S, t):
    if len(t) == 4:
        return flat(S, SHIFT)
    if t[0] == 'SMEFT':
        return flat(S, [k for i, k in enumerate(smeft.keys()) if i % 8 == S.seed % 8 or k in SHIFT])
    keys, real = KEYS[t[1]]
    keys = keys()
    if t[1] == 'JMS':
        keys = [k for i, k in enumerate(keys) if i % 8 == S.seed % 8 or 'gamma' in k or 'G' in k or k in
                ('VnueduLL_1132', 'VdeLL_2332', 'VddLL_2323', 'VedLL_1123', 'VnuedLL_1123')]
    return S.flat(keys, 'A.', real, cls=dict)


def all_coefficients(S, t):
    if t[0] == 'SMEFT':
        return flat(S)
    keys, real = KEYS[t[1]]
    return S.flat(keys(), 'A.', real, cls=dict)


def text(d):
    return Result((k, num(scal(v))) for k, v in dict.items(d) if num(scal(v)).p)


class Result(dict):
    """Coefficients; == compares normal forms."""
    def __eq__(self, o):
        return set(self) == set(o) and all(rep(v) == rep(o[k]) for k, v in self.items())

    def __ne__(self, o):
        return not self == o


def every(S, t, f, P, C):
    """T(C, s, P) for an arbitrary subset P of the parameters, at once: in place
    of 'the value passed, or the default' stands the symbol eff.k, and the result
    has to be T(C, s, {k: eff.k})."""
    scale = S.scale()
    tag = '-'.join(t) + '.'
    D = consts(S)
    eff = {k: parameter('eff.' + k) for k in DEFAULTS}
    psnap = dict(P)
    par = guard.subset([(k, sym(k)) for k in DEFAULTS], 'par.')
    for k in DEFAULTS:
        guard.choice('par.' + k, sym(k), D[k], eff[k])
    s = guard.snap(par)
    got = f(C.copy(), scale, par)
    S.prove(tag + 'subset.parameters-unchanged', guard.unchanged(par, s))
    same_dict(S, tag + 'subset.defaults-unchanged', P, psnap)
    ref = text(f(C.copy(), scale, dict(eff)))
    compare(S, tag + 'subset', text(got), ref)
    names = S.reach(ref.values())
    for k in sorted(DEPENDS.get(t, ())):
        S.prove(tag + 'depends-on.' + k, 'eff.' + k in names)


def compare(S, name, a, b):
    if a == b:
        return S.prove(name, True)
    for k in sorted(set(a) | set(b)):
        S.equal('%s[%s]' % (name, k), a.get(k, 0), b.get(k, 0))


def conv(S, t, f, P, C):
    """no parameters given = defaults given, whatever was passed before"""
    snap = dict(C)
    scale = S.scale()
    psnap = dict(P)
    tag = '-'.join(t) + '.'

    def call(par):
        before = None if par is None else dict(par)
        o = f(C, scale, par)
        if par is not None:
            same_dict(S, tag + 'parameters-unchanged', par, before)
        same_dict(S, tag + 'defaults-unchanged', P, psnap)
        return text(o)
    base = call(None)
    S.prove(tag + 'result-not-empty', len(base) > 0)
    compare(S, tag + 'defaults', base, call(consts(S)))
    call({k: sym(k) for k in DEFAULTS})
    compare(S, tag + 'history', call(None), base)
    same_dict(S, tag + 'input-unchanged', C, snap)


def samples(S, t, f, P):
    """stand-in for every(): two complementary halves, a third of the single parameters"""
    C = coefficients(S, t)
    scale = S.scale()
    tag = '-'.join(t) + '.'
    names = sorted(DEFAULTS)
    half = {k: sym(k) for i, k in enumerate(names) if (i + S.seed) % 2}
    other = {k: sym(k) for k in names if k not in half}
    sets = [half, other] + [{k: sym(k)} for k in names if names.index(k) % 3 == S.seed % 3]
    if len(t) == 4 and t[3] != 'JMS':
        sets = sets[:1]
    for h in sets:
        compare(S, tag + 'sample', text(f(C, scale, dict(h))), text(f(C, scale, dict(consts(S), **h))))
