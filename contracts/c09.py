"""FlavorKit <-> JMS, FlavorKit -> flavio."""
from .wetlib import *
from spec import flavorkit as fk


def run(S):
    w = setup(S)
    S.register('WET', 'FlavorKit', fk.NAMES)
    scale = S.scale()
    for pat in ('given', 'default'):
        S.explore(lambda: to_jms(S, w, pat, scale), 'FlavorKit-JMS/' + pat)
        S.explore(lambda: from_jms(S, w, pat, scale), 'JMS-FlavorKit/' + pat)
        S.explore(lambda: to_flavio(S, w, pat, scale), 'FlavorKit-flavio/' + pat)
    S.every_subset(lambda: subsets(S, w, scale), 'every subset', lambda: singles(S, w, scale))
    for bad in ('XVLL_1211', 'DVLL_9999', 'AVLL_22310', 'VddLL_1223', 'GVLL_31', 'Q1R_11', 'K1R_12', 'dgamma_12', ''):
        S.explore(lambda: unknown(S, w, bad, scale), 'unknown/' + bad)


def real(k):
    return jms.is_real(fk.target(k)[0])


def inp(S, pat):
    return S.params() if pat == 'given' else None


def to_jms(S, w, pat, scale):
    C = S.flat(fk.NAMES, real=real)
    par = inp(S, pat)
    snap = snapshot(C)
    out = fn(w, 'WET', 'FlavorKit', 'JMS')(C, scale, par)
    same_dict(S, 'input-unchanged', C, snap)
    p = running(S, par, scale)
    S.equal_dicts(pat + '.JMS', out, fk.to_jms(snap, p, Ops))
    back = fn(w, 'WET', 'JMS', 'FlavorKit')(dict(dict.items(out)), scale, par)
    S.equal_dicts(pat + '.FlavorKit-JMS-FlavorKit', back, snap)


def from_jms(S, w, pat, scale):
    C = S.flat(jms.keys(), real=jms.is_real)
    par = inp(S, pat)
    snap = snapshot(C)
    out = fn(w, 'WET', 'JMS', 'FlavorKit')(C, scale, par)
    same_dict(S, 'input-unchanged', C, snap)
    p = running(S, par, scale)
    S.equal_dicts(pat + '.FlavorKit', out, fk.from_jms(snap, p, Ops))
    back = fn(w, 'WET', 'FlavorKit', 'JMS')(dict(dict.items(out)), scale, par)
    covered = {fk.target(k)[0] for k in fk.NAMES}
    S.equal_dicts(pat + '.JMS-FlavorKit-JMS', back, {k: v for k, v in snap.items() if k in covered})


def to_flavio(S, w, pat, scale):
    C = S.flat(fk.NAMES, real=real)
    par = inp(S, pat)
    snap = snapshot(C)
    out = fn(w, 'WET', 'FlavorKit', 'flavio')(C, scale, par)
    same_dict(S, 'input-unchanged', C, snap)
    p = running(S, par, scale)
    T = NumTensor(fk.to_jms(snap, p, Ops))
    S.equal_dicts(pat + '.flavio', out, wet.flavio(T, p, ckm(S, p), Ops))


def subsets(S, w, scale):
    """Every subset of the coefficients, at once: absent counts as zero."""
    par = S.params()
    p = running(S, par, scale)
    f, g = fn(w, 'WET', 'FlavorKit', 'JMS'), fn(w, 'WET', 'JMS', 'FlavorKit')
    C, x = S.subset(fk.NAMES, real=real)
    s = guard.snap(C)
    out = f(C, scale, par)
    S.prove('subset.input-unchanged', guard.unchanged(C, s))
    S.equal_dicts('subset.JMS', out, fk.to_jms(x, p, Ops))
    S.equal_dicts('subset.FlavorKit-JMS-FlavorKit', g(out, scale, par), x)
    C, x = S.subset(fk.NAMES, real=real)
    T = NumTensor(fk.to_jms(x, p, Ops))
    S.equal_dicts('subset.flavio', fn(w, 'WET', 'FlavorKit', 'flavio')(C, scale, par), wet.flavio(T, p, ckm(S, p), Ops))
    C, x = S.subset(jms.keys(), real=jms.is_real)
    s = guard.snap(C)
    out = g(C, scale, par)
    S.prove('subset.input-unchanged', guard.unchanged(C, s))
    S.equal_dicts('subset.FlavorKit', out, fk.from_jms(x, p, Ops))


def singles(S, w, scale):
    """A subset is translated like the full set restricted to it: every coefficient
    on its own (the loops treat names independently)."""
    def one():
        par = S.params()
        p = running(S, par, scale)
        f, g = fn(w, 'WET', 'FlavorKit', 'JMS'), fn(w, 'WET', 'JMS', 'FlavorKit')
        for k in fk.NAMES:
            x = {k: Num.sym(k, 'real' if real(k) else 'complex', ty='float' if real(k) else 'complex')}
            y = f(dict(x), scale, par)
            S.equal_dicts('single.JMS', y, fk.to_jms(x, p, Ops))
            S.equal_dicts('single.back', g(dict(y), scale, par), x)
    S.explore(one, 'single coefficients')


def unknown(S, w, bad, scale):
    C = {bad: Num.sym('x', 'complex', ty='complex')}
    ok = False
    try:
        fn(w, 'WET', 'FlavorKit', 'JMS')(C, scale, S.params())
    except ValueError:
        ok = True
    S.prove('unknown-name-raises', ok, bad)
