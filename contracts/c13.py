"""Composed matchers = composition of matching and translation.

First modularly: translation, matching and basis change are opaque functions of
(coefficients, effective parameters, scale) - the contracts proved in C11, C12,
C08, C21 and C17 - and the composed matcher has to be their composition.  If the
code does not go through these functions, the same statement is proved with
everything inlined, one operator at a time."""
from .smeftlib import *
from spec import matching as M, wet
from contracts import c12
import hashlib

TARGETS = ('flavio', 'Bern', 'EOS')
CALLEES = {'up': 'wcxf.translators.smeft.warsaw_to_warsaw_up', 'match': 'wcxf.matchers.smeft.match_all',
           'flavio': 'wcxf.translators.wet.JMS_to_flavio', 'Bern': 'wcxf.translators.wet.JMS_to_Bern',
           'EOS': 'wcxf.translators.wet.JMS_to_EOS'}


def prepare(S):
    w = setup(S, False)
    S.register('WET', 'JMS', jms.keys())
    S.register('WET', 'flavio', wet.flavio_keys())
    S.register('WET', 'Bern', wet.bern_keys())
    return w


def values(d):
    """(name, value or 0)"""
    return [(k, d.total(k) if isinstance(d, guard.GDict) else dict.__getitem__(d, k)) for k in dict.keys(d)]


def digest(S, *dicts):
    return hashlib.sha1(repr([sorted((k, rep(scal(v))) for k, v in values(d) if num(scal(v)).p) for d in dicts]).encode()).hexdigest()[:16]


def hook(S, name, keys, scaled):
    """result: symbols determined by the coefficients, the effective parameters
    and (translations) the scale"""
    def h(f, args, kw):
        b = f.bind(args, kw)
        C, par = b.get('C', b.get('Cflat', b.get('d_SMEFT'))), b.get('parameters')
        if C is None:
            C = next((v for v in b.values() if isinstance(v, dict)), None)
        if not isinstance(C, dict) or not (par is None or isinstance(par, dict)):
            raise Unsupported('signature of ' + name)
        sc = {'scale': b['scale']} if scaled and 'scale' in b else {}
        d = digest(S, C, params_eff(S, par), sc)
        S.eng.calls.append((name, d))
        return {k: Num.sym('%s:%s:%s' % (name, d, k), 'complex', ty='complex') for k in keys}
    return h


def run(S):
    inlined = set()
    for given in (True, False, 'some'):
        for tgt in ('JMS',) + TARGETS:
            w = prepare(S)
            have = {}
            for n, full in CALLEES.items():
                mod, fnname = full.rsplit('.', 1)
                if hasattr(S.mod(mod), fnname):
                    keys = smeft.keys() if n == 'up' else jms.keys() if n == 'match' else ['%s_%d' % (n, i) for i in range(5)]
                    S.eng.contracts[full] = hook(S, n, keys, n not in ('up', 'match'))
                    have[n] = full
            n0, u0, e0 = len(S.eng.obligations), len(S.eng.undecided), len(S.errors)
            if given == 'some':
                # any subset of the parameters
                S.every_subset(lambda: compose(S, w, tgt, given, flat(S)), 'compose-parameters/%s' % tgt)
            else:
                S.explore(lambda: compose(S, w, tgt, given), 'compose/%s/%s' % (tgt, given))
                S.every_subset(lambda: compose(S, w, tgt, given, S.subset(smeft.keys(), real=smeft.is_real)[0], 'subset.'),
                               'compose-subset/%s/%s' % (tgt, given))
            bad = [o for o in S.eng.obligations[n0:] if o.status != 'proved']
            for full in have.values():
                S.eng.contracts.pop(full, None)
            if given == 'some':
                if tgt in inlined:
                    del S.eng.obligations[n0:], S.eng.undecided[u0:], S.errors[e0:]
                    S.bounded.append('%s: all or no parameters given (C17 treats any subset)' % tgt)
                continue
            if bad or len(S.eng.undecided) > u0 or len(S.errors) > e0:
                del S.eng.obligations[n0:], S.eng.undecided[u0:], S.errors[e0:]
                inlined.add(tgt)
                S.notes.append('%s: not a composition of the functions under contract; proved inline' % tgt)
                inline(S, tgt, given)
    S.assumed.append('contracts of warsaw_to_warsaw_up, match_all, JMS_to_*: determined by coefficients, effective parameters, scale (C08, C11, C12, C17, C21)')


def some_parameters(S, par):
    P = S.mod('wcxf.parameters').p
    sub = guard.subset(list(par.items()), 'par.')
    for k in par:
        if k in P:
            guard.choice('par.' + k, par[k], num(P[k]), parameter('eff.' + k))
    return sub


def conv(w):
    up = fn(w, 'SMEFT', 'Warsaw', 'Warsaw up')
    down = w.Matcher['SMEFT', 'Warsaw up', 'WET', 'JMS'].function
    return up, down


def compose(S, w, tgt, given, C=None, tag=''):
    C = flat(S) if C is None else C
    sub = isinstance(C, guard.GDict)
    snap = C.copy() if sub else dict(C)
    par = S.params() if given else None
    if given == 'some':
        par = some_parameters(S, par)
    psnap = None if not given else guard.snap(par) if given == 'some' else dict(par)
    scale = S.scale()
    up, down = conv(w)
    got = w.Matcher['SMEFT', 'Warsaw', 'WET', tgt].function(C, scale, par)
    name = '%s.%s.%s' % (tgt, {True: 'given', False: 'default'}.get(given, given), tag)
    if sub:
        S.prove(name + 'input-unchanged', guard.unchanged(C, guard.snap(snap)))
    else:
        same_dict(S, name + 'input-unchanged', C, snap)
    if given == 'some':
        S.prove(name + 'parameters-unchanged', guard.unchanged(par, psnap))
    elif given:
        same_dict(S, name + 'parameters-unchanged', par, psnap)
    if tgt == 'JMS':
        exp = down(up(snap.copy(), scale, par), scale, par)
    else:
        j = w.Matcher['SMEFT', 'Warsaw', 'WET', 'JMS'].function(snap.copy(), scale, par)
        exp = fn(w, 'WET', 'JMS', tgt)(j, scale, par)
    g, e = dict(values(got)), dict(values(exp))
    S.prove(name + 'same-names', set(k for k in g if num(scal(g[k])).p) == set(k for k in e if num(scal(e[k])).p))
    S.equal_dicts(name + 'C', g, {k: scal(v) for k, v in e.items()})


def inline(S, tgt, given):
    w = prepare(S)
    S.assume_qcd()
    m = S.mod('wcxf.matchers.smeft')
    S.explore(lambda: c12.frames(S, m, c12.arrays(S, flat(S))), 'effective couplings')
    c12.hooks(S, m)
    base = ['phiWB', 'll_1221', 'phil3_11', 'phil3_22']
    groups = [smeft.SCALARS] + [smeft.keys([op]) for op in smeft.OPS]
    for g in groups if (tgt == 'JMS' and given) or S.tier == 'thorough' else groups[::6]:
        if any(o.status == 'refuted' for o in S.eng.obligations[-20000:]):
            break
        S.explore(lambda: compose(S, w, tgt, given, flat(S, list(g) + [k for k in base if k not in g]), g[0] + '.'), 'inline')
    c12.hooks(S, m, ('vT', 'g2b', 'g1b', 'sb', 'cb', 'eb', 'gzb'))
    S.bounded.append('composition proved operator by operator')
