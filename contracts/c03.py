"""Registry of named instances: representation invariant (the registry of a kind
is an arbitrary map), one obligation per operation, so every history."""
from .maplib import *

KINDS = {'EFT': 0, 'Basis': 2, 'Translator': 3, 'Matcher': 4}


class Opaque:
    """An instance registered earlier."""
    def __init__(self, name):
        self.name = name


def registry(kind, arity):
    vals = {}

    def value(k):
        key = str(key_terms(k))
        if key not in vals:
            vals[key] = Opaque('%s%s' % (kind, key))
        return vals[key]
    return SMap.base('reg_' + kind, value, arity)


def key(arity, n='k'):
    if arity == 0:
        return skey(n)
    k = tuple(skey(n) for i in range(arity))
    CTX.engine.add_key(k)
    return k


def create(w, kind, k):
    f = lambda C, scale, parameters: C
    if kind == 'EFT':
        return w.EFT(k, sectors_map('s%d' % CTX.engine.fresh_id()))
    if kind == 'Basis':
        return w.Basis(k[0], k[1], sectors_map('s%d' % CTX.engine.fresh_id()))
    return getattr(w, kind)(*k, f)


def state(w):
    """Any reachable state: every registry is an arbitrary map."""
    regs = {}
    for kind, ar in KINDS.items():
        m = registry(kind, ar)
        getattr(w, kind).instances = m
        regs[kind] = (m, m.fn)
    return regs


def lookup(w, kind, q, via):
    K = getattr(w, kind)
    try:
        return ('found', K[q] if via else K.get_instance(q))
    except KeyError:
        return ('KeyError', None)


def expect(old, q, changes):
    """Specification: the registry after the changes [(key, instance or None) or 'clear']."""
    for c in reversed(changes):
        if c == 'clear':
            return ('KeyError', None)
        if bool(key_eq(q, c[0])):
            return ('found', c[1]) if c[1] is not None else ('KeyError', None)
    p, v = old(q)
    return ('found', v()) if bool(p) else ('KeyError', None)


def frame(S, w, regs, but, tag):
    for k, (m, fn) in regs.items():
        if k != but:
            S.prove('%s.other-kinds-unaffected.%s' % (tag, k), getattr(w, k).instances is m and m.fn is fn)


def run(S):
    w = S.mod('wcxf')
    for kind in KINDS:
        for op in ('create', 'recreate', 'delete', 'delete-missing', 'clear', 'lookup'):
            S.explore(lambda: step(S, w, kind, op), '%s %s' % (kind, op))
    S.explore(lambda: known_bases(S, w), 'known bases')
    S.explore(lambda: known_translators(S, w), 'known translators')
    # from the initial state: no instance of the kind exists
    for kind in KINDS:
        S.fresh()
        w2 = S.mod('wcxf')
        S.explore(lambda: initial(S, w2, kind), 'initial ' + kind)
    S.notes.append('histories: the per-operation obligations are the inductive step, the initial state is the base case')


def step(S, w, kind, op):
    regs = state(w)
    ar = KINDS[kind]
    old = regs[kind][1]
    k, q = key(ar), key(ar, 'q')
    K = getattr(w, kind)
    ch = []
    tag = '%s.%s' % (kind, op)
    # looking up earlier makes no difference later
    got, exp = lookup(w, kind, q, 0), expect(old, q, [])
    S.prove(tag + '.before', got[0] == exp[0] and got[1] is exp[1])
    if op in ('create', 'recreate'):
        inst = create(w, kind, k)
        ch = [(k, inst)]
        if op == 'recreate':
            inst2 = create(w, kind, k)
            ch.append((k, inst2))
            S.prove(tag + '.distinct', inst2 is not inst)
    elif op == 'delete':
        CTX.engine.assume(regs[kind][0].contains(k))
        if CTX.engine.decide(SBool(z3.Bool('item-syntax'))):
            del K[k]
        else:
            K.del_instance(k)
        ch = [(k, None)]
    elif op == 'delete-missing':
        CTX.engine.assume(s_not(regs[kind][0].contains(k)))
        try:
            K.del_instance(k)
            r = 'deleted'
        except KeyError:
            r = 'KeyError'
        S.prove(tag + '.raises-KeyError', r == 'KeyError')
    elif op == 'clear':
        K.clear_all()
        ch = ['clear']
    for via in (0, 1):
        got = lookup(w, kind, q, via)
        exp = expect(old, q, ch)
        S.prove(tag + '.outcome', got[0] == exp[0])
        if got[0] == exp[0] == 'found':
            S.prove(tag + '.instance', got[1] is exp[1])
    frame(S, w, regs, kind, tag)


def known_bases(S, w):
    regs = state(w)
    E = skey('eft')
    q = skey('q')
    CTX.engine.add_key((E, q))
    e = w.EFT(E, sectors_map('s'))
    got = bool(e.known_bases.contains(q))
    exp = bool(regs['Basis'][0].contains((E, q)))
    S.prove('known_bases', got == exp)
    S.prove('known_bases.frame', regs['Basis'][0].fn is regs['Basis'][1])
    # the list follows later registrations and deletions
    b = w.Basis(E, q, sectors_map('s2'))
    S.prove('known_bases.after-creation', bool(e.known_bases.contains(q)))
    w.Basis.del_instance((E, q))
    S.prove('known_bases.after-deletion', not bool(e.known_bases.contains(q)))


def known_translators(S, w):
    regs = state(w)
    E, B = skey('eft'), skey('basis')
    q = (skey('q'), skey('q'), skey('q'))
    CTX.engine.add_key(q)
    inT = bool(regs['Translator'][0].contains(q))
    if CTX.engine.decide(SBool(z3.Bool('of-eft'))):
        e = w.EFT(E, sectors_map('s'))
        got = bool(e.known_translators.contains(q))
        S.prove('EFT.known_translators', got == (inT and bool(key_eq(q[0], E))))
    else:
        b = w.Basis(E, B, sectors_map('s'))
        kt = b.known_translators
        S.prove('Basis.known_translators.keys', isinstance(kt, dict) and sorted(kt) == ['from', 'to'])
        got = bool(kt['from'].contains(q))
        S.prove('Basis.known_translators.from', got == (inT and bool(key_eq(q[0], E)) and bool(key_eq(q[1], B))))
        got = bool(kt['to'].contains(q))
        S.prove('Basis.known_translators.to', got == (inT and bool(key_eq(q[0], E)) and bool(key_eq(q[2], B))))
    S.prove('known_translators.frame', regs['Translator'][0].fn is regs['Translator'][1])
    w.Translator.clear_all()
    if CTX.engine.decide(SBool(z3.Bool('of-eft2'))):
        e = w.EFT(E, sectors_map('s3'))
        S.prove('EFT.known_translators.after-clear', not bool(e.known_translators))


def initial(S, w, kind):
    K = getattr(w, kind)
    if kind in ('Translator', 'Matcher'):
        # only the conversions of the package are registered
        K.clear_all()
    q = key(KINDS[kind], 'q')
    for via in (0, 1):
        S.prove(kind + '.initially-empty', lookup(w, kind, q, via)[0] == 'KeyError')
