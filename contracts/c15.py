"""EOS export over arbitrary coefficient sets, parameter sets and files."""
from .maplib import *
from .c01 import file_values
from .c06 import Doc, Stream, freeze, setup as docs
from spec import eos as SP
import types as _types


def run(S):
    it = docs(S)
    eos = S.mod('wcxf.converters.eos')
    w = S.mod('wcxf')
    n, m = len(S.eng.obligations), len(S.eng.undecided)
    S.explore(lambda: any_files(S, it, eos), 'files')
    few = ''
    if len(S.eng.undecided) > m:
        # out of reach: some files
        few = '; up to 3 parameter files'
        del S.eng.undecided[m:]
        S.eng.obligations[n:] = [o for o in S.eng.obligations[n:] if o.status == 'refuted']
    S.parallel([((lambda n=n: files(S, it, eos, n)), '%d files' % n) for n in (3, 2, 1, 0) if few] +
               [((lambda name=name: one(S, w, eos, name)), name) for name in SP.names()])
    if hasattr(eos, 'get_eos_np'):
        S.explore(lambda: loop(S, w, eos), 'all parameters')
        S.eng.contracts.pop('wcxf.converters.eos.get_eos_np', None)
    S.bounded.append('parameter names: the %d names of the exported families (spec/eos.py), every other quantity arbitrary' % len(SP.names()) + few)
    S.assumed.append("glob.glob returns the files of the directory; yaml.load(file) is its content")


def sm_entry(tag):
    return {q: Num.sym('%s.%s' % (tag, q), 'real', ty='float') for q in ('central', 'min', 'max')}


def one(S, w, eos, name):
    """One parameter, arbitrary coefficients."""
    vals = file_values('values', ['float', 'both'])
    before = vals.fn
    part, ks = SP.meaning(name)
    if '{' in name:
        CTX.engine.assume(s_not(vals.contains(name)))          # not names of the EOS basis
        plain = name.replace('Re{', '').replace('Im{', '').replace('}', '')
        if len(ks) == 2:
            CTX.engine.assume(s_not(vals.contains(plain)))
    wc = w.WC('WET', 'EOS', S.scale(), vals)
    entry = sm_entry('sm')
    snap = dict(entry)
    sm = {name: entry}
    try:
        out = eos.wcxf2eos(wc, sm)
        r = 'ok'
    except ValueError:
        r = 'ValueError'
    S.prove('frame.sm', list(sm) == [name] and sm[name] is entry and list(entry) == list(snap) and
            all(entry[q] is snap[q] for q in snap))
    S.prove('frame.wc', wc.values is vals and vals.fn is before)
    x = []
    for k in ks:
        here = bool(vals.contains(k))
        x.append(vals.expected(k)[1] if here else Num.const(0))
    if len(ks) == 2:
        lfu = bool(num_eq(x[0], x[1]))
        S.prove('lepton-universality', (r == 'ok') == lfu, name)
        if not lfu:
            return
    else:
        S.prove('no-error', r == 'ok', name)
    if r != 'ok':
        return
    v = num(x[0])
    e = entry['central'] + (v.real if part == 're' else v.imag)
    S.prove('names', isinstance(out, dict) and list(out) == [name])
    if list(out) != [name]:
        return
    S.prove('quantities', sorted(out[name]) == ['central', 'max', 'min'], str(list(out[name])))
    for q in ('central', 'min', 'max'):
        S.equal('value.%s[%s]' % (q, name), out[name].get(q), e)


def loop(S, w, eos):
    """Any number of parameters with any names; get_eos_np under contract."""
    vals = file_values('values', ['float', 'both'])
    wc = w.WC('WET', 'EOS', S.scale(), vals)
    ents, nps = {}, {}

    def value(k):
        t = str(key_terms(k)[0])
        if t not in ents:
            ents[t] = sm_entry('sm[%s]' % t)
        return ents[t]
    sm = SMap.base('sm', value)
    bad = z3.Function('nonuniversal', PyStr, z3.BoolSort())

    def np_(f, args, kw):
        b = f.bind(args, kw)
        k = [v for v in b.values() if isinstance(v, (str, SStr))][0]
        S.prove('loop.passes-coefficients', any(v is wc for v in b.values()))
        if CTX.engine.decide(SBool(bad(key_terms(k)[0]))):
            raise ValueError('not universal')
        t = str(key_terms(k)[0])
        if t not in nps:
            nps[t] = Num.sym('np[%s]' % t, 'real', ty='float')
        return nps[t]
    S.eng.contracts['wcxf.converters.eos.get_eos_np'] = np_
    before = sm.fn
    try:
        out = eos.wcxf2eos(wc, sm)
    except ValueError:
        S.prove('loop.error-only-if-not-universal', exists(
            lambda k: s_and(sm.contains(k), mk_bool(bad(key_terms(k)[0]))), 0, ('nonuni',)))
        return
    q = skey('q')
    p, v = out.at(q)
    here = bool(sm.contains(q))
    S.prove('loop.names', bool(p) == here)
    S.prove('loop.frame', sm.fn is before)
    if not here:
        return
    o = v()
    t = str(key_terms(q)[0])
    S.prove('loop.quantities', sorted(o) == ['central', 'max', 'min'])
    for c in ('central', 'min', 'max'):
        S.equal('loop.value.' + c, o.get(c), value(q)['central'] + nps.get(t, 0))
        S.prove('loop.entry-unchanged', o is not value(q))


class File(Stream):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


KINDS = ['absent', 'empty', 'true', 'false', 'other', 'true+']


def files(S, it, eos, n):
    kinds, maps = [], []
    for i in range(n):
        k = KINDS[-1]
        for c in KINDS[:-1]:
            if CTX.engine.decide(SBool(z3.Bool('file%d_%s' % (i, c)))):
                k = c
                break
        kinds.append(k)
        maps.append(coeff_map('file%d' % i, real=True))
    for a in maps:
        CTX.engine.assume(s_not(a.contains('@metadata@')))

    def content(i):
        m = maps[i].frozen()
        k = kinds[i]
        if k != 'absent':
            m['@metadata@'] = {'empty': {}, 'true': {'wcxf-relevant': True}, 'false': {'wcxf-relevant': False},
                               'other': {'x': 1}, 'true+': {'x': 1, 'wcxf-relevant': True}}[k]
        return m
    names = ['/dir/f%d.yaml' % i for i in range(n)]

    def op(path, mode='r', *a, **k):
        if path not in names or 'r' not in mode:
            raise Unsupported('open %r' % (path,))
        return File(Doc('yaml', content(names.index(path))))
    out = read(S, it, eos, op, _types.SimpleNamespace(
        glob=lambda p, **k: list(names), iglob=lambda p, **k: iter(list(names))))
    q = skey('q')
    if isinstance(out, SMap):
        p, v = out.at(q)
    else:
        p, v = False, None
        S.prove('files.empty', len(out) == 0)
    rel = [i for i in range(n) if kinds[i].startswith('true')]
    inn = [i for i in rel if bool(maps[i].contains(q))]
    S.prove('files.names', bool(p) == bool(inn), str(kinds))
    if inn and bool(p):
        x = v()
        S.prove('files.values', s_or(*[num_eq(x, maps[i].value(q)) for i in inn]))


def read(S, it, eos, op, g, then=lambda out: out):
    """get_sm_wcs with these files (what is asked of the result in `then` is
    evaluated with the files in place)."""
    old = it.open_hook
    it.open_hook = op
    mod = S.mod('wcxf.converters.eos')
    oldg = getattr(mod, 'glob', None)
    mod.glob = g
    if oldg is None:
        raise Unsupported('glob not used')
    try:
        return then(eos.get_sm_wcs('/dir'))
    finally:
        it.open_hook = old
        mod.glob = oldg


def any_files(S, it, eos):
    """Any number of files with any content."""
    eng = CTX.engine
    M = '@metadata@'
    vals, metas = {}, {}

    def value(name, s, k):
        t = (str(key_terms(s)[0]), str(key_terms(k)[0]))
        if t not in vals:
            vals[t] = Num.sym('file[%s][%s]' % t, 'real', ty='float')
        return vals[t]
    files = sectors_map('file', value)
    pred = {c: z3.Function('file_' + c, PyStr, z3.BoolSort()) for c in KINDS[:-1]}

    def kind(path):
        for c in KINDS[:-1]:
            if eng.decide(SBool(pred[c](key_terms(path)[0]))):
                return c
        return KINDS[-1]

    def content(path):
        m = files.at(path)[1]().frozen()
        eng.assume(s_not(m.contains(M)))
        k = kind(path)
        if k != 'absent':
            m[M] = {'empty': {}, 'true': {'wcxf-relevant': True}, 'false': {'wcxf-relevant': False},
                    'other': {'x': 1}, 'true+': {'x': 1, 'wcxf-relevant': True}}[k]
        return m

    def op(path, mode='r', *a, **k):
        if not isinstance(path, SStr) or 'r' not in mode:
            raise Unsupported('open %r' % (path,))
        return File(Doc('yaml', content(path)))
    paths = lambda p, **k: SSeq([0], lambda pos: files.contains(pos[0]), lambda pos: pos[0], True)
    def has(f, q):
        """q is a parameter of the relevant file f"""
        if not bool(s_and(files.contains(f), files.at(f)[1]().contains(q))):
            return False
        return kind(f).startswith('true')

    def then(out):
        if not isinstance(out, SMap):
            raise Unsupported('result %r' % (out,))
        q = skey('q')
        eng.assume(s_not(key_eq(q, M)))
        p, v = out.at(q)
        if bool(p):
            x = v()
            fs = [k for k in eng.keys if not isinstance(k, tuple) and k is not q]
            S.prove('files.values', any(has(f, q) and bool(num_eq(x, value('file', f, q))) for f in fs),
                    'a value that is not in a relevant file')
        else:
            S.prove('files.complete', not has(skey('f'), q), 'a parameter of a relevant file is missing')
        S.prove('files.no-metadata', not bool(out.at(M)[0]))
    read(S, it, eos, op, _types.SimpleNamespace(glob=paths, iglob=paths), then)
