"""dump, load and conversion of random documents on the real code."""
import copy
import io
import json
import yaml
import wcxf
from wcxf.converters import yamljson

TRICKY = ['yes', 'no', 'null', '~', '', ' ', '1e5', '1.0', '0x1f', '12:30', '2001-01-01', '- a', '# c', 'a: b', 'é', 'ψ', '"', "'", '\\bar{s}',
          'two\nlines', 'tab\t', '{x}', '[1]', '%', '@', '&a', '*a', '!t', '|', '>', 'true', 'Re', 'C9_bsmumu', '\u2028', '\U0001F600', 'x' * 200, 'word ' * 40]


def scalar(R):
    r = R.rng
    c = r.random()
    if c < .4:
        return r.choice(TRICKY)
    if c < .5:
        return r.choice([None, True, False])
    if c < .65:
        return r.choice([0, 1, -1, 10 ** 12, r.randint(-10 ** 6, 10 ** 6)])
    return r.choice([0.0, 1e-5, 1e22, -1.5, 1e-300, 5e-324, 1.7e308, 0.1, 1e16, 123456789.123456789, R.num(True), r.random()])


def value(R, depth=0):
    r = R.rng
    c = r.random()
    if depth > 3 or c < .5:
        return scalar(R)
    if c < .7:
        return [value(R, depth + 1) for _ in range(r.choice([0, 1, 3]))]
    return {k: value(R, depth + 1) for k in r.sample(TRICKY, r.choice([0, 1, 3]))}


def build(R):
    r = R.rng
    kw = {}
    if r.random() < .6:
        kw['metadata'] = value(R)
    if r.random() < .3:
        kw[r.choice(['note', 'x', 'generator', 'Author', 'parent_'])] = value(R)
    kind = r.choice(['EFT', 'Basis', 'WC'])
    names = [k for k in TRICKY if k]
    if kind == 'EFT':
        a = dict(eft=r.choice(names), sectors={k: r.choice([{}, {'dynamic': ['b', 's']}, value(R, 2)]) for k in r.sample(names, 2)}, **kw)
    elif kind == 'Basis':
        a = dict(eft=r.choice(names), basis=r.choice(names),
                 sectors={s: {k: r.choice([None, {}, {'tex': r.choice(TRICKY), 'real': True}]) for k in r.sample(names, 3)} for s in r.sample(names, r.choice([0, 1, 3]))}, **kw)
    else:
        a = dict(eft=r.choice(names), basis=r.choice(names), scale=r.choice([91.1876, 1, 4.8, 1e3, R.rng.uniform(1, 1e3)]),
                 values={k: r.choice([R.num(True), 0, 1, {'Re': R.num(True), 'Im': R.num(True)}, {'Im': 1e-9}, {'Re': 2}]) for k in r.sample(names, r.choice([0, 1, 6]))}, **kw)
    return kind, a


def use(R, kind, o):
    r = R.rng
    for _ in range(r.choice([0, 1, 3])):
        c = r.choice('rsdmt')
        try:
            if c == 'r':
                repr(o)
            elif c == 's' and kind == 'WC':
                str(o)
            elif c == 'd':
                o.dict if kind == 'WC' else o.all_wcs if kind == 'Basis' else o.known_bases
            elif c == 'm':
                o.dump(fmt=r.choice(['json', 'yaml']))
            elif c == 't':
                o.known_translators if kind != 'WC' else o.validate()
        except (ValueError, AssertionError):
            pass


def public(o):
    return {k: v for k, v in vars(o).items() if not k.startswith('_')}


def strict(a, b):
    """equal, and of the same JSON type"""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(strict(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(strict(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or a is None or isinstance(a, str):
        return type(a) is type(b) and a == b
    return isinstance(b, (int, float)) and not isinstance(b, bool) and a == b


def run(R):
    r = R.rng
    saved = [(K, getattr(K, 'instances', None)) for K in (wcxf.EFT, wcxf.Basis)]
    n = 0
    while R.time_left(10) and n < 1200 * R.n and not R.failures:
        n += 1
        wcxf.EFT.clear_all()
        wcxf.Basis.clear_all()
        kind, a = build(R)
        K = getattr(wcxf, kind)
        exp = copy.deepcopy(a)
        fmt = r.choice(['json', 'yaml', 'JSON', 'YAML', None])
        st = r.random() < .5
        opt = {}
        if r.random() < .3:
            opt = r.choice([{'indent': 4}, {'indent': None}] if (fmt or 'json').lower() == 'json' else
                           [{'default_flow_style': True}, {'default_flow_style': False}, {'indent': 4}])
        data = dict(kind=kind, attributes=exp, fmt=fmt, options=opt)

        def body():
            o = K(**a)
            use(R, kind, o)
            kw = dict(opt) if fmt is None else dict(opt, fmt=fmt)
            if st:
                s = io.StringIO()
                o.dump(s, **kw) if r.random() < .5 else o.dump(stream=s, **kw)
                text = s.getvalue()
            else:
                text = o.dump(**kw)
            return o, text
        out = R.guard('dump', body, **data)
        if out is R.FAILED:
            break
        o, text = out
        R.check('object-unchanged', strict(exp, public(o)), '%r' % public(o), **data)
        # the document itself, read without the package's loader
        try:
            if (fmt or 'json').lower() == 'json':
                doc = json.loads(text)
            else:
                doc = yaml.load(text, Loader=yaml.SafeLoader)
        except Exception as ex:
            R.check('document', False, '%s: %s' % (type(ex).__name__, ex), text=text, **data)
            break
        R.check('document', strict(exp, doc), 'document contains %r' % doc, text=text, **data)
        o2 = R.guard('load', lambda: K.load(io.StringIO(text) if r.random() < .5 else text), text=text, **data)
        if o2 is R.FAILED:
            break
        R.check('loaded', type(o2) is K and strict(exp, public(o2)), 'loaded %r' % public(o2), text=text, **data)
        if kind == 'WC':
            R.check('loaded.numbers', dict(o2.dict) == dict(K(**copy.deepcopy(exp)).dict), '%r' % o2.dict, text=text, **data)
        bad = r.choice(['xml', 'jsn', 'yml', '', 'json ', 'text', 'lha'])
        s = io.StringIO()
        R.guard('unknown-format', lambda: o.dump(s, fmt=bad), expect=ValueError, fmt=bad)
        R.check('unknown-format.nothing-written', s.getvalue() == '', s.getvalue())
        # conversion
        c = {k: value(R) for k in r.sample(TRICKY, r.choice([1, 2, 5]))}
        csnap = copy.deepcopy(c)
        for f, dumper, back in ((yamljson.convert_json, lambda x: yaml.safe_dump(x) if r.random() < .7 else yaml.safe_dump(x, default_flow_style=False), json.loads),
                                (yamljson.convert_yaml, lambda x: json.dumps(x), lambda t: yaml.load(t, Loader=yaml.SafeLoader))):
            src = dumper(c)
            dst = io.StringIO()
            rc = R.guard('convert', lambda: f(io.StringIO(src), dst), document=src)
            if rc is R.FAILED:
                break
            try:
                got = back(dst.getvalue())
            except Exception as ex:
                R.check('convert.readable', False, '%s: %s' % (type(ex).__name__, ex), document=src, output=dst.getvalue())
                break
            R.check('convert.content', strict(csnap, got) and not rc, 'status %r, got %r' % (rc, got), document=src)
        R.cases += 1
    # inherited bases
    for _ in range(20):
        wcxf.Basis.clear_all()
        p = wcxf.Basis('E', 'P', {'s': {'x': {'tex': 'a'}}, 't': {'y': None}})
        own = {r.choice(['s', 't', 'u']): {r.choice('xyz'): {}}}
        b = wcxf.Basis('E', 'B', own, parent='P', metadata={'a': 1})
        exp = copy.deepcopy(public(b))
        for fmt in ('json', 'yaml'):
            o2 = R.guard('child', lambda: wcxf.Basis.load(b.dump(fmt=fmt)), fmt=fmt)
            if o2 is not R.FAILED:
                R.check('child', public(o2) == exp, '%r' % public(o2), fmt=fmt)
    for K, i in saved:
        if i is not None:
            K.instances = i
