"""dump / load / conversion, with json and yaml as assumed contracts: a document
written by a library in its own format is read back as the same content."""
from .maplib import *
from pyvc.interp import Interp
import types as _types


class Doc(str):
    """A document: format and content."""
    def __new__(cls, fmt, content):
        o = str.__new__(cls, '<%s document>' % fmt)
        o.fmt, o.content = fmt, content
        return o


class Stream:
    def __init__(self, doc=None):
        self.docs = [doc] if doc is not None else []

    def read(self):
        return self.docs[0] if self.docs else ''

    def write(self, x):
        self.docs.append(x)


def freeze(d):
    """The content at the time of writing."""
    if isinstance(d, SMap):
        return d.frozen()
    if isinstance(d, dict):
        return {k: freeze(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [freeze(v) for v in d]
    return d


def lib(fmt, other, err, neutral):
    def get(s):
        if hasattr(s, 'read'):
            s = s.read()
        if not isinstance(s, Doc):
            raise Unsupported('%s: not a document' % fmt)
        if s.fmt != fmt and not (fmt == 'yaml' and s.fmt == 'json'):
            raise err('not %s' % fmt)
        return freeze(s.content)

    def kwcheck(kw):
        for k in kw:
            if k not in neutral:
                raise Unsupported('%s option %s' % (fmt, k))

    def loads(s, *a, **kw):
        if a or kw:
            raise Unsupported('%s.load options' % fmt)
        return get(s)

    def dump(d, stream=None, **kw):
        kwcheck(kw)
        doc = Doc(fmt, freeze(d))
        if stream is None:
            if fmt == 'json':
                raise TypeError('json.dump() needs a file')
            return doc
        stream.write(doc)

    def dumps(d, **kw):
        kwcheck(kw)
        return Doc(fmt, freeze(d))
    if fmt == 'json':
        return ((lambda s=None, *a, **kw: loads(kw.pop('fp', s), *a, **kw)),
                (lambda obj, fp=None, **kw: dump(obj, fp, **kw)), (lambda obj, **kw: dumps(obj, **kw)))
    return ((lambda stream, Loader=None, **kw: loads(stream, **kw)),        # the loaders agree on the content
             (lambda data, stream=None, **kw: dump(data, stream, **kw)), None)


class JSONDecodeError(ValueError):
    pass


class YAMLError(Exception):
    pass


def setup(S):
    it = Interp(REPO)
    l, d, ds = lib('json', 'yaml', JSONDecodeError, {'indent', 'sort_keys', 'separators', 'ensure_ascii'})
    it.external['json'] = _types.SimpleNamespace(
        loads=l, load=l, dump=d, dumps=ds, JSONDecodeError=JSONDecodeError,
        decoder=_types.SimpleNamespace(JSONDecodeError=JSONDecodeError))
    y = it.external['yaml']
    l, d, ds = lib('yaml', 'json', YAMLError, {'default_flow_style', 'indent', 'sort_keys', 'width', 'allow_unicode'})
    S.hooks = []
    y.__dict__.update(add_representer=lambda t, f, **k: S.hooks.append(('representer', t, f)),
                      add_constructor=lambda t, f, **k: S.hooks.append(('constructor', t, f)))
    y.__dict__.update(load=l, safe_load=l, full_load=l, dump=d, YAMLError=YAMLError)
    it.load('wcxf')
    S._it = it
    S.assumed.append('json/yaml: load(dump(x)) has the content x; a YAML document is not accepted by json; '
                     'a JSON document is valid YAML (exercised natively)')
    return it


class Any:
    """An arbitrary JSON value."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'any(%s)' % self.n

    def __bool__(self):
        return CTX.engine.decide(SBool(z3.Bool('true(%s)' % self.n)))


def public(o):
    return {k: v for k, v in vars(o).items() if not k.startswith('_')}


def same(a, b):
    """Same content: identical values, or maps that were not changed in between."""
    if a is b:
        return True
    if isinstance(a, SMap) and isinstance(b, SMap):
        return a.fn is b.fn
    if isinstance(a, Num) and isinstance(b, (Num, int, float)):
        return bool(num_eq(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def make(S, w, kind, extra):
    kw = {'metadata': Any('metadata')} if extra else {}
    if extra == 2:
        kw['note'] = Any('note')
    if extra == 3:
        # values that count as false
        kw = {'metadata': {}, 'note': None, 'url': '', 'count': 0, 'flag': False, 'list': []}
    if extra == 4:
        # an attribute with any name
        n = SName('attribute')
        e = CTX.engine
        e.assume(s_not(n[0] == '_'))
        for x in sorted(set(dir(getattr(w, kind))) | {'eft', 'basis', 'sectors', 'scale', 'values', 'parent', 'metadata',
                                                      'self', 'cls', 'stream', 'fmt'}):
            e.assume(s_not(n.sym == x))
        kw[n] = Any('attribute')
    if kind == 'EFT':
        args = dict(eft='E', sectors=sectors_map('es'))
        o = w.EFT(args['eft'], args['sectors'], **kw)
    elif kind == 'Basis':
        args = dict(eft='E', basis='B', sectors=sectors_map('bs'))
        o = w.Basis(args['eft'], args['basis'], args['sectors'], **kw)
    else:
        args = dict(eft='E', basis='B', scale=S.scale(), values=coeff_map('C', real=True))
        o = w.WC(args['eft'], args['basis'], args['scale'], args['values'], **kw)
    args.update(kw)
    return o, args


def use(kind, o):
    if kind == 'Basis':
        o.all_wcs
        o.known_translators
    elif kind == 'WC':
        o.dict
    else:
        o.known_bases


OPTIONS = {'json': [{'indent': None}, {'indent': 4}, {'sort_keys': True}, {'indent': 0, 'ensure_ascii': False}],
           'yaml': [{'default_flow_style': True}, {'default_flow_style': None}, {'indent': 4, 'width': 100}]}


def run(S):
    setup(S)
    w = S.mod('wcxf')
    for kind in ('EFT', 'Basis', 'WC'):
        for fmt in ('json', 'yaml', 'JSON', 'Yaml', None):
            for stream in (0, 1):
                for opt in OPTIONS[(fmt or 'json').lower()]:
                    S.explore(lambda: roundtrip(S, w, kind, fmt, stream, 1, 0, opt), '%s %s %s %s' % (kind, fmt, stream, opt))
                for extra in (0, 1, 2, 3, 4):
                    for used in (0, 1):
                        S.explore(lambda: roundtrip(S, w, kind, fmt, stream, extra, used),
                                  '%s %s %s %s %s' % (kind, fmt, stream, extra, used))
        S.explore(lambda: unknown(S, w, kind), 'unknown format')
    hooks(S)
    yj = S.mod('wcxf.converters.yamljson')
    for a, b in (('yaml', 'json'), ('json', 'yaml')):
        S.explore(lambda: convert(S, yj, a, b), 'convert %s to %s' % (a, b))


def roundtrip(S, w, kind, fmt, stream, extra, used, opt=None):
    w.EFT.clear_all()
    w.Basis.clear_all()
    o, args = make(S, w, kind, extra)
    tag = '%s.%s.' % (kind, (fmt or 'default').lower())
    S.prove(tag + 'attributes', same(public(o), args))
    if used:
        use(kind, o)
    kw = dict(opt or {})
    if fmt is not None:
        kw['fmt'] = fmt
    if opt:
        tag += 'options.'
    if stream:
        st = Stream()
        r = dump(S, tag, o, st, **kw)
        S.prove(tag + 'stream-written-once', len(st.docs) == 1 and r is None)
        doc = st.docs[0] if st.docs else None
    else:
        doc = dump(S, tag, o, **kw)
    ok = isinstance(doc, Doc)
    S.prove(tag + 'is-document', ok and doc.fmt == (fmt or 'json').lower())
    if not ok:
        return
    S.prove(tag + 'content', same(doc.content, args), 'document has %s' % [str.__str__(x) for x in doc.content])
    S.prove(tag + 'object-unchanged', same(public(o), args))
    # dumping again, in the other format
    doc2 = o.dump(fmt='yaml')
    S.prove(tag + 'dump-again', isinstance(doc2, Doc) and same(doc2.content, args))
    o2 = type(o).load(Stream(doc) if stream else doc)
    S.prove(tag + 'loaded-kind', type(o2) is type(o) and o2 is not o)
    S.prove(tag + 'loaded-content', same(public(o2), args))
    if kind == 'WC' and used:
        q = skey('q')
        p, v = o2.dict.at(q)
        inV = bool(args['values'].contains(q))
        S.prove(tag + 'loaded-names', bool(p) == inV)
        if inV:
            S.equal(tag + 'loaded-numbers', v(), args['values'].value(q))


def dump(S, tag, o, *a, **kw):
    try:
        return o.dump(*a, **kw)
    except TypeError as ex:
        S.prove(tag + 'dump', False, 'raises TypeError: %s' % ex)
        raise PathAbort()


def unknown(S, w, kind):
    o, args = make(S, w, kind, 1)
    f = SStr.fresh('fmt')
    CTX.engine.assume(s_not(f.lower() == 'json'))
    CTX.engine.assume(s_not(f.lower() == 'yaml'))
    st = Stream()
    try:
        o.dump(st, fmt=f)
        r = 'returned'
    except ValueError:
        r = 'ValueError'
    S.prove(kind + '.unknown-format', r == 'ValueError' and not st.docs)


def convert(S, yj, a, b):
    c = {'eft': Any('x'), 'sectors': sectors_map('s'), 'list': [Any('y')]}
    src, dst = Stream(Doc(a, c)), Stream()
    r = (yj.convert_json if b == 'json' else yj.convert_yaml)(src, dst)
    S.prove('convert.%s.one-document' % b, len(dst.docs) == 1 and isinstance(dst.docs[0], Doc))
    if dst.docs:
        S.prove('convert.%s.format' % b, dst.docs[0].fmt == b)
        S.prove('convert.%s.content' % b, same(freeze(c), dst.docs[0].content) or
                all(same(c[k], dst.docs[0].content.get(k)) for k in ('eft', 'sectors')) and dst.docs[0].content['list'][0] is c['list'][0])
    S.prove('convert.%s.status' % b, not r)


# ------------------------------------------------------------------- hooks of yaml
MAP = 'tag:yaml.org,2002:map'
NULL = 'tag:yaml.org,2002:null'


class Dumper:
    """What a representer does to the document is recorded."""
    def __init__(self):
        self.done = []

    def represent_mapping(self, tag, mapping, flow_style=None):
        self.done.append(('map', tag, mapping))
        return self.done[-1]

    def represent_dict(self, data):
        return self.represent_mapping(MAP, data)

    def represent_scalar(self, tag, value, style=None):
        self.done.append(('scalar', tag, value))
        return self.done[-1]

    def represent_none(self, data):
        return self.represent_scalar(NULL, 'null')

    def __getattr__(self, n):
        raise Unsupported('yaml representer method %s' % n)


class Loader:
    """A mapping node with arbitrary content."""
    def __init__(self, m):
        self.m = m

    def construct_pairs(self, node, deep=False):
        return SIter(self.m, 'items')

    def flatten_mapping(self, node):
        pass

    def __getattr__(self, n):
        raise Unsupported('yaml constructor method %s' % n)


def hooks(S):
    """The functions registered with yaml write and read the content unchanged."""
    import collections
    for kind, t, f in S.hooks:
        if kind == 'representer' and t is collections.OrderedDict:
            S.explore(lambda: mapping_hook(S, f), 'yaml representer of mappings')
        elif kind == 'representer' and t is type(None):
            S.explore(lambda: null_hook(S, f), 'yaml representer of null')
        elif kind == 'constructor' and t == MAP:
            S.explore(lambda: load_hook(S, f), 'yaml constructor of mappings')
        else:
            S.eng.undecided.append(('C06.yaml-hook', 'yaml %s of %r' % (kind, t)))


def mapping_hook(S, f):
    m = coeff_map('yh')
    fz = m.fn
    d = Dumper()
    r = f(d, m)
    ok = len(d.done) == 1 and r is d.done[0] and r[0] == 'map'
    S.prove('yaml.mapping.one-node', ok)
    if ok:
        c = r[2]
        if isinstance(c, SIter):
            S.prove('yaml.mapping.items', c.what == 'items')
            c = c.m
        if not isinstance(c, SMap):
            raise Unsupported('yaml mapping from %r' % (c,))
        S.prove('yaml.mapping.tag', r[1] == MAP)
        S.prove('yaml.mapping.content', c.fn is fz)
    S.prove('yaml.mapping.frame', m.fn is fz)


def null_hook(S, f):
    d = Dumper()
    r = f(d, None)
    S.prove('yaml.null', len(d.done) == 1 and r is d.done[0] and r[0] == 'scalar' and r[1] == NULL
            and r[2] in ('', '~', 'null', 'Null', 'NULL'), 'the plain scalars that YAML reads as null')


def load_hook(S, f):
    m = coeff_map('yl')
    r = f(Loader(m), object())
    if not isinstance(r, SMap):
        raise Unsupported('yaml constructor returned %r' % (r,))
    q = skey('q')
    p, v = r.at(q)
    inM = bool(m.contains(q))
    S.prove('yaml.load.names', bool(p) == inM)
    if inM and bool(p):
        S.equal('yaml.load.values', v(), m.value(q))
