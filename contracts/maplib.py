"""Arbitrary (unbounded) dictionaries for contracts on the generic classes."""
import z3
from .common import *
from pyvc.symmap import SMap, SIter, SSeq, SSet, exists, key_eq, key_terms, fresh_key
from pyvc.values import SStr, SName, PyStr, Fold, Prev, Opaque, mk_bool, s_and, s_or, s_not, zbool


def skey(name='k'):
    k = SStr.fresh('%s%d' % (name, CTX.engine.fresh_id()))
    CTX.engine.add_key(k)
    return k


def sectors_map(name, props=None):
    """Arbitrary table sector -> (coefficient -> properties)."""
    props = props or plain_props
    pf = z3.Function('in2_' + name, PyStr, PyStr, z3.BoolSort())
    inner = {}

    def value(s):
        key = str(key_terms(s)[0])
        if key not in inner:
            def fn(k, s=s):
                if isinstance(k, tuple):
                    return False, None
                return mk_bool(pf(key_terms(s)[0], key_terms(k)[0])), (lambda: props(name, s, k))
            inner[key] = SMap(fn, '%s[%s]' % (name, key))
        return inner[key]
    m = SMap.base(name, value)
    m.member2 = lambda s, k: s_and(m.contains(s), mk_bool(pf(key_terms(s)[0], key_terms(k)[0])))
    return m


def plain_props(name, s, k):
    return {'tex': SStr.fresh('tex_%s' % name)}


class PropMap(SMap):
    def __bool__(self):
        return self.some() or SMap.__bool__(self)


class Props:
    """Arbitrary properties of a coefficient: None, or a dictionary that may
    hold 'tex', 'real' and more, as functions of sector and name."""
    def __init__(self, name):
        f = lambda n, T: z3.Function('%s_%s' % (n, name), PyStr, PyStr, T)
        self.none_, self.hastex, self.hasreal, self.isreal = [f(n, z3.BoolSort()) for n in ('none', 'hastex', 'hasreal', 'real')]
        self.tex_ = f('tex', PyStr)
        self.more = z3.Function('more_' + name, PyStr, PyStr, PyStr, z3.BoolSort())
        self.memo = {}

    def a(self, s, k):
        return key_terms(s)[0], key_terms(k)[0]

    def none(self, s, k):
        return mk_bool(self.none_(*self.a(s, k)))

    def tex(self, s, k):
        """The LaTeX code given for the coefficient, '' if there is none."""
        if bool(self.none(s, k)) or not bool(mk_bool(self.hastex(*self.a(s, k)))):
            return ''
        return SStr(self.tex_(*self.a(s, k)))

    def real(self, s, k):
        return not bool(self.none(s, k)) and bool(mk_bool(self.hasreal(*self.a(s, k)))) and bool(mk_bool(self.isreal(*self.a(s, k))))

    def __call__(self, name, s, k):
        if bool(self.none(s, k)):
            return None
        t = self.a(s, k)
        key = str(t)
        if key not in self.memo:
            def fn(q):
                if isinstance(q, tuple):
                    return False, None
                if bool(key_eq(q, 'tex')):
                    return mk_bool(self.hastex(*t)), (lambda: SStr(self.tex_(*t)))
                if bool(key_eq(q, 'real')):
                    return mk_bool(self.hasreal(*t)), (lambda: mk_bool(self.isreal(*t)))
                return mk_bool(self.more(*t, key_terms(q)[0])), (lambda: Opaque('property'))
            m = self.memo[key] = PropMap(fn, 'props')
            m.some = lambda: bool(mk_bool(self.hastex(*t))) or bool(mk_bool(self.hasreal(*t)))
        return self.memo[key]


def pieces(text):
    """Literal strings and unknown parts of a text."""
    import re
    if isinstance(text, SStr):
        return [text]
    out = []
    for i, x in enumerate(re.split('\u27e6(\\d+)\u27e7', text)):
        if i % 2:
            n, spec = CTX.engine.tokens[int(x)]
            m = re.match(r'^[<>^]?\d*(?:\.(\d+)([eg]))?s?$', spec)
            if not m or m.group(1) and int(m.group(1)) < (17 if m.group(2) == 'g' else 16):
                raise Unsupported('format %r may not show the whole value' % spec)
            out.append(n)
        elif x:
            out.append(x)
    return out


def coeff_map(name, real=False):
    """Arbitrary dictionary name -> number; the value at a key is a function of the key."""
    vals = {}

    def value(k):
        key = str(key_terms(k)[0])
        if key not in vals:
            vals[key] = Num.sym('%s[%s]' % (name, key), 'real' if real else 'complex', ty='float' if real else 'complex')
        return vals[key]
    m = SMap.base(name, value)
    m.value = value
    return m


def num_eq(a, b):
    """SBool / bool: two numbers are equal."""
    return num(a) == num(b)
