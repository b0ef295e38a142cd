"""Decoding and encoding of coefficient values (unbounded dictionaries)."""
from collections import OrderedDict
from .maplib import *
from pyvc.values import SBool
import z3 as _z3

KINDS = ['float', 'int', 'str', 'both', 're', 'im', 'none', 'both-str', 'ordered']


def file_values(name, KINDS=KINDS):
    """Arbitrary dictionary name -> file value; the representation of every value
    is arbitrary too.  expected[key] = the number it stands for."""
    vals, exp = {}, {}

    def value(k):
        key = str(key_terms(k)[0])
        if key not in vals:
            kind = KINDS[-1]
            for n, c in enumerate(KINDS[:-1]):
                if CTX.engine.decide(SBool(_z3.Bool('kind_%s_%s_%s' % (name, key, c)))):
                    kind = c
                    break
            r = lambda p, ty='float': Num.sym('%s.%s[%s]' % (name, p, key), 'real', ty=ty)
            I = Num.const(1j)
            if kind == 'float':
                v = e = r('x')
            elif kind == 'int':
                v = e = r('n', 'int')
            elif kind == 'str':
                v = SStr.fresh('numeral_%s_%s' % (name, key))
                e = CTX.engine.numeral(v)
            elif kind == 'both':
                a, b = r('Re'), r('Im')
                v, e = {'Re': a, 'Im': b}, a + I * b
            elif kind == 'both-str':
                a, b = SStr.fresh('numre_%s_%s' % (name, key)), SStr.fresh('numim_%s_%s' % (name, key))
                v, e = {'Im': b, 'Re': a}, CTX.engine.numeral(a) + I * CTX.engine.numeral(b)
            elif kind == 're':
                e = r('Re')
                v = {'Re': e}
            elif kind == 'im':
                b = r('Im')
                v, e = {'Im': b}, I * b
            elif kind == 'ordered':
                a, b = r('Re', 'int'), r('Im')
                v, e = OrderedDict([('Re', a), ('Im', b)]), a + I * b
            else:
                v, e = {}, Num.const(0)
            vals[key] = v
            exp[key] = (kind, e, dict(v) if isinstance(v, dict) else v)
        return vals[key]
    m = SMap.base(name, value)
    m.expected = lambda k: (value(k), exp[str(key_terms(k)[0])])[1]
    m.value = value
    return m


def run(S):
    w = S.mod('wcxf')
    S.explore(lambda: decode(S, w), 'decode')
    S.explore(lambda: encode(S, w), 'encode')
    S.explore(lambda: roundtrip(S, w), 'encode, decode')
    S.assumed.append('float(s) of a numeral s is the number it denotes')


def decode(S, w):
    vals = file_values('values')
    before = vals.fn
    wc = w.WC('EFT', 'basis', S.scale(), vals)
    S.prove('decode.stored', wc.values is vals)
    q = skey('q')
    d = wc.dict
    p, v = d.at(q)
    inV = bool(vals.contains(q))
    S.prove('decode.names', bool(p) == inV)
    if not inV:
        return
    kind, e, snap = vals.expected(q)
    x = v()
    S.equal('decode.value.' + kind, x, e)
    S.prove('decode.is-number.' + kind, isinstance(x, Num) and x.ty in ('float', 'complex'))
    d2 = wc.dict
    p2, v2 = d2.at(q)
    S.prove('decode.again.names', bool(p2))
    S.equal('decode.again.value.' + kind, v2(), e)
    S.prove('decode.values-unchanged', wc.values is vals and vals.fn is before and unchanged(vals.value(q), snap))
    # another object built from the same values gives the same numbers
    wc2 = w.WC('EFT', 'basis', S.scale('mu2'), vals)
    p3, v3 = wc2.dict.at(q)
    S.prove('decode.shared.names', bool(p3))
    S.equal('decode.shared.value.' + kind, v3(), e)


def unchanged(v, snap):
    if isinstance(v, dict):
        return list(v) == list(snap) and all(v[k] is snap[k] for k in snap)
    return v is snap


def source(S, name):
    """Arbitrary dictionary name -> number of any numeric type."""
    vals = {}

    def value(k):
        key = str(key_terms(k)[0])
        if key not in vals:
            t = 'complex'
            for c in ('float', 'int'):
                if CTX.engine.decide(SBool(_z3.Bool('type_%s_%s_%s' % (name, key, c)))):
                    t = c
                    break
            np_ = CTX.engine.decide(SBool(_z3.Bool('numpy_%s_%s' % (name, key))))
            vals[key] = Num.sym('%s[%s]' % (name, key), 'complex' if t == 'complex' else 'real', ty=t, np=np_)
        return vals[key]
    m = SMap.base(name, value)
    m.value = value
    return m


def encode(S, w):
    src = source(S, 'd')
    before = src.fn
    out = w.WC.dict2values(src)
    q = skey('q')
    p, v = out.at(q)
    here = bool(src.contains(q))
    S.prove('encode.names', bool(p) == here)
    S.prove('encode.input-unchanged', src.fn is before)
    if not here:
        return
    z, x = src.value(q), v()
    if bool(num_eq(num(z).imag, 0)):
        S.prove('encode.real-is-plain', isinstance(x, Num) and x.ty == 'float' and not x.np)
        if isinstance(x, Num):
            S.equal('encode.real-value', x, z)
    else:
        S.prove('encode.complex-is-pair', type(x) is dict and sorted(x) == ['Im', 'Re'])
        if isinstance(x, dict) and sorted(x) == ['Im', 'Re']:
            S.prove('encode.pair-types', all(isinstance(y, Num) and y.ty == 'float' and not y.np for y in x.values()))
            S.equal('encode.Re', x['Re'], num(z).real)
            S.equal('encode.Im', x['Im'], num(z).imag)


def roundtrip(S, w):
    src = source(S, 'd')
    wc = w.WC('EFT', 'basis', S.scale(), w.WC.dict2values(src))
    q = skey('q')
    p, v = wc.dict.at(q)
    here = bool(src.contains(q))
    S.prove('roundtrip.names', bool(p) == here)
    if here:
        S.equal('roundtrip.value', v(), src.value(q))
