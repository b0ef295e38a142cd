"""SMEFTsim cards over arbitrary subsets of coefficients with arbitrary values."""
from .maplib import *
from pyvc.symmap import OptMap
from spec import smeftsim as SP
import re
import types as _types


def run(S):
    mod = S.mod('wcxf.converters.smeftsim')
    S.parallel([((lambda ms=ms, sch=sch, t=t: card(S, mod, ms, sch, t)), 'set %s, %s%s' % (ms, sch, ', Re/Im' if t else ''))
                for ms in 'AB' for sch in ('alpha', 'mw') for t in (False, True)] +
               [((lambda ms=ms, sch=sch: text(S, mod, ms, sch)), 'text %s, %s' % (ms, sch))
                for ms in 'AB' for sch in ('alpha', 'mw')])
    S.bounded.append('coefficient names: the 1356 coefficients of the card tables (spec/smeftsim.json), '
                     'every subset present, every value, every cut-off scale; 2 model sets x 2 input schemes (all)')
    S.assumed.append("format(x, '.6e') is the decimal numeral of x; numpy.angle is the principal argument")


def value(S, tok, name):
    """The number written in an entry."""
    if isinstance(tok, str):
        m = re.fullmatch('\u27e6(\\d+)\u27e7', tok.strip())
        if m:
            n, spec = S.eng.tokens[int(m.group(1))]
            S.prove('real-number[%s]' % name, num(n).ty != 'complex')
            d = re.fullmatch(r'\s?\+?[<>]?\d*\.(\d+)[eE]|\.?(\d*)[gG]|', spec)
            digits = 17 if not spec else int(d.group(1) or d.group(2) or 6) if d else 0
            S.prove('precision[%s]' % name, digits >= 6, spec)
            return n
        try:
            from fractions import Fraction
            return Num.const(Fraction(tok.strip()))
        except ValueError:
            S.prove('number[%s]' % name, False, tok)
            return None
    if isinstance(tok, (Num, int, float)):
        return num(tok)
    raise Unsupported('entry %r' % (tok,))


def card(S, mod, ms, scheme, typed):
    rows = SP.rows(ms)
    real = {k for p, k, _ in rows.values() if p == 're'}
    known = {k for p, k, _ in rows.values() if k}
    vals = {}

    def val(k):
        if k not in vals:
            if k not in known:
                raise Unsupported('name %s' % k)
            r = k in real
            # real coefficients may be given as a number or as {Re: x, Im: 0}
            v = Num.sym('C[%s]' % k, 'real' if r else 'complex', ty='float' if r else 'complex')
            vals[k] = Num(v.p, 'complex', v.np) if typed else v
        return vals[k]
    d = OptMap('wc', val)
    wc = _types.SimpleNamespace(dict=d, eft='SMEFT', basis='Warsaw mass', scale=S.scale())
    lam = Num.sym('Lambda', 'pos', ty='float')
    c0 = mod.initialize_smeftsim_card(ms)
    out = mod.smeftsim_card_fill(c0, wc, ms, lam, scheme)
    S.prove('frame.wc', wc.dict is d and d.mut == 0 and not d.extra)
    S.prove('shape', isinstance(out, dict) and set(out) == {'Block'})
    exp = dict(rows)
    extra = SP.MW.get(ms) if scheme == 'mw' else None
    seen = {}
    for b, v in out['Block'].items():
        S.prove('block-shape[%s]' % b, isinstance(v, dict) and set(v) == {'values'}, b)
        for e in v['values']:
            e = list(e)
            pos = (b, tuple(e[:-2]))
            S.prove('one-entry-per-position', pos not in seen, str(pos))
            seen[pos] = e[-2:]
    if extra:
        pos = (extra[0], extra[1])
        S.prove('mw-entry', pos in seen, str(pos))
        if pos in seen:
            S.equal('mw-value', value(S, seen.pop(pos)[0], 'MW'), Num.const(__import__('fractions').Fraction('80.387')))
    S.prove('positions', set(seen) == set(exp), 'set %s: missing %s, unexpected %s' % (
        ms, [exp[p][2] for p in exp if p not in seen][:5], [p for p in seen if p not in exp][:5]))
    for p in exp:
        if p not in seen:
            continue
        part, k, label = exp[p]
        tok, lab = seen[p]
        S.prove('label[%s]' % label, lab.lstrip('# ').strip() == label, '%s at %s' % (lab, p))
        x = value(S, tok, label)
        if x is None:
            continue
        if part == 'scale':
            e = lam
        else:
            t = num(d.total(k, 0))
            e = it_angle(S, t) if part == 'ph' else (abs(t) if part == 'abs' else t.real) * lam * lam
        S.equal('value[%s]' % label, x, e)


def it_angle(S, x):
    from pyvc.models import n_angle
    return n_angle(x)


def text(S, mod, ms, scheme):
    """The fixed part of a card defines no parameter of the coefficient blocks twice."""
    pre, post = mod.smeftsim_card_text(ms, scheme)
    S.prove('text.strings', isinstance(pre, str) and isinstance(post, str))
    S.prove('text.disjoint', not (blocks(pre) | blocks(post)) & {b.lower() for b, _ in SP.rows(ms)},
            str((blocks(pre) | blocks(post)) & {b.lower() for b, _ in SP.rows(ms)}))


def blocks(t):
    return {l.split()[1].lower() for l in t.split('\n') if l.split()[:1] and l.split()[0].lower() == 'block' and len(l.split()) > 1}
