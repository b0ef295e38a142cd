"""SMEFTsim cards of random coefficient sets, read back from their text."""
import cmath
import io
import pylha
from native.wetlib import *
from wcxf.converters import smeftsim as ss
from spec import smeftsim as SP


def parse(text):
    """{(block, position): (value text, label)} of a card, duplicates listed."""
    out, dup, block = {}, [], None
    for l in text.split('\n'):
        l = l.rstrip()
        w = l.split()
        if not w or w[0].startswith('#'):
            continue
        if w[0].lower() == 'block':
            block = w[1] if w[1].lower() != 'qnumbers' else None
            continue
        if w[0].lower() == 'decay':
            block = None
            continue
        if block is None:
            continue
        body, _, lab = l.partition('#')
        w = body.split()
        if len(w) < 2:
            continue
        pos = (block, tuple(int(x) for x in w[:-1]))
        if pos in out:
            dup.append(pos)
        out[pos] = (w[-1], lab.strip())
    return out, dup


def number(t):
    try:
        return float(t)
    except ValueError:
        return None


def expected(rows, d, lam):
    out = {}
    for pos, (part, k, label) in rows.items():
        x = complex(d.get(k, 0)) if k else 0
        out[pos] = lam if part == 'scale' else cmath.phase(x) if part == 'ph' else \
            abs(x) * lam**2 if part == 'abs' else x.real * lam**2
    return out


def form(R, x, real):
    r = R.rng.random()
    if real:
        x = x.real
        return x if r < .6 else {'Re': x} if r < .8 else {'Re': x, 'Im': 0.}
    if isinstance(x, complex):
        if x.imag == 0 and r < .5:
            return x.real
        return {'Re': x.real, 'Im': x.imag} if x.real or r < .5 else {'Im': x.imag}
    return x


def one(R, ms, scheme, mode):
    rows = SP.rows(ms)
    real = {k for p, k, _ in rows.values() if p == 're'}
    names = sorted({k for p, k, _ in rows.values() if k})
    r = R.rng
    if mode == 'all':
        ks = list(names)
    elif mode == 'one':
        ks = [r.choice(names)]
    else:
        ks = [k for k in names if r.random() < .3]
    r.shuffle(ks)
    vals = {}
    for k in ks:
        x = r.choice([R.num(), R.num(), R.num(True), -abs(R.num(True)), R.num() * 1e-6, 0., 1j * R.num(True)])
        vals[k] = form(R, complex(x), k in real)
    lam = r.choice([1000, 1000., 246.22, 91.1876, 1., 10**r.uniform(1, 5), 1e16])
    wc = wcxf.WC('SMEFT', 'Warsaw mass', r.choice([1000., 91.19, 250]), dict(vals))
    d = {k: complex(v.get('Re', 0), v.get('Im', 0)) if isinstance(v, dict) else complex(v) for k, v in vals.items()}
    info = dict(set=ms, scheme=scheme, cutoff=lam, values={k: str(v) for k, v in list(vals.items())[:40]})
    card = ss.smeftsim_card_fill(ss.initialize_smeftsim_card(ms), wc, ms, lam, scheme)
    R.check('wc unchanged', wc.values == vals, None, **info)
    f = io.StringIO()
    pre, post = ss.smeftsim_card_text(ms, scheme)
    f.write(pre)
    pylha.dump(card, fmt='lha', stream=f)
    f.write(post)
    got, dup = parse(f.getvalue())
    R.check('one entry per position', not dup, str(dup[:5]), **info)
    exp = expected(rows, d, lam)
    blocks = {b for b, _ in rows}
    mw = SP.MW.get(ms) if scheme == 'mw' else None
    have = {p for p in got if p[0] in blocks}
    if mw:
        R.check('W mass entry', (mw[0], mw[1]) in have and number(got[mw[0], mw[1]][0]) == mw[2], None, **info)
        have.discard((mw[0], mw[1]))
    R.check('positions', have == set(rows), 'missing %s, unexpected %s' % (
        sorted(set(rows) - have)[:4], sorted(have - set(rows))[:4]), **info)
    for p in rows:
        if p not in got:
            continue
        part, k, label = rows[p]
        t, lab = got[p]
        if lab != label:
            R.check('label', False, 'at %s %s: %r instead of %r' % (p[0], p[1], lab, label), **info)
        x = number(t)
        e = exp[p]
        ok = x is not None and abs(x - e) <= 1.1e-6 * abs(e) + 1e-300
        if not ok and part == 'ph' and x is not None:
            ok = abs(abs(x - e) - 2 * cmath.pi) < 1e-5 and abs(abs(e) - cmath.pi) < 1e-12
        if not ok:
            R.check('value', False, '%s (%s): %s instead of %r' % (label, k, t, e), coefficient=str(vals.get(k)), **info)
    R.cases += len(rows)


def run(R):
    combos = [(ms, sch) for ms in 'AB' for sch in ('alpha', 'mw')]
    for ms, sch in combos:
        R.guard('empty %s %s' % (ms, sch), lambda: one(R, ms, sch, 'one'))
        R.guard('full %s %s' % (ms, sch), lambda: one(R, ms, sch, 'all'))
    while R.time_left(12):
        ms, sch = R.rng.choice(combos)
        R.guard('card %s %s' % (ms, sch), lambda: one(R, ms, sch, R.rng.choice(['all', 'some', 'some', 'one'])))
