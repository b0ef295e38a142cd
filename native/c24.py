"""Texts of coefficient files and bases on the real code."""
import copy
import re
from collections import OrderedDict
import wcxf

NAMES = ['C7_bs', "C7'_bs", 'phi', 'lq1_1123', 'G', 'x', 'y y', 'CVLL_bsbs', '9mu_bs', 'qqql_1211', 'll_1122', 'Wtilde', 'S1duLL']
SN = ['sb', 'dB=de=dmu=dtau=0', 'mutau', 's', 't t']
TEX = ['C_7', r'\bar s_L\sigma^{\mu\nu}b_R F_{\mu\nu}', '', 'x', r'\frac{1}{2}']


def rows(text, n):
    """Cells of all table rows with n cells (heading and separator left out)."""
    out = []
    for l in text.split('\n'):
        l = l.strip()
        if l.startswith('|') and l.endswith('|'):
            c = [x.strip() for x in l[1:-1].split('|')]
            if len(c) == n and set(''.join(c)) - set('-: '):
                out.append(c)
    return out


def is_table(text, n):
    """The rows with n cells form one table: heading, separator, rows."""
    ls = [l.strip() for l in text.split('\n')]
    i = next((i for i, l in enumerate(ls) if l.startswith('|')), None)
    if i is None or i + 1 >= len(ls):
        return False
    return ls[i].count('|') == n + 1 and re.match(r'^(\|\s*:?-+:?\s*){%d}\|$' % n, ls[i + 1]) is not None


def number(s):
    try:
        return complex(s.replace(' ', '').strip('$`'))
    except ValueError:
        return None


def run(R):
    r = R.rng
    saved = [(K, getattr(K, 'instances', None)) for K in (wcxf.EFT, wcxf.Basis)]
    try:
        n = 0
        while R.time_left(8) and n < 1500 * R.n and not R.failures:
            n += 1
            wc(R)
            basis(R)
            R.cases += 2
    finally:
        for K, i in saved:
            if i is not None:
                K.instances = i


def value(R):
    r = R.rng
    x = r.choice([R.num(True), R.num(True) * 10 ** r.uniform(-12, 12), r.randint(-5, 5), 0, 1e-300, 123456789.123456789])
    y = r.choice([R.num(True), 0, -0.0, 1e-20, r.uniform(-1, 1)])
    return r.choice([(x, complex(x)), (x, complex(x)), ({'Re': x, 'Im': y}, complex(x, y)), ({'Im': y}, complex(0, y)), ({'Re': x}, complex(x)),
                     (repr(x), complex(x))])


def wc(R):
    r = R.rng
    e, b = r.choice(['SMEFT', 'WET', 'WET-4', 'x y']), r.choice(['Warsaw', 'Warsaw up', 'flavio', 'B'])
    names = r.sample(NAMES, r.randint(0, 8))
    vals, exp = {}, {}
    for k in names:
        vals[k], exp[k] = value(R)
    q = r.choice([91.1876, 1000, 4.8, R.num(True)])
    data = dict(eft=e, basis=b, scale=q, values=vals)
    snap = copy.deepcopy(vals)
    x = wcxf.WC(e, b, q, vals)
    for how in ('str', 'markdown', 'format'):
        t = R.guard('WC.' + how, {'str': lambda: str(x), 'markdown': x._repr_markdown_, 'format': lambda: '{}'.format(x)}[how], **data)
        if t is R.FAILED:
            return
        if not R.check('WC.text', isinstance(t, str), 'not a text', **data):
            return
        head = t.split('| WC name')[0]
        R.check('WC.names-the-EFT', e in head, t[:200], **data)
        R.check('WC.names-the-basis', b in head, t[:200], **data)
        R.check('WC.scale', any(number(w) == float(q) for w in head.replace('GeV', ' ').split()), t[:300], **data)
        rs = [c for c in rows(t, 2) if c[0].strip('`') != 'WC name']
        R.check('WC.table', is_table(t, 2), t[:400], **data)
        got = {}
        for c in rs:
            nm = c[0][1:-1] if c[0][:1] == '`' and c[0][-1:] == '`' else c[0]
            R.check('WC.row-iff-coefficient', nm in vals and nm not in got, 'row %r' % c, **data)
            got[nm] = c[1]
        R.check('WC.every-coefficient', set(got) == set(vals), 'rows for %s' % sorted(got), **data)
        for k, s in got.items():
            if k in exp:
                R.check('WC.row-value', number(s) == exp[k], '%s: %r, value %r' % (k, s, exp[k]), **data)
    rp = R.guard('WC.repr', repr, x, **data)
    R.check('WC.repr', isinstance(rp, str) and e in rp and b in rp, rp, **data)
    R.check('WC.frame', vals == snap and x.values is vals and (x.eft, x.basis) == (e, b), 'showing the file changed it', **data)


def basis(R):
    r = R.rng
    wcxf.Basis.clear_all()
    e, b = r.choice(['SMEFT', 'WET', 'E']), r.choice(['Warsaw', 'flavio', 'B x'])
    keys = r.sample(NAMES, len(NAMES))
    t = OrderedDict()
    for s in r.sample(SN, r.randint(0, 4)):
        t[s] = OrderedDict()
        for k in [keys.pop() for _ in range(min(len(keys), r.choice([0, 1, 2, 3])))]:
            d = {}
            if r.random() < .7:
                d['tex'] = r.choice(TEX)
            if r.random() < .5:
                d['real'] = r.choice([True, False])
            if r.random() < .2:
                d['comment'] = 'z'
            t[s][k] = None if r.random() < .2 else d
    kw = r.choice([{}, {'metadata': {}}, {'metadata': {'description': 'the description'}}, {'metadata': {'authors': 'a'}}])
    data = dict(eft=e, basis=b, sectors=t, **kw)
    x = wcxf.Basis(e, b, copy.deepcopy(t), **copy.deepcopy(kw))
    snap = copy.deepcopy({k: v for k, v in vars(x).items() if k != '_all_wcs'})
    head = R.guard('Basis.markdown', x._repr_markdown_, **data)
    full = R.guard('Basis.str', str, x, **data)
    rp = R.guard('Basis.repr', repr, x, **data)
    if R.FAILED in (head, full, rp):
        return
    R.check('Basis.repr', e in rp and b in rp, rp, **data)
    for nm, q in (('heading', head), ('text', full.split('\n#')[0])):
        R.check('Basis.%s.names-the-EFT' % nm, e in q, q[:200], **data)
        R.check('Basis.%s.names-the-basis' % nm, b in q, q[:200], **data)
    want = kw.get('metadata', {}).get('description')
    for q in (head, full):
        R.check('Basis.description', ('the description' in q) == (want is not None), q[:200], **data)
    R.check('Basis.frame', snap == {k: v for k, v in vars(x).items() if k != '_all_wcs'}, 'showing the basis changed it', **data)
    # sections
    sec, cur = OrderedDict(), None
    for l in full.split('\n'):
        if l.startswith('###'):
            cur = l.strip('#').strip().strip('`')
            R.check('Basis.section-iff-sector', cur in t and cur not in sec, l, **data)
            sec[cur] = []
        elif cur is not None:
            sec[cur].append(l)
    R.check('Basis.every-sector', set(sec) == set(t), 'sections %s' % list(sec), **data)
    for s, ls in sec.items():
        got = {}
        for c in rows('\n'.join(ls), 3):
            nm = c[0][1:-1] if c[0][:1] == '`' and c[0][-1:] == '`' else c[0]
            if nm == 'WC name':
                continue
            R.check('Basis.row-iff-coefficient', nm in t.get(s, {}) and nm not in got, 'sector %s: row %r' % (s, c), **data)
            got[nm] = c
        if got:
            R.check('Basis.table', is_table('\n'.join(ls), 3), '\n'.join(ls[:6]), **data)
        R.check('Basis.every-coefficient', set(got) == set(t.get(s, {})), 'sector %s: rows for %s' % (s, sorted(got)), **data)
        for k, c in got.items():
            d = t.get(s, {}).get(k) or {}
            R.check('Basis.row-operator', c[1].strip('$').strip() == d.get('tex', ''), '%s: %r' % (k, c), **data)
            R.check('Basis.row-type', c[2] == ('R' if d.get('real') else 'C'), '%s: %r' % (k, c), **data)
