"""Texts shown for coefficient files and bases: WC.__str__, Basis.__str__ and the
markdown they are made of, for files and bases of every size and content.

A text is a sequence of literal and unknown pieces; a loop that appends to it is
a fold over the dictionary it runs over, stated for an arbitrary position."""
import re
from .maplib import *
from .c01 import file_values


def label(n):
    return SStr.fresh('%s%d' % (n, CTX.engine.fresh_id()))


def run(S):
    w = S.mod('wcxf')
    S.eng.text = True
    for how in ('__str__', '_repr_markdown_'):
        S.explore(lambda: wc(S, w, how), 'WC ' + how)
    for meta in range(4):
        S.explore(lambda: basis(S, w, meta), 'Basis %d' % meta)
    S.explore(lambda: reprs(S, w), 'repr')
    S.assumed.append("'{}'.format(v) shows the value of v (Python's text of a number)")


def shape(ps):
    """The pieces as one string, unknown parts numbered."""
    u, out = [], ''
    for p in ps:
        if isinstance(p, str):
            out += p
        else:
            out += '\0%d\0' % len(u)
            u.append(p)
    return out, u


def row(S, tag, text, n):
    """Cells of a table row, each a literal or one unknown part."""
    sh, u = shape(pieces(text))
    m = re.match(r'^\s*\|([^|\n]*)' * 1 + r'\|([^|\n]*)' * (n - 1) + r'\|\s*$', sh)
    S.prove(tag + '.one-row', m is not None, sh)
    if m is None:
        return None
    out = []
    for c in m.groups():
        c = c.strip().strip('`$').strip()
        h = re.match('^\0(\\d+)\0$', c)
        out.append(u[int(h.group(1))] if h else c)
    return out


def table(S, tag, ps, f, n):
    """Heading and separator line come right before the rows."""
    sh, _ = shape(ps[:ps.index(f)])
    ls = [l.strip() for l in sh.split('\n')]
    S.prove(tag + '.table', len(ls) >= 3 and ls[-1] == '' and ls[-3].count('|') == n + 1 and
            re.match(r'^(\|\s*:?-+:?\s*){%d}\|$' % n, ls[-2]) is not None, sh[-300:])


def same(a, b):
    """Equality of two texts (literal or unknown)."""
    return key_eq(a, b) is True


def folds(ps):
    return [p for p in ps if isinstance(p, Fold)]


def at(S, tag, f, pos):
    """The text at a live position (an exception there is left to the native stage)."""
    try:
        return f.body(pos)
    except (PathAbort, Unsupported):
        raise
    except Exception as ex:
        raise Unsupported('%s raises %s: %s' % (tag, type(ex).__name__, ex))


def wc(S, w, how):
    E, B = label('eft'), label('basis')
    vals = file_values('C')
    fn = vals.fn
    Q = S.scale()
    x = w.WC(E, B, Q, vals)
    text = getattr(x, how)()
    ps = pieces(text)
    S.prove('WC.names-the-EFT', any(isinstance(p, SStr) and same(p, E) for p in ps))
    S.prove('WC.names-the-basis', any(isinstance(p, SStr) and same(p, B) for p in ps))
    S.prove('WC.scale', any(isinstance(p, Num) and bool(num_eq(p, Q)) for p in ps))
    fs = folds(ps)
    S.prove('WC.has-table', len(fs) >= 1)
    if not fs:
        return
    if len(fs) > 1:
        raise Unsupported('several tables')
    f = fs[0]
    if len(f.arities) != 1:
        raise Unsupported('nested rows')
    table(S, 'WC', ps, f, 2)
    k = skey()
    S.prove('WC.row-iff-coefficient', bool(f.live((k,))) == bool(vals.contains(k)))
    if not bool(vals.contains(k)):
        return
    t = at(S, 'WC', f, (k,))
    if t is None:
        return
    r = row(S, 'WC', t + f.sep, 2)
    if r:
        S.prove('WC.row-name', same(r[0], k))
        S.prove('WC.row-value', isinstance(r[1], Num) and bool(num_eq(r[1], vals.expected(k)[1])))
    S.prove('WC.frame', x.values is vals and vals.fn is fn)


def basis(S, w, meta):
    w.EFT.clear_all()
    w.Basis.clear_all()
    E, B = label('eft'), label('basis')
    P_ = Props('sec')
    sec = sectors_map('sec', P_)
    fn = sec.fn
    desc = label('description')
    kw = [{}, {'metadata': {}}, {'metadata': {'description': desc}}, {'metadata': {'author': desc}}][meta]
    x = w.Basis(E, B, sec, **kw)
    head = pieces(x._repr_markdown_())
    ps = pieces(x.__str__())
    for nm, q in (('heading', head), ('text', ps)):
        S.prove('Basis.%s.names-the-EFT' % nm, any(isinstance(p, SStr) and same(p, E) for p in q))
        S.prove('Basis.%s.names-the-basis' % nm, any(isinstance(p, SStr) and same(p, B) for p in q))
        S.prove('Basis.%s.description' % nm, any(isinstance(p, SStr) and same(p, desc) for p in q) == (meta == 2))
    fs = folds(ps)
    S.prove('Basis.has-list-of-sectors', len(fs) >= 1)
    if not fs:
        return
    if len(fs) > 1:
        raise Unsupported('several lists of sectors')
    f = fs[0]
    if len(f.arities) != 1:
        raise Unsupported('nested rows')
    s, k = skey('s'), skey('k')
    S.prove('Basis.section-iff-sector', bool(f.live((s,))) == bool(sec.contains(s)))
    if not bool(sec.contains(s)):
        return
    t = at(S, 'Basis.sector', f, (s,))
    if t is None:
        return
    qs = pieces(t)
    gs = folds(qs)
    i = qs.index(gs[0]) if gs else len(qs)
    S.prove('Basis.section-named', any(isinstance(p, SStr) and same(p, s) for p in qs[:i]))
    if len(gs) > 1:
        raise Unsupported('several tables')
    member = bool(sec.member2(s, k))
    live = bool(gs) and bool(gs[0].live((k,)))
    S.prove('Basis.row-iff-coefficient', live == member)
    if not (live and member):
        return
    t = at(S, 'Basis', gs[0], (k,))
    if t is None:
        return
    table(S, 'Basis', qs, gs[0], 3)
    r = row(S, 'Basis', t + gs[0].sep, 3)
    if r:
        S.prove('Basis.row-name', same(r[0], k))
        tex = P_.tex(s, k)
        S.prove('Basis.row-operator', (r[1] == tex) if isinstance(tex, str) and isinstance(r[1], str) else same(r[1], tex))
        S.prove('Basis.row-type', r[2] == ('R' if P_.real(s, k) else 'C'), str(r[2]))
    S.prove('Basis.frame', x.sectors is sec and sec.fn is fn)


def reprs(S, w):
    E, B = label('eft'), label('basis')
    for nm, x in (('WC', w.WC(E, B, S.scale(), coeff_map('C'))), ('Basis', w.Basis(E, B, sectors_map('sec')))):
        q = pieces(x.__repr__())
        S.prove('%s.repr.names-the-EFT' % nm, any(isinstance(p, SStr) and same(p, E) for p in q))
        S.prove('%s.repr.names-the-basis' % nm, any(isinstance(p, SStr) and same(p, B) for p in q))
