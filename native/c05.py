"""Validation of WC and basis files on the real code, with a stand-in latex."""
import copy
import os
import shutil
import stat
import tempfile
from collections import OrderedDict
import wcxf

LATEX = r'''#!/bin/sh
for f; do :; done
d=.
while [ $# -gt 0 ]; do
  case "$1" in
    -output-directory|--output-directory) d="$2";;
    -output-directory=*|--output-directory=*) d="${1#*=}";;
  esac
  shift
done
[ -f "$f" ] || exit 1
b=$(basename "$f" .tex)
bad=
grep -q BADTEX "$f" && bad=1
# a complete document, with the packages of the commands used in it
for w in '\documentclass' '\begin{document}' '\end{document}'; do
  grep -qF -- "$w" "$f" || bad=1
done
grep -qF -- '\text{' "$f" && ! grep -q 'usepackage.*amsmath' "$f" && bad=1
grep -qF -- '\mathbb{' "$f" && ! grep -q 'usepackage.*amssymb' "$f" && bad=1
n=$(tr -cd '$' < "$f" | wc -c)
[ $((n % 2)) -eq 0 ] || bad=1
if [ -n "$bad" ]; then
  [ -z "$NOLOG" ] && printf 'This is latex\n! Undefined control sequence.\nl.5 \\BADTEX\n\nmore\n' > "$d/$b.log"
  exit 1
fi
[ -z "$NOLOG" ] && printf 'This is latex\nfine\n' > "$d/$b.log"
exit 0
'''
EN, BN = ['E', 'F', 'G'], ['a', 'b', 'c']
SN = ['s', 't', 'u', 'v']
KN = ['x', 'y', 'z', 'C9_bsmumu', 'C7_bs', 'w', 'q', 'k1', 'k2', 'k3']


def outcome(R, name, f, data):
    try:
        f()
        return True
    except (ValueError, AssertionError):
        return False
    except BaseException as ex:
        R.check(name + '.rejection-type', False, 'raised %s: %s' % (type(ex).__name__, ex), **data)
        return False


def state():
    out = []
    for K in (wcxf.EFT, wcxf.Basis, wcxf.Translator, wcxf.Matcher):
        out.append([(k, id(v), copy.deepcopy({a: b for a, b in vars(v).items() if not a.startswith('_') and a != 'function'}))
                    for k, v in K.instances.items()])
    return out


def sectors(R, bad, dup):
    """Table without a coefficient in two sectors (unless dup)."""
    r = R.rng
    keys = r.sample(KN, len(KN))
    t = OrderedDict()
    for s in r.sample(SN, r.choice([0, 1, 2, 3, 4])):
        n = r.choice([0, 1, 2, 3])
        t[s] = {}
        for k in [keys.pop() for _ in range(min(n, len(keys)))]:
            t[s][k] = r.choice([None, {}, {'tex': 'ok'}, {'tex': r'\text{a}'}, {'tex': r'\mathbb{A}'}, {'tex': '\\bar s', 'real': True}, {'real': True}])
    if bad:
        c = [(s, k) for s in t for k in t[s]]
        if c:
            s, k = r.choice(c)
            t[s][k] = {'tex': '\\BADTEX'}
    if dup and len(t) > 1:
        a, b = r.sample(list(t), 2)
        if t[a]:
            k = r.choice(list(t[a]))
            t[b][k] = t[a][k]
    return t


def run(R):
    r = R.rng
    saved = [(K, getattr(K, 'instances', None)) for K in (wcxf.EFT, wcxf.Basis)]
    tmp = tempfile.mkdtemp(prefix='wcxf_c05_')
    path = os.environ.get('PATH', '')
    oldtmp = tempfile.tempdir
    try:
        os.mkdir(tmp + '/bin')
        os.mkdir(tmp + '/t')
        with open(tmp + '/bin/latex', 'w') as f:
            f.write(LATEX)
        os.chmod(tmp + '/bin/latex', 0o755)
        tempfile.tempdir = tmp + '/t'
        n = 0
        while R.time_left(12) and n < 400 * R.n and not R.failures:
            n += 1
            latex = r.choice(['none', 'log', 'log', 'nolog'])
            os.environ['PATH'] = path if latex == 'none' else tmp + '/bin:' + path
            os.environ['NOLOG'] = '1' if latex == 'nolog' else ''
            if latex == 'none' and shutil.which('latex'):
                continue
            one(R, latex)
            R.cases += 1
    finally:
        os.environ['PATH'] = path
        os.environ.pop('NOLOG', None)
        tempfile.tempdir = oldtmp
        shutil.rmtree(tmp, ignore_errors=True)
        for K, i in saved:
            if i is not None:
                K.instances = i


def one(R, latex):
    r = R.rng
    wcxf.EFT.clear_all()
    wcxf.Basis.clear_all()
    efts, bases = {}, {}
    for e in EN:
        if r.random() < .7:
            efts[e] = {s: {} for s in SN if r.random() < .85}
            wcxf.EFT(e, copy.deepcopy(efts[e]))
    for _ in range(r.randint(1, 5)):
        k = (r.choice(EN), r.choice(BN))
        par = [q for q in bases if q[0] == k[0]]
        t = sectors(R, r.random() < .2, r.random() < .2)
        if par and r.random() < .3:
            p = r.choice(par)
            wcxf.Basis(k[0], k[1], copy.deepcopy(t), parent=p[1])
            full = OrderedDict(copy.deepcopy(bases[p]))
            full.update(t)
            bases[k] = full
        else:
            wcxf.Basis(k[0], k[1], copy.deepcopy(t))
            bases[k] = t
    for (e, b), t in bases.items():
        bx = wcxf.Basis[e, b]
        keys = [k for s in t.values() for k in s]
        tex = any(d and 'BADTEX' in d.get('tex', '') for s in t.values() for d in s.values())
        exp = e in efts and set(t) <= set(efts[e]) and len(keys) == len(set(keys)) and (latex == 'none' or not tex)
        data = dict(eft=e, basis=b, sectors=t, eft_sectors=efts.get(e), latex=latex)
        before = state()
        got = outcome(R, 'Basis', bx.validate, data)
        R.check('Basis.accepted-iff-consistent', got == exp, 'validate() %s, expected %s' % (
            'accepts' if got else 'rejects', 'acceptance' if exp else 'rejection'), **data)
        R.check('Basis.frame', state() == before, 'validation changed the registry or the basis', **data)
        left = os.listdir(tempfile.gettempdir())
        if not R.check('Basis.nothing-left', not left, 'validation left %s in the directory for temporary files' % left, **data):
            for f in left:
                shutil.rmtree(os.path.join(tempfile.gettempdir(), f), ignore_errors=True)
    for _ in range(4):
        e, b = r.choice(EN), r.choice(BN)
        if bases and r.random() < .7:
            e, b = r.choice(list(bases))
        t = bases.get((e, b), {})
        known = [k for s in t.values() for k in s]
        names = [k for k in known if r.random() < .5]
        if r.random() < .4:
            names.append(r.choice(KN))
        r.shuffle(names)
        vals = {k: r.choice([1, 0, .5, {'Re': 1., 'Im': 0}, '1e-3']) for k in names}
        exp = e in efts and (e, b) in bases and set(names) <= set(known)
        data = dict(eft=e, basis=b, sectors=t, registered_efts=list(efts), values=vals)
        snap = copy.deepcopy(vals)
        wc = wcxf.WC(e, b, 91, vals)
        if r.random() < .3:
            wc.dict
        before = state()
        got = outcome(R, 'WC', wc.validate, data)
        R.check('WC.accepted-iff-consistent', got == exp, 'validate() %s, expected %s' % (
            'accepts' if got else 'rejects', 'acceptance' if exp else 'rejection'), **data)
        R.check('WC.frame', state() == before and vals == snap and wc.values is vals and (wc.eft, wc.basis, wc.scale) == (e, b, 91),
                'validation changed the registry or the file', **data)
