"""The WET 'JMS' basis: operators, flavour content, index symmetries, names.

Pure data and pure functions, shared by the symbolic contracts and the native
replay oracles; nothing here is read from the repository."""
import itertools

NGEN = {'nu': 3, 'e': 3, 'u': 2, 'd': 3}

# name -> list of field types in index order
OPS = {}
# name -> 'none' | 'herm' (C_ijkl = C*_jilk) | 'curr' (C_ijkl = C_klij) | 'both'
SYMM = {}


def _fields(s):
    out = []
    while s:
        if s.startswith('nu'):
            out.append('nu')
            s = s[2:]
        else:
            out.append(s[0])
            s = s[1:]
    return out


def _add(name, ff, symm='none'):
    OPS[name] = ff
    SYMM[name] = symm


for _n in ['VnueLL', 'VnuuLL', 'VnudLL', 'VeuLL', 'VedLL', 'V1udLL', 'V8udLL',
           'VeuRR', 'VedRR', 'V1udRR', 'V8udRR',
           'VnueLR', 'VeeLR', 'VnuuLR', 'VnudLR', 'VeuLR', 'VedLR', 'VueLR', 'VdeLR',
           'V1uuLR', 'V8uuLR', 'V1udLR', 'V8udLR', 'V1duLR', 'V8duLR', 'V1ddLR', 'V8ddLR']:
    _a, _b = _fields(_n.lstrip('V').lstrip('18')[:-2])
    _add(_n, [_a, _a, _b, _b], 'herm')
for _n in ['VuuLL', 'VddLL', 'VuuRR', 'VddRR']:
    _add(_n, [_n[1]] * 4, 'both')
# purely leptonic ones: totally symmetric under exchange of the two (anti)fields
for _n in ['VnunuLL', 'VeeLL', 'VeeRR']:
    _add(_n, [_fields(_n[1:-2])[0]] * 4, 'lep')
for _n in ['VnueduLL', 'VnueduLR', 'SnueduRL', 'SnueduRR', 'TnueduRR', 'SnueduLL',
           'TnueduLL', 'SnueduLR', 'VnueduRL', 'VnueduRR']:
    _add(_n, ['nu', 'e', 'd', 'u'])
for _n in ['V1udduLR', 'V8udduLR', 'S1udduRR', 'S8udduRR']:
    _add(_n, ['u', 'd', 'd', 'u'])
for _n in ['SeuRL', 'SedRL', 'SeuRR', 'TeuRR', 'SedRR', 'TedRR', 'S1udRR', 'S8udRR',
           'SnueLL', 'TnueLL', 'SnueLR', 'SnuuLL', 'TnuuLL', 'SnuuLR', 'SnudLL', 'TnudLL', 'SnudLR']:
    _a, _b = _fields(_n[1:].lstrip('18')[:-2])
    _add(_n, [_a, _a, _b, _b])
for _n in ['S1uuRR', 'S8uuRR', 'S1ddRR', 'S8ddRR']:
    _add(_n, [_n[2]] * 4, 'curr')
_add('SeeRR', ['e'] * 4, 'curr')
_add('SnunuLL', ['nu'] * 4, 'none')
# baryon number violation: three quarks and a lepton (nu or e)
for _n, _f in {'SuddLL': 'uddnu', 'SduuLL': 'duue', 'SuudLR': 'uude', 'SduuLR': 'duue',
               'SuudRL': 'uude', 'SduuRL': 'duue', 'SdudRL': 'dudnu', 'SdduRL': 'ddunu',
               'SduuRR': 'duue', 'SdddLL': 'ddde', 'SuddLR': 'uddnu', 'SdduLR': 'ddunu',
               'SdddLR': 'ddde', 'SdddRL': 'ddde', 'SuddRR': 'uddnu', 'SdddRR': 'ddde'}.items():
    _add(_n, _fields(_f))
# dipoles and neutrino masses
for _n, _f in {'egamma': 'ee', 'ugamma': 'uu', 'dgamma': 'dd', 'uG': 'uu', 'dG': 'dd',
               'nu': ['nu', 'nu'], 'nugamma': ['nu', 'nu']}.items():
    _add(_n, list(_f))
SCALARS = ['G', 'Gtilde']


def orbit(name, idx):
    """All index tuples tied to idx by the symmetries: list of (idx, conj?)."""
    s = SYMM.get(name, 'none')
    if s == 'none' or len(idx) != 4:
        return [(idx, False)]
    i, j, k, l = idx
    if s == 'herm':
        o = [((i, j, k, l), False), ((j, i, l, k), True)]
    elif s == 'curr':
        o = [((i, j, k, l), False), ((k, l, i, j), False)]
    elif s == 'both':
        o = [((i, j, k, l), False), ((k, l, i, j), False),
             ((j, i, l, k), True), ((l, k, j, i), True)]
    elif s == 'lep':
        o = []
        for (a, b, c, d) in [(i, j, k, l), (k, l, i, j), (i, l, k, j), (k, j, i, l)]:
            o.append(((a, b, c, d), False))
            o.append(((b, a, d, c), True))
    out = []
    for t in o:
        if t not in out:
            out.append(t)
    return out


def representative(name, idx):
    return min(t for t, _ in orbit(name, idx))


def keys(names=None, last=False):
    """Names of the non-redundant coefficients."""
    out = []
    for n, ff in OPS.items():
        if names is not None and n not in names:
            continue
        for idx in itertools.product(*[range(NGEN[f]) for f in ff]):
            orb = [t for t, _ in orbit(n, idx)]
            if idx == (max(orb) if last else min(orb)):
                out.append(n + '_' + ''.join(str(i + 1) for i in idx))
    if names is None:
        out += SCALARS
    return out


def key(name, idx):
    return name + '_' + ''.join(str(i + 1) for i in idx)


class Tensor:
    """Full tensor view of a flat dictionary of (non-redundant) coefficients:
    absent coefficients are zero, redundant entries follow from the symmetries."""

    def __init__(self, flat, zero=0):
        self.flat = flat
        self.zero = zero

    def __call__(self, name, *idx):
        for t, cj in orbit(name, tuple(idx)):
            k = key(name, t)
            if k in self.flat:
                v = self.flat[k]
                return v.conjugate() if cj else v
        return self.zero


def is_real(k):
    """Coefficients that are real by hermiticity (their operator equals its own
    hermitian conjugate)."""
    if '_' not in k:
        return True
    n, ind = k.split('_')
    idx = tuple(int(c) - 1 for c in ind)
    if SYMM.get(n, 'none') in ('none', 'curr'):
        return False
    return any(t == idx and cj for t, cj in orbit(n, idx))
