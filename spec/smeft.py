"""SMEFT Warsaw bases: operators, flavour content, symmetries, flavour rotation,
tree-level matching onto WET.  Independent of the repository."""
import itertools
from . import jms

SCALARS = ["G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG", "phiB", "phiW", "phiWB",
           "phiGtilde", "phiBtilde", "phiWtilde", "phiWtildeB"]
# field content; lower case: unbarred, upper case: barred
OPS = {
    'uphi': 'Qu', 'dphi': 'Qd', 'ephi': 'Le', 'eW': 'Le', 'eB': 'Le', 'uG': 'Qu', 'uW': 'Qu', 'uB': 'Qu',
    'dG': 'Qd', 'dW': 'Qd', 'dB': 'Qd', 'phil1': 'Ll', 'phil3': 'Ll', 'phie': 'Ee', 'phiq1': 'Qq',
    'phiq3': 'Qq', 'phiu': 'Uu', 'phid': 'Dd', 'phiud': 'Ud', 'llphiphi': 'll',
    'll': 'LlLl', 'qq1': 'QqQq', 'qq3': 'QqQq', 'lq1': 'LlQq', 'lq3': 'LlQq', 'ee': 'EeEe', 'uu': 'UuUu',
    'dd': 'DdDd', 'eu': 'EeUu', 'ed': 'EeDd', 'ud1': 'UuDd', 'ud8': 'UuDd', 'le': 'LlEe', 'lu': 'LlUu',
    'ld': 'LlDd', 'qe': 'QqEe', 'qu1': 'QqUu', 'qd1': 'QqDd', 'qu8': 'QqUu', 'qd8': 'QqDd',
    'ledq': 'LeDq', 'quqd1': 'QuQd', 'quqd8': 'QuQd', 'lequ1': 'LeQu', 'lequ3': 'LeQu',
    'duql': 'duql', 'qque': 'qque', 'qqql': 'qqql', 'duue': 'duue',
}
IDENT = ['ll', 'qq1', 'qq3', 'uu', 'dd']
TWO = ['lq1', 'lq3', 'eu', 'ed', 'ud1', 'ud8', 'le', 'lu', 'ld', 'qe', 'qu1', 'qd1', 'qu8', 'qd8']
HERM2 = ['phil1', 'phil3', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid']


def orbit(op, idx):
    """Entries tied to idx: [(index, conjugated?)]."""
    idx = tuple(idx)
    if len(idx) == 2:
        i, j = idx
        if op in HERM2:
            o = [((i, j), False), ((j, i), True)]
        elif op == 'llphiphi':
            o = [((i, j), False), ((j, i), False)]
        else:
            o = [((i, j), False)]
    else:
        i, j, k, l = idx
        if op in TWO:
            o = [((i, j, k, l), False), ((j, i, l, k), True)]
        elif op in IDENT or op == 'ee':
            o = []
            alts = [(i, j, k, l), (k, l, i, j)]
            if op == 'ee':
                # Fierz identity of two identical right-handed singlet currents
                alts += [(i, l, k, j), (k, j, i, l)]
            for a, b, c, d in alts:
                o += [((a, b, c, d), False), ((b, a, d, c), True)]
        elif op == 'qque':
            o = [((i, j, k, l), False), ((j, i, k, l), False)]
        else:
            o = [((i, j, k, l), False)]
    out = []
    for t in o:
        if t not in out:
            out.append(t)
    return out


def qqql_terms(idx):
    """C_qqql entry as a combination of independent ones: [(weight, index)].
    The operator obeys C_prst + C_rpst = C_sprt + C_srpt."""
    p, r, s, t = idx
    a = (p, r, s)
    if len(set(a)) == 3:
        ind = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0)]
        if a in ind:
            return [(1, idx)]
        if a == (2, 0, 1):
            # p r s = 1 2 0 / 2 1 0 ...: C_201 + C_021 = C_120 + C_102
            return [(1, (1, 2, 0, t)), (1, (1, 0, 2, t)), (-1, (0, 2, 1, t))]
        # a == (2, 1, 0): C_210 + C_120 = C_021 + C_012
        return [(1, (0, 2, 1, t)), (1, (0, 1, 2, t)), (-1, (1, 2, 0, t))]
    if p == s or (p == r == s):
        return [(1, idx)]
    # two equal, p != s: C_xxy = C_yxx
    rep = min((p, r, s), (s, r, p))
    return [(1, rep + (t,))]


def independent(op, idx):
    if op == 'qqql':
        return qqql_terms(idx) == [(1, tuple(idx))]
    return tuple(idx) == min(t for t, _ in orbit(op, idx))


def indices(op):
    return itertools.product(range(3), repeat=len(OPS[op]))


def keys(ops=None):
    out = []
    for op in OPS:
        if ops is not None and op not in ops:
            continue
        for idx in indices(op):
            if independent(op, idx):
                out.append(key(op, idx))
    if ops is None:
        out += SCALARS
    return out


def all_keys():
    return SCALARS + [key(op, i) for op in OPS for i in indices(op)]


def key(op, idx):
    return op + '_' + ''.join(str(i + 1) for i in idx)


def is_real(k):
    if '_' not in k:
        return True
    op, ind = k.split('_')
    idx = tuple(int(c) - 1 for c in ind)
    return any(t == idx and c for t, c in orbit(op, idx))


class Tensor:
    """Full symmetric tensors of a flat dictionary of independent coefficients."""
    def __init__(self, flat, zero=0):
        self.flat = flat
        self.zero = zero

    def _at(self, op, idx):
        for t, cj in orbit(op, idx):
            k = key(op, t)
            if k in self.flat:
                v = self.flat[k]
                return v.conjugate() if cj else v
        return self.zero

    def __call__(self, op, *idx):
        if op == 'qqql':
            r = self.zero
            for w, t in qqql_terms(idx):
                v = self.flat.get(key(op, t), self.zero)
                r = r + v if w == 1 else r - v
            return r
        return self._at(op, tuple(idx))

    def scalar(self, op):
        return self.flat.get(op, self.zero)

    def has(self, op):
        return op in self.flat or any(k.split('_')[0] == op for k in self.flat)


def rotate(T, op, idx, Uq, zero=0):
    """Flavour rotation q -> Uq q of the doublets: entry idx of the rotated tensor,
    C'_ab.. = sum conj(U_ia) .. U_jb C_ij.. ."""
    ff = OPS[op]
    slots = [n for n, f in enumerate(ff) if f in 'qQ']
    acc = zero
    for rep in itertools.product(range(3), repeat=len(slots)):
        i = list(idx)
        w = None
        for s, r in zip(slots, rep):
            u = Uq[r][idx[s]]
            if ff[s] == 'Q':
                u = u.conjugate()
            w = u if w is None else w * u
            i[s] = r
        c = T(op, *i)
        acc = acc + (c if w is None else w * c)
    return acc


def rotated_flat(flat, Uq, names=None, zero=0, skip_absent=True):
    """Rotated coefficients for the given names (default: independent ones)."""
    T = Tensor(flat, zero)
    out = {}
    for k in (names or keys()):
        if '_' not in k:
            if k in flat:
                out[k] = flat[k]
            continue
        op, ind = k.split('_')
        if skip_absent and not T.has(op):
            continue
        out[k] = rotate(T, op, tuple(int(c) - 1 for c in ind), Uq, zero)
    return out


def dagger(V):
    return [[V[j][i].conjugate() for j in range(3)] for i in range(3)]
