"""Tree-level matching of SMEFT (Warsaw up) onto WET (JMS), arXiv:1709.04486,
written out per operator and flavour index.  Works on any number type."""
import itertools
from . import jms


# ---- effective couplings: functions of numbers; o provides sqrt, abs, pi, frac
def vT(o, GF, ll1, ll2, ph1, ph2):
    """ll1 = C_ll 2112, ll2 = C_ll 1221, ph1 = C_Hl3 22, ph2 = C_Hl3 11"""
    x = GF - o.sqrt(2) / 4 * (2 * ph1 + 2 * ph2 - ll1 - ll2)
    return o.sqrt(1 / (o.sqrt(2) * o.abs(x)))


def eps(o, vT, phiWB):
    return phiWB * vT ** 2


def g2b(o, mW, vT):
    return 2 * mW / vT


def g1b(o, alpha_e, g2, eps):
    e = o.sqrt(4 * o.pi * alpha_e)
    d = g2 ** 2 - e ** 2
    return e * g2 / o.sqrt(d) + e ** 2 * g2 / d * eps


def sb(o, g1, g2, eps):
    n = g1 ** 2 + g2 ** 2
    return g1 / o.sqrt(n) * (1 + eps / 2 * g2 / g1 * (g2 ** 2 - g1 ** 2) / n)


def cb(o, g1, g2, eps):
    n = g1 ** 2 + g2 ** 2
    return g2 / o.sqrt(n) * (1 - eps / 2 * g1 / g2 * (g2 ** 2 - g1 ** 2) / n)


def eb(o, g2, s, c, eps):
    return g2 * s - c * g2 * eps / 2


def gzb(o, e, s, c, g1, g2, eps):
    return e / (s * c) * (1 + (g1 ** 2 + g2 ** 2) / (2 * g1 * g2) * eps)


class Couplings:
    """all of them, from the inputs"""
    def __init__(self, o, GF, mW, alpha_e, ll1, ll2, ph1, ph2, phiWB):
        self.v = vT(o, GF, ll1, ll2, ph1, ph2)
        self.eps = eps(o, self.v, phiWB)
        self.g2 = g2b(o, mW, self.v)
        self.g1 = g1b(o, alpha_e, self.g2, self.eps)
        self.s = sb(o, self.g1, self.g2, self.eps)
        self.c = cb(o, self.g1, self.g2, self.eps)
        self.e = eb(o, self.g2, self.s, self.c, self.eps)
        self.gz = gzb(o, self.e, self.s, self.c, self.g1, self.g2, self.eps)


class Full:
    """Effective Lagrangian (SM + dimension six) before rotation to the mass basis.
    T(op, *idx): symmetric SMEFT tensors; K: Couplings; p: m_W, m_Z."""
    def __init__(self, T, K, p, o, zero=0):
        self.T, self.K, self.p, self.o, self.zero = T, K, p, o, zero
        v2 = K.v ** 2
        h = o.frac(1, 2)
        t = o.frac(1, 3)
        s2 = K.s ** 2
        d = lambda i, j: 1 if i == j else 0
        R = range(3)
        M = lambda f: [[f(i, j) for j in R] for i in R]
        self.wl = M(lambda i, j: d(i, j) + v2 * T('phil3', i, j))
        self.wq = M(lambda i, j: d(i, j) + v2 * T('phiq3', i, j))
        self.wr = M(lambda i, j: h * v2 * T('phiud', i, j))
        self.znu = M(lambda i, j: d(i, j) * h - h * v2 * T('phil1', i, j) + h * v2 * T('phil3', i, j))
        self.zel = M(lambda i, j: d(i, j) * (s2 - h) - h * v2 * T('phil1', i, j) - h * v2 * T('phil3', i, j))
        self.zer = M(lambda i, j: d(i, j) * s2 - h * v2 * T('phie', i, j))
        self.zul = M(lambda i, j: d(i, j) * (h - 2 * t * s2) - h * v2 * T('phiq1', i, j) + h * v2 * T('phiq3', i, j))
        self.zur = M(lambda i, j: d(i, j) * (-2 * t * s2) - h * v2 * T('phiu', i, j))
        self.zdl = M(lambda i, j: d(i, j) * (t * s2 - h) - h * v2 * T('phiq1', i, j) - h * v2 * T('phiq3', i, j))
        self.zdr = M(lambda i, j: d(i, j) * (t * s2) - h * v2 * T('phid', i, j))
        self.z = K.gz ** 2 / p['m_Z'] ** 2
        self.w = K.g2 ** 2 / (2 * p['m_W'] ** 2)
        self.r2 = 1 / o.sqrt(2)
        self.t = t

    def __call__(self, op, p=None, r=None, s=None, t=None):
        T, K, z, w, o = self.T, self.K, self.z, self.w, self.o
        cj = lambda x: x.conjugate()
        if op in ('G', 'Gtilde'):
            return T.scalar(op)
        # two-fermion operators
        if op == 'nu':
            return T('llphiphi', p, r) * K.v ** 2 / 2
        if op == 'egamma':
            return self.r2 * K.v * (T('eB', p, r) * K.c - T('eW', p, r) * K.s)
        if op == 'dgamma':
            return self.r2 * K.v * (T('dB', p, r) * K.c - T('dW', p, r) * K.s)
        if op == 'ugamma':
            return self.r2 * K.v * (T('uB', p, r) * K.c + T('uW', p, r) * K.s)
        if op in ('uG', 'dG'):
            return self.r2 * K.v * T(op, p, r)
        # leptons
        if op == 'VnunuLL':
            return T('ll', p, r, s, t) - z / 4 * (self.znu[p][r] * self.znu[s][t] + self.znu[p][t] * self.znu[s][r])
        if op == 'VeeLL':
            return T('ll', p, r, s, t) - z / 4 * (self.zel[p][r] * self.zel[s][t] + self.zel[p][t] * self.zel[s][r])
        if op == 'VeeRR':
            return T('ee', p, r, s, t) - z / 4 * (self.zer[p][r] * self.zer[s][t] + self.zer[p][t] * self.zer[s][r])
        if op == 'VnueLL':
            return (T('ll', p, r, s, t) + T('ll', s, t, p, r) - w * self.wl[p][t] * cj(self.wl[r][s])
                    - z * self.znu[p][r] * self.zel[s][t])
        # quarks
        if op in ('VuuLL', 'VddLL'):
            m = self.zul if op == 'VuuLL' else self.zdl
            return T('qq1', p, r, s, t) + T('qq3', p, r, s, t) - z / 2 * m[p][r] * m[s][t]
        if op in ('VuuRR', 'VddRR'):
            m = self.zur if op == 'VuuRR' else self.zdr
            return T('uu' if op == 'VuuRR' else 'dd', p, r, s, t) - z / 2 * m[p][r] * m[s][t]
        if op == 'V1udLL':
            q1, q3 = (lambda *i: T('qq1', *i)), (lambda *i: T('qq3', *i))
            return (q1(p, r, s, t) + q1(s, t, p, r) - q3(p, r, s, t) - q3(s, t, p, r)
                    + 2 * self.t * (q3(p, t, s, r) + q3(s, r, p, t))
                    - w * self.t * self.wq[p][t] * cj(self.wq[r][s]) - z * self.zul[p][r] * self.zdl[s][t])
        if op == 'V8udLL':
            return 4 * (T('qq3', p, t, s, r) + T('qq3', s, r, p, t)) - 2 * w * self.wq[p][t] * cj(self.wq[r][s])
        if op == 'V1udRR':
            return (T('ud1', p, r, s, t) - w * self.t * self.wr[p][t] * cj(self.wr[r][s])
                    - z * self.zur[p][r] * self.zdr[s][t])
        if op == 'V8udRR':
            return T('ud8', p, r, s, t) - 2 * w * self.wr[p][t] * cj(self.wr[r][s])
        # Z exchange between different fermions plus contact terms
        Z = {'VnuuLL': (self.znu, self.zul, [('lq1', 1), ('lq3', 1)]), 'VnudLL': (self.znu, self.zdl, [('lq1', 1), ('lq3', -1)]),
             'VeuLL': (self.zel, self.zul, [('lq1', 1), ('lq3', -1)]), 'VedLL': (self.zel, self.zdl, [('lq1', 1), ('lq3', 1)]),
             'VeuRR': (self.zer, self.zur, [('eu', 1)]), 'VedRR': (self.zer, self.zdr, [('ed', 1)]),
             'VnueLR': (self.znu, self.zer, [('le', 1)]), 'VeeLR': (self.zel, self.zer, [('le', 1)]),
             'VnuuLR': (self.znu, self.zur, [('lu', 1)]), 'VnudLR': (self.znu, self.zdr, [('ld', 1)]),
             'VeuLR': (self.zel, self.zur, [('lu', 1)]), 'VedLR': (self.zel, self.zdr, [('ld', 1)]),
             'VueLR': (self.zul, self.zer, [('qe', 1)]), 'VdeLR': (self.zdl, self.zer, [('qe', 1)]),
             'V1uuLR': (self.zul, self.zur, [('qu1', 1)]), 'V1udLR': (self.zul, self.zdr, [('qd1', 1)]),
             'V1duLR': (self.zdl, self.zur, [('qu1', 1)]), 'V1ddLR': (self.zdl, self.zdr, [('qd1', 1)])}
        if op in Z:
            a, b, cs = Z[op]
            x = -(z * a[p][r] * b[s][t])
            for n, sg in cs:
                c = T(n, p, r, s, t)
                x = x + c if sg > 0 else x - c
            return x
        # W exchange
        if op == 'VnueduLL':
            return 2 * T('lq3', p, r, s, t) - w * self.wl[p][r] * cj(self.wq[t][s])
        if op == 'VnueduLR':
            return -(w * self.wl[p][r] * cj(self.wr[t][s]))
        if op == 'V1udduLR':
            return -(w * self.wq[p][r] * cj(self.wr[t][s]))
        # contact terms only
        D = {'V8uuLR': ('qu8', 1), 'V8udLR': ('qd8', 1), 'V8duLR': ('qu8', 1), 'V8ddLR': ('qd8', 1),
             'SedRL': ('ledq', 1), 'SnueduRL': ('ledq', 1), 'SeuRR': ('lequ1', -1), 'TeuRR': ('lequ3', -1),
             'SnueduRR': ('lequ1', 1), 'TnueduRR': ('lequ3', 1), 'S1udRR': ('quqd1', 1), 'S8udRR': ('quqd8', 1),
             'SduuRL': ('duql', 1), 'SdudRL': ('duql', -1), 'SduuRR': ('duue', 1)}
        if op in D:
            n, sg = D[op]
            return T(n, p, r, s, t) if sg > 0 else -T(n, p, r, s, t)
        if op in ('S1udduRR', 'S8udduRR'):
            return -T('quqd' + op[1], s, t, p, r)
        if op in ('SuddLL', 'SduuLL'):
            return -T('qqql', p, r, s, t) - T('qqql', r, p, s, t)
        if op == 'SduuLR':
            return -T('qque', p, r, s, t) - T('qque', r, p, s, t)
        return self.zero


class NoNP:
    """all SMEFT coefficients zero"""
    def __init__(self, zero):
        self.zero = zero

    def __call__(self, op, *i):
        return self.zero

    def scalar(self, op):
        return self.zero


# left-handed down quarks: (slot, barred?)
DL = {}
for _k in ('dgamma', 'dG'):
    DL[_k] = [(0, True)]
DL['VddLL'] = [(0, True), (1, False), (2, True), (3, False)]
for _k in ('V1udLL', 'V8udLL', 'VedLL', 'VnudLL'):
    DL[_k] = [(2, True), (3, False)]
for _k in ('V1ddLR', 'V1duLR', 'V8ddLR', 'V8duLR', 'VdeLR'):
    DL[_k] = [(0, True), (1, False)]
for _k in ('S1ddRR', 'S8ddRR'):
    DL[_k] = [(0, True), (2, True)]
for _k in ('V1udduLR', 'V8udduLR'):
    DL[_k] = [(1, False)]
for _k in ('VnueduLL', 'SedRR', 'TedRR', 'SnueduRR', 'TnueduRR', 'S1udRR', 'S8udRR', 'S1udduRR', 'S8udduRR'):
    DL[_k] = [(2, True)]
DL['SedRL'] = [(3, False)]
for _k in ('SduuLL', 'SduuLR'):
    DL[_k] = [(0, False)]
for _k in ('SuudRL', 'SdudRL'):
    DL[_k] = [(2, False)]
DL['SuddLL'] = [(1, False), (2, False)]


def rotate_down(f, op, idx, V, zero=0):
    """dL -> V dL on the function f(op, *idx)"""
    sl = DL.get(op)
    if not sl:
        return f(op, *idx)
    acc = zero
    for rep in itertools.product(range(3), repeat=len(sl)):
        i = list(idx)
        wt = None
        for (s, bar), r in zip(sl, rep):
            u = V[r][idx[s]]
            if bar:
                u = u.conjugate()
            wt = u if wt is None else wt * u
            i[s] = r
        acc = acc + wt * f(op, *i)
    return acc


def all_names():
    """every JMS name, redundant indices included"""
    out = list(jms.SCALARS)
    for n, ff in jms.OPS.items():
        for idx in itertools.product(*[range(jms.NGEN[f]) for f in ff]):
            out.append(jms.key(n, idx))
    return out


def match(names, full, sm, V, zero=0):
    """JMS coefficients with the SM subtracted, in the mass basis"""
    cache = {}

    def np_(op, *i):
        k = (op,) + i
        if k not in cache:
            cache[k] = full(op, *i) - sm(op, *i)
        return cache[k]
    out = {}
    for k in names:
        if '_' in k:
            op, ind = k.split('_')
            out[k] = rotate_down(np_, op, tuple(int(c) - 1 for c in ind), V, zero)
        else:
            out[k] = np_(k)
    return out
