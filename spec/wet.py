"""Specification of the WET bases (Bern, flavio, EOS, formflavor) in terms of the
JMS tensors.  Pure functions of a tensor accessor T(name, i, j, ...), parameters
p (dictionary: GF, alpha_e, alpha_s(mu), m_b(mu), m_s(mu), ...), the CKM matrix V
(V[i][j]) and an arithmetic namespace ops; nothing is imported from the
repository."""
from fractions import Fraction as Fr
from . import dirac

D = {'d': 0, 's': 1, 'b': 2}
U = {'u': 0, 'c': 1}
L = {'e': 0, 'mu': 1, 'tau': 2}
CC = ['cb', 'ub', 'us', 'cs', 'cd', 'ud']

# ------------------------------------------------------------------ names

N_I = ['1', '2', '3', '4', '5', '1p', '2p', '3p']
N_II = ['1', '5', '1p', '5p', '7p']
N_GEN = [str(i) for i in range(1, 11)] + ['%dp' % i for i in range(1, 11)]
N_RED = ['1', '3', '5', '7', '9', '1p', '3p', '5p', '7p', '9p']
N_LEP = N_RED + ['nu1', 'nu1p']
GENERIC = ['%s%s%s' % (dd, a, b) for dd in ('sb', 'db', 'ds') for a in 'uc' for b in 'uc'] + ['sbdd', 'dbss', 'dsbb']
RED_PL = ['sbss', 'dbdd', 'dbds', 'sbsd', 'dsdd']          # operators 5-9 unprimed carry P_L
RED_PR = ['dbbb', 'sbbb', 'dsss']


def bern_keys():
    out = []
    for qq in ('sb', 'db', 'ds'):
        out += [n + 2 * qq for n in N_I]
    for l in L:
        for lp in L:
            for qq in CC:
                out += [n + qq + l + lp for n in N_II]
    for q in GENERIC:
        out += [n + q for n in N_GEN]
    for q in RED_PL + RED_PR:
        out += [n + q for n in N_RED]
    for dd in ('sb', 'db', 'ds'):
        for l in L:
            for lp in L:
                out += [n + dd + l + lp for n in N_LEP]
        out += [n + dd for n in ('7gamma', '8g', '7pgamma', '8pg')]
    return out


DF2 = ['CVLL', 'CSLL', 'CTLL', 'CVLR', 'CVRR', 'CSRR', 'CTRR', 'CSLR']


def flavio_keys():
    out = []
    for qq in ('bs', 'bd', 'sd'):
        out += [n + '_' + 2 * qq for n in DF2]
    for l in L:
        for lp in L:
            for u, d in CC:
                out += ['%s_%s%s%snu%s' % (n, d, u, l, lp) for n in ('CVL', 'CVR', 'CSR', 'CSL', 'CT')]
            for dd in ('bs', 'bd', 'sd'):
                out += ['%s_%snu%snu%s' % (n, dd, l, lp) for n in ('CL', 'CR')]
            for dd in ('bs', 'bd'):
                out += ['%s_%s%s%s' % (n, dd, l, lp) for n in ('C9', 'C9p', 'C10', 'C10p', 'CS', 'CSp', 'CP', 'CPp')]
    for dd in ('bs', 'bd'):
        out += ['%s_%s' % (n, dd) for n in ('C7', 'C8', 'C7p', 'C8p')]
    return out


def df2_to_jms_pairs():
    pass


# ------------------------------------------------------------------ flavio

def _xi(V, dd):
    a, b = D[dd[0]], D[dd[1]]
    return V[2][a] * V[2][b].conjugate()


def df2(T, a, b, typ='d'):
    """Delta F = 2 coefficients (f_a-bar ... f_b)^2 in the chiral basis VLL, SLL, TLL,
    VLR, SLR and mirror images, colour-octet operators eliminated by Fierz
    identities with Nc = 3."""
    x = typ + typ
    R = {}
    R['VLL'] = T('V%sLL' % x, a, b, a, b)
    R['VRR'] = T('V%sRR' % x, a, b, a, b)
    V1, V8 = T('V1%sLR' % x, a, b, a, b), T('V8%sLR' % x, a, b, a, b)
    R['VLR'] = V1 - V8 / 6
    R['SLR'] = -V8
    for n, (i, j, cj) in {'RR': (a, b, False), 'LL': (b, a, True)}.items():
        s1, s8 = T('S1%sRR' % x, i, j, i, j), T('S8%sRR' % x, i, j, i, j)
        if cj:
            s1, s8 = _cj(s1), _cj(s8)
        # T^A T^A PP = -1/6 PP + 1/2 (crossed PP); crossed = -1/2 PP - 1/8 sigma sigma
        R['S' + n] = s1 - s8 / 6 - s8 / 4
        R['T' + n] = -s8 / 16
    return R


def _cj(x):
    return x.conjugate()


def flavio(T, p, V, ops):
    out = {}
    s2, pi = ops.sqrt(2), ops.pi
    norm = s2 / p['GF'] / 4
    for dd in ('bs', 'bd', 'sd'):
        a, b = D[dd[1]], D[dd[0]]
        for n, v in df2(T, a, b).items():
            out['C%s_%s%s' % (n, dd, dd)] = v
    for u, d in CC:
        f = -norm / V[U[u]][D[d]]
        for l in L:
            for lp in L:
                ix = (L[lp], L[l], D[d], U[u])
                e = '_%s%s%snu%s' % (d, u, l, lp)
                out['CVL' + e] = f * _cj(T('VnueduLL', *ix))
                out['CVR' + e] = f * _cj(T('VnueduLR', *ix))
                out['CSR' + e] = f * _cj(T('SnueduRL', *ix))
                out['CSL' + e] = f * _cj(T('SnueduRR', *ix))
                out['CT' + e] = f * _cj(T('TnueduRR', *ix))
    e2 = 4 * pi * p['alpha_e']
    for dd in ('bs', 'bd', 'sd'):
        b, s = D[dd[0]], D[dd[1]]
        N = norm / _xi(V, dd) * 16 * pi ** 2 / e2
        for l in L:
            for lp in L:
                i, j = L[l], L[lp]
                n = '%snu%snu%s' % (dd, l, lp)
                out['CL_' + n] = N / 2 * T('VnudLL', i, j, s, b)
                out['CR_' + n] = N / 2 * T('VnudLR', i, j, s, b)
                if dd == 'sd':
                    continue
                n = '%s%s%s' % (dd, l, lp)
                LL, LR = T('VedLL', i, j, s, b), T('VdeLR', s, b, i, j)
                RL, RR = T('VedLR', i, j, s, b), T('VedRR', i, j, s, b)
                out['C9_' + n] = N * (LR + LL) / 2
                out['C10_' + n] = N * (LR - LL) / 2
                out['C9p_' + n] = N * (RR + RL) / 2
                out['C10p_' + n] = N * (RR - RL) / 2
                # (l PR l')(s PR b), (l PL l')(s PR b), (l PR l')(s PL b), (l PL l')(s PL b)
                rr, lr = T('SedRR', i, j, s, b), _cj(T('SedRL', j, i, b, s))
                rl, ll = T('SedRL', i, j, s, b), _cj(T('SedRR', j, i, b, s))
                M = N / p['m_b']
                out['CS_' + n] = M * (rr + lr) / 2
                out['CP_' + n] = M * (rr - lr) / 2
                out['CSp_' + n] = M * (rl + ll) / 2
                out['CPp_' + n] = M * (rl - ll) / 2
    for dd in ('bs', 'bd'):
        b, s = D[dd[0]], D[dd[1]]
        N = norm / _xi(V, dd) * 16 * pi ** 2 / p['m_b']
        e, gs = ops.sqrt(e2), ops.sqrt(4 * pi * p['alpha_s'])
        out['C7_' + dd] = N / e * T('dgamma', s, b)
        out['C8_' + dd] = N / gs * T('dG', s, b)
        out['C7p_' + dd] = N / e * _cj(T('dgamma', b, s))
        out['C8p_' + dd] = N / gs * _cj(T('dG', b, s))
    return out


def flavio_from_bern(C, p, V, ops):
    """C(key): Bern coefficient."""
    out = {}
    pi = ops.pi
    n4 = 4 * p['GF'] / ops.sqrt(2)
    for dd in ('sb', 'db', 'ds'):
        q, f = dd + dd, dd[::-1] * 2
        out['CVLL_' + f] = n4 * C('1' + q)
        out['CVRR_' + f] = n4 * C('1p' + q)
        out['CSLL_' + f] = n4 * (C('2' + q) - C('3' + q) / 2)
        out['CSRR_' + f] = n4 * (C('2p' + q) - C('3p' + q) / 2)
        out['CTLL_' + f] = n4 * (-C('3' + q) / 8)
        out['CTRR_' + f] = n4 * (-C('3p' + q) / 8)
        out['CVLR_' + f] = n4 * (-C('5' + q) / 2)
        out['CSLR_' + f] = n4 * C('4' + q)
    for u, d in CC:
        for l in L:
            for lp in L:
                q, e = u + d + l + lp, '_%s%s%snu%s' % (d, u, l, lp)
                for a, b in (('CVL', '1'), ('CVR', '1p'), ('CSR', '5'), ('CSL', '5p'), ('CT', '7p')):
                    out[a + e] = -C(b + q) / V[U[u]][D[d]]
    e2 = 4 * pi * p['alpha_e']
    gs2 = 4 * pi * p['alpha_s']
    for dd in ('sb', 'db', 'ds'):
        fl = dd[::-1]
        xi = _xi(V, fl)
        N = 16 * pi ** 2 / e2 / xi
        for l in L:
            for lp in L:
                q = dd + l + lp
                n = '%snu%snu%s' % (fl, l, lp)
                out['CL_' + n] = N / 2 * C('nu1' + q)
                out['CR_' + n] = N / 2 * C('nu1p' + q)
                if dd == 'ds':
                    continue
                n = fl + l + lp
                # gamma^3 (x) gamma_3 reduces to 10 g(x)g - 6 g g5 (x) g g5 (with P_L on the quarks)
                out['C9_' + n] = N * (C('1' + q) + 10 * C('3' + q))
                out['C10_' + n] = N * (-6 * C('3' + q))
                out['C9p_' + n] = N * (C('1p' + q) + 10 * C('3p' + q))
                out['C10p_' + n] = N * (6 * C('3p' + q))
                M = N / p['m_b']
                out['CS_' + n] = M * (C('5' + q) + 40 * C('9' + q))
                out['CP_' + n] = M * (24 * C('9' + q))
                out['CSp_' + n] = M * (C('5p' + q) + 40 * C('9p' + q))
                out['CPp_' + n] = M * (-24 * C('9p' + q))
        if dd == 'ds':
            continue
        G = 16 * pi ** 2 / gs2 / xi
        for a, b in (('C7', '7gamma'), ('C8', '8g'), ('C7p', '7pgamma'), ('C8p', '8pg')):
            out['%s_%s' % (a, fl)] = G * C(b + dd)
    return out


# ------------------------------------------------------------------ Bern, as a Lagrangian

def _lin(terms):
    """[(coefficient, tensor)] -> {index: [(coefficient, weight)]}"""
    t = {}
    for c, op in terms:
        if not hasattr(c, 'p') and c == 0:
            continue
        for k, w in op.items():
            t.setdefault(k, []).append((c, w))
    return t


def _antisym(op, f):
    if f[0] == f[2]:
        op = dirac.antisym(op, '13')
    if f[1] == f[3]:
        op = dirac.antisym(op, '24')
    return op


def jms_quark_terms(T, q):
    """All terms of L with the fields f1bar f2 f3bar f4 (f1, f2 down type)."""
    op = dirac.op
    out = []
    f1, f2 = D[q[0]], D[q[1]]
    if q[2] in U and q[3] in U:
        f3, f4 = U[q[2]], U[q[3]]
        for c in '18':
            out += [
                (T('V%sudLL' % c, f3, f4, f1, f2), op('V1', 'L', 'L', c)),
                (T('V%sudRR' % c, f3, f4, f1, f2), op('V1', 'R', 'R', c)),
                (T('V%sudLR' % c, f3, f4, f1, f2), op('V1', 'R', 'L', c)),
                (T('V%sduLR' % c, f1, f2, f3, f4), op('V1', 'L', 'R', c)),
                (T('S%sudRR' % c, f3, f4, f1, f2), op('S', 'R', 'R', c)),
                (_cj(T('S%sudRR' % c, f4, f3, f2, f1)), op('S', 'L', 'L', c)),
                (T('V%sudduLR' % c, f3, f2, f1, f4), op('V1', 'R', 'L', c, True)),
                (_cj(T('V%sudduLR' % c, f4, f1, f2, f3)), op('V1', 'L', 'R', c, True)),
                (T('S%sudduRR' % c, f3, f2, f1, f4), op('S', 'R', 'R', c, True)),
                (_cj(T('S%sudduRR' % c, f4, f1, f2, f3)), op('S', 'L', 'L', c, True)),
            ]
        return out
    f3, f4 = D[q[2]], D[q[3]]
    straight, crossed = (f1, f2, f3, f4), (f1, f4, f3, f2)
    ops_ = [(straight, False)]
    if f1 != f3 and f2 != f4:
        ops_.append((crossed, True))
    for (i, j, k, l), x in ops_:
        out.append((T('VddLL', i, j, k, l), op('V1', 'L', 'L', '1', x)))
        out.append((T('VddRR', i, j, k, l), op('V1', 'R', 'R', '1', x)))
        for c in '18':
            out.append((T('S%sddRR' % c, i, j, k, l), op('S', 'R', 'R', c, x)))
            out.append((_cj(T('S%sddRR' % c, j, i, l, k)), op('S', 'L', 'L', c, x)))
    # LR: the four placements of the two chiral currents, identical operators once
    seen = set()
    for (i, j, k, l), cl, cr, x in (((f1, f2, f3, f4), 'L', 'R', False), ((f3, f4, f1, f2), 'R', 'L', False),
                                    ((f1, f4, f3, f2), 'L', 'R', True), ((f3, f2, f1, f4), 'R', 'L', True)):
        if (i, j, k, l) in seen:
            continue
        seen.add((i, j, k, l))
        for c in '18':
            out.append((T('V%sddLR' % c, i, j, k, l), op('V1', cl, cr, c, x)))
    return out


def bern_quark_terms(C, q):
    """Terms of L from the Bern operators of the sector q (coefficient incl. the
    normalisation must be supplied by C)."""
    op = dirac.op
    out = []
    names = N_GEN if q in GENERIC else N_RED
    for n in names:
        pr = n.endswith('p')
        i = int(n.rstrip('p'))
        col = '1' if i % 2 else '8'
        g = (i + 1) // 2              # 1..5
        kind = {1: 'V1', 2: 'V3', 3: 'S', 4: 'T', 5: 'V4'}[g]
        if g <= 2:
            ch = 'R' if pr else 'L'
        else:
            ch = 'R' if (q in GENERIC or q in RED_PR) else 'L'
            if pr:
                ch = 'L' if ch == 'R' else 'R'
        out.append((C(n + q), op(kind, ch, '1', col)))
    return out


def quark_sector_equations(T, C, q):
    """Yield (index, [(coef, (re, im))] of the JMS Lagrangian, same for Bern)."""
    idx = [0, 0, 0, 0]
    f = (q[0], q[1], q[2], q[3])
    A = _lin([(c, _antisym(o, f)) for c, o in jms_quark_terms(T, q)])
    B = _lin([(c, _antisym(o, f)) for c, o in bern_quark_terms(C, q)])
    for k in sorted(set(A) | set(B)):
        yield k, A.get(k, []), B.get(k, [])


def bern_simple(T, p, V, ops):
    """The Bern coefficients that are in one-to-one correspondence with JMS ones:
    Delta F = 2, charged currents, semileptonic and dipole operators."""
    out = {}
    pi = ops.pi
    N = ops.sqrt(2) / p['GF'] / 4
    for dd in ('sb', 'db', 'ds'):
        a, b = D[dd[0]], D[dd[1]]
        q = dd + dd
        R = df2(T, a, b)
        out['1' + q] = N * R['VLL']
        out['1p' + q] = N * R['VRR']
        # 3: colour-crossed PL PL = -1/2 SLL - 1/8 TLL; 5: crossed PL PR = -1/2 VLR
        out['3' + q] = N * (-8 * R['TLL'])
        out['2' + q] = N * (R['SLL'] - 4 * R['TLL'])
        out['3p' + q] = N * (-8 * R['TRR'])
        out['2p' + q] = N * (R['SRR'] - 4 * R['TRR'])
        out['4' + q] = N * R['SLR']
        out['5' + q] = N * (-2 * R['VLR'])
    for u, d in CC:
        for l in L:
            for lp in L:
                ix = (L[lp], L[l], D[d], U[u])
                q = u + d + l + lp
                out['1' + q] = N * _cj(T('VnueduLL', *ix))
                out['1p' + q] = N * _cj(T('VnueduLR', *ix))
                out['5' + q] = N * _cj(T('SnueduRL', *ix))
                out['5p' + q] = N * _cj(T('SnueduRR', *ix))
                out['7p' + q] = N * _cj(T('TnueduRR', *ix))
    for dd in ('sb', 'db', 'ds'):
        s, b = D[dd[0]], D[dd[1]]
        for l in L:
            for lp in L:
                i, j = L[l], L[lp]
                q = dd + l + lp
                LL, LR = T('VedLL', i, j, s, b), T('VdeLR', s, b, i, j)
                RL, RR = T('VedLR', i, j, s, b), T('VedRR', i, j, s, b)
                rr, lr = T('SedRR', i, j, s, b), _cj(T('SedRL', j, i, b, s))
                rl, ll = T('SedRL', i, j, s, b), _cj(T('SedRR', j, i, b, s))
                tR, tL = T('TedRR', i, j, s, b), _cj(T('TedRR', j, i, b, s))
                v, a = (LR + LL) / 2, (LR - LL) / 2
                vp, ap = (RR + RL) / 2, (RR - RL) / 2
                S, P = (rr + lr) / 2, (rr - lr) / 2
                Sp, Pp = (rl + ll) / 2, (rl - ll) / 2
                out['1' + q] = N * (v + 5 * a / 3)
                out['3' + q] = N * (-a / 6)
                out['1p' + q] = N * (vp - 5 * ap / 3)
                out['3p' + q] = N * (ap / 6)
                out['5' + q] = N * (S - 5 * P / 3)
                out['9' + q] = N * (P / 24)
                out['7' + q] = N * (2 * P / 3 + tR)
                out['5p' + q] = N * (Sp + 5 * Pp / 3)
                out['9p' + q] = N * (-Pp / 24)
                out['7p' + q] = N * (-2 * Pp / 3 + tL)
                out['nu1' + q] = N * T('VnudLL', i, j, s, b)
                out['nu1p' + q] = N * T('VnudLR', i, j, s, b)
        e, gs = ops.sqrt(4 * pi * p['alpha_e']), ops.sqrt(4 * pi * p['alpha_s'])
        out['7gamma' + dd] = N * gs ** 2 / e / p['m_b'] * T('dgamma', s, b)
        out['8g' + dd] = N * gs / p['m_b'] * T('dG', s, b)
        out['7pgamma' + dd] = N * gs ** 2 / e / p['m_b'] * _cj(T('dgamma', b, s))
        out['8pg' + dd] = N * gs / p['m_b'] * _cj(T('dG', b, s))
    return out


def bern_from_flavio(C, p, V, ops):
    """C(key): flavio coefficient.  The Lagrangian of the flavio operators written
    in the Bern operators."""
    out = {}
    pi = ops.pi
    N = ops.sqrt(2) / p['GF'] / 4
    for dd in ('sb', 'db', 'ds'):
        q, f = dd + dd, '_' + dd[::-1] * 2
        out['1' + q] = N * C('CVLL' + f)
        out['1p' + q] = N * C('CVRR' + f)
        out['3' + q] = N * (-8 * C('CTLL' + f))
        out['2' + q] = N * (C('CSLL' + f) - 4 * C('CTLL' + f))
        out['3p' + q] = N * (-8 * C('CTRR' + f))
        out['2p' + q] = N * (C('CSRR' + f) - 4 * C('CTRR' + f))
        out['4' + q] = N * C('CSLR' + f)
        out['5' + q] = N * (-2 * C('CVLR' + f))
    for u, d in CC:
        for l in L:
            for lp in L:
                q, e = u + d + l + lp, '_%s%s%snu%s' % (d, u, l, lp)
                for a, b in (('CVL', '1'), ('CVR', '1p'), ('CSR', '5'), ('CSL', '5p'), ('CT', '7p')):
                    out[b + q] = -C(a + e) * V[U[u]][D[d]]
    e2 = 4 * pi * p['alpha_e']
    gs2 = 4 * pi * p['alpha_s']
    for dd in ('sb', 'db', 'ds'):
        fl = dd[::-1]
        xi = _xi(V, fl)
        M = e2 / (16 * pi ** 2) * xi
        for l in L:
            for lp in L:
                q = dd + l + lp
                n = '%snu%snu%s' % (fl, l, lp)
                out['nu1' + q] = 2 * M * C('CL_' + n)
                out['nu1p' + q] = 2 * M * C('CR_' + n)
                if dd == 'ds':
                    continue
                n = '_' + fl + l + lp
                v, a, vp, ap = M * C('C9' + n), M * C('C10' + n), M * C('C9p' + n), M * C('C10p' + n)
                m = M * p['m_b']
                S, P, Sp, Pp = m * C('CS' + n), m * C('CP' + n), m * C('CSp' + n), m * C('CPp' + n)
                out['1' + q] = v + 5 * a / 3
                out['3' + q] = -a / 6
                out['1p' + q] = vp - 5 * ap / 3
                out['3p' + q] = ap / 6
                out['5' + q] = S - 5 * P / 3
                out['9' + q] = P / 24
                out['7' + q] = 2 * P / 3
                out['5p' + q] = Sp + 5 * Pp / 3
                out['9p' + q] = -Pp / 24
                out['7p' + q] = -2 * Pp / 3
        if dd == 'ds':
            continue
        for a, b in (('C7', '7gamma'), ('C8', '8g'), ('C7p', '7pgamma'), ('C8p', '8pg')):
            out[b + dd] = gs2 / (16 * pi ** 2) * xi * C('%s_%s' % (a, fl))
    return out


# ------------------------------------------------------------------ EOS

def _f4(T, q):
    """Coefficients of the colour-singlet (1, 3) and colour-crossed (2, 4) vector
    operators (s gamma P_L b)(q gamma P_L q), (s gamma P_L b)(q gamma P_R q)."""
    s, b = D['s'], D['b']
    if q in U:
        i = U[q]
        return {1: T('V1udLL', i, i, s, b) - T('V8udLL', i, i, s, b) / 6, 2: T('V8udLL', i, i, s, b) / 2,
                3: T('V1duLR', s, b, i, i) - T('V8duLR', s, b, i, i) / 6, 4: T('V8duLR', s, b, i, i) / 2}
    i = D[q]
    return {1: T('VddLL', i, i, s, b), 2: T('VddLL', s, i, i, b),
            3: T('V1ddLR', s, b, i, i) - T('V8ddLR', s, b, i, i) / 6, 4: T('V8ddLR', s, b, i, i) / 2}


# projection of the b -> s q q operators on the flavour-universal operators of EOS
# (rows c1..c6: {(quark, operator): weight})
EOS_TABLE = {
    'c1': {('b', 1): Fr(-2, 5), ('c', 1): Fr(1), ('d', 1): Fr(-6, 5), ('d', 2): Fr(4, 5), ('s', 1): Fr(-2, 5), ('u', 1): Fr(1)},
    'c2': {('b', 1): Fr(-4, 15), ('c', 1): Fr(1, 6), ('c', 2): Fr(1, 2), ('d', 1): Fr(1, 5), ('d', 2): Fr(-7, 15),
           ('s', 1): Fr(-4, 15), ('u', 1): Fr(1, 6), ('u', 2): Fr(1, 2)},
    'c3': dict([(('b', 1), Fr(-4, 45)), (('s', 1), Fr(-4, 45)), (('d', 1), Fr(-7, 45)), (('d', 2), Fr(1, 15))]
               + [((q, 3), Fr(4, 15)) for q in 'bcdsu'] + [((q, 4), Fr(4, 45)) for q in 'bcdsu']),
    'c4': dict([(('b', 1), Fr(-2, 15)), (('s', 1), Fr(-2, 15)), (('d', 1), Fr(4, 15)), (('d', 2), Fr(-2, 5))]
               + [((q, 4), Fr(8, 15)) for q in 'bcdsu']),
    'c5': dict([(('b', 1), Fr(1, 45)), (('s', 1), Fr(1, 45)), (('d', 1), Fr(7, 180)), (('d', 2), Fr(-1, 60))]
               + [((q, 3), Fr(-1, 60)) for q in 'bcdsu'] + [((q, 4), Fr(-1, 180)) for q in 'bcdsu']),
    'c6': dict([(('b', 1), Fr(1, 30)), (('s', 1), Fr(1, 30)), (('d', 1), Fr(-1, 15)), (('d', 2), Fr(1, 10))]
               + [((q, 4), Fr(-1, 30)) for q in 'bcdsu']),
}


def eos(T, p, V, ops):
    out = {}
    pi = ops.pi
    norm = ops.sqrt(2) / p['GF'] / 4
    for l in ('e', 'mu'):
        i = L[l]
        f = -norm / V[0][2]
        for n, op in (('cVL', 'VnueduLL'), ('cVR', 'VnueduLR'), ('cSR', 'SnueduRL'), ('cSL', 'SnueduRR'), ('cT', 'TnueduRR')):
            out['b->u%snu%s::%s' % (l, l, n)] = f * _cj(T(op, i, i, 2, 0))
    N = norm / V[2][2] / _cj(V[2][1])
    F = {q: _f4(T, q) for q in 'udscb'}
    for c, row in EOS_TABLE.items():
        acc = 0
        for (q, n), wt in row.items():
            acc = acc + F[q][n] * wt.numerator / wt.denominator
        out['b->s::' + c] = N * acc
    e2 = 4 * pi * p['alpha_e']
    s, b = 1, 2
    for l in ('e', 'mu'):
        i = L[l]
        n = 'b->s%s%s::' % (l, l)
        M = N * 16 * pi ** 2 / e2
        LL, LR = T('VedLL', i, i, s, b), T('VdeLR', s, b, i, i)
        RL, RR = T('VedLR', i, i, s, b), T('VedRR', i, i, s, b)
        rr, lr = T('SedRR', i, i, s, b), _cj(T('SedRL', i, i, b, s))
        rl, ll = T('SedRL', i, i, s, b), _cj(T('SedRR', i, i, b, s))
        tR, tL = T('TedRR', i, i, s, b), _cj(T('TedRR', i, i, b, s))
        out[n + 'c9'], out[n + 'c10'] = M * (LR + LL) / 2, M * (LR - LL) / 2
        out[n + "c9'"], out[n + "c10'"] = M * (RR + RL) / 2, M * (RR - RL) / 2
        out[n + 'cS'], out[n + 'cP'] = M * (rr + lr) / 2, M * (rr - lr) / 2
        out[n + "cS'"], out[n + "cP'"] = M * (rl + ll) / 2, M * (rl - ll) / 2
        out[n + 'cT'], out[n + 'cT5'] = M * (tR + tL) / 2, M * (tR - tL) / 2
    e, gs = ops.sqrt(e2), ops.sqrt(4 * pi * p['alpha_s'])
    mb, ms = p['m_b'], p['m_s']
    for c, op, g in (('c7', 'dgamma', e), ('c8', 'dG', gs)):
        # dipoles of EOS are defined as (m_b s sigma P_R b + m_s s sigma P_L b)
        X, Xp = T(op, s, b), _cj(T(op, b, s))
        M = N * 16 * pi ** 2 / g / (mb ** 2 - ms ** 2)
        out['b->s::' + c] = M * (mb * X - ms * Xp)
        out["b->s::%s'" % c] = M * (mb * Xp - ms * X)
    return out


# ------------------------------------------------------------------ formflavor

def formflavor(T, p, V, ops):
    out = {}
    for qq, typ, (a, b) in (('bs', 'd', (1, 2)), ('bd', 'd', (0, 2)), ('sd', 'd', (0, 1)), ('cu', 'u', (0, 1))):
        R = df2(T, a, b, typ)
        for n, v in R.items():
            if n in ('SLL', 'SRR'):
                # the tensor operator enters with the opposite sign of the scalar admixture
                v = v - 8 * R['T' + n[1:]]
            out['C%s_%s%s' % (n, qq, qq)] = v
    for dd in ('bs', 'bd'):
        b, s = D[dd[0]], D[dd[1]]
        n = '_%smm' % dd
        out['CVLL' + n] = T('VedLL', 1, 1, s, b)
        out['CVRR' + n] = T('VedRR', 1, 1, s, b)
        out['CVLR' + n] = T('VdeLR', s, b, 1, 1)
        out['CVRL' + n] = T('VedLR', 1, 1, s, b)
        out['CSLL' + n] = _cj(T('SedRR', 1, 1, b, s))
        out['CSRR' + n] = T('SedRR', 1, 1, s, b)
        out['CSLR' + n] = T('SedRL', 1, 1, s, b)
        out['CSRL' + n] = _cj(T('SedRL', 1, 1, b, s))
        out['CTLL' + n] = _cj(T('TedRR', 1, 1, b, s))
        out['CTRR' + n] = T('TedRR', 1, 1, s, b)
    for n, op in (('CVLL_sdnn', 'VnudLL'), ('CVRL_sdnn', 'VnudLR')):
        out[n] = (T(op, 0, 0, 0, 1) + T(op, 1, 1, 0, 1) + T(op, 2, 2, 0, 1)) / 3
    e, gs = ops.sqrt(4 * ops.pi * p['alpha_e']), ops.sqrt(4 * ops.pi * p['alpha_s'])
    LF = {'e': 0, 'm': 1, 't': 2}
    for qq in ('sb', 'db', 'dd', 'uu', 'mt', 'em', 'et'):
        if qq in ('mt', 'em', 'et'):
            i, j, ty = LF[qq[0]], LF[qq[1]], 'e'
        elif qq == 'uu':
            i, j, ty = 0, 0, 'u'
        else:
            i, j, ty = D[qq[0]], D[qq[1]], 'd'
        out['CAR_' + qq] = T(ty + 'gamma', i, j) / e
        out['CAL_' + qq] = _cj(T(ty + 'gamma', j, i)) / e
        if ty != 'e':
            out['CGR_' + qq] = T(ty + 'G', i, j) / gs
            out['CGL_' + qq] = _cj(T(ty + 'G', j, i)) / gs
    return out
