"""Four-fermion operators as explicit tensors (Dirac x colour), with the sign
rules of anticommuting fields.  Used to state 'the translation preserves the
effective Lagrangian' without copying any formula of the code.

Chiral (Weyl) representation.  An operator in the flavour sector
(f1bar, f2, f3bar, f4) is a sparse tensor  {(a,b,c,d,col): coefficient}  with
Dirac indices a..d of the four fields and colour structure
col = 0: delta_12 delta_34,  col = 1: delta_14 delta_32."""
from fractions import Fraction as Fr
import functools

NC = 3


def _mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(4)) for j in range(4)] for i in range(4)]


def _sc(c, A):
    return [[c * x for x in r] for r in A]


def _ad(A, B):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(A, B)]


ID = [[1 if i == j else 0 for j in range(4)] for i in range(4)]
_s = [[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]]
_G0 = [[0, 0, 1, 0], [0, 0, 0, 1], [1, 0, 0, 0], [0, 1, 0, 0]]


def _gi(s):
    return [[0, 0] + s[0], [0, 0] + s[1], [-s[0][0], -s[0][1], 0, 0], [-s[1][0], -s[1][1], 0, 0]]


G = [_G0] + [_gi(s) for s in _s]       # gamma^mu
METRIC = [1, -1, -1, -1]
PL = [[1 if i == j and i < 2 else 0 for j in range(4)] for i in range(4)]
PR = [[1 if i == j and i >= 2 else 0 for j in range(4)] for i in range(4)]
G5 = _ad(PR, _sc(-1, PL))
SIG = {(m, n): _sc(0.5j, _ad(_mm(G[m], G[n]), _sc(-1, _mm(G[n], G[m]))))
       for m in range(4) for n in range(4)}


@functools.lru_cache(None)
def bilinears(kind):
    """List of (coefficient, A, B): sum_mu A^mu (x) B_mu without projectors."""
    out = []
    if kind == 'S':
        out.append((1, ID, ID))
    elif kind == 'T':
        for m in range(4):
            for n in range(4):
                if m != n:
                    out.append((METRIC[m] * METRIC[n], SIG[m, n], SIG[m, n]))
    elif kind.startswith('V'):           # V1: gamma, V3: 3 gammas, V4: 4 gammas
        n = int(kind[1:] or 1)
        import itertools
        for mu in itertools.product(range(4), repeat=n):
            A = ID
            c = 1
            for m in mu:
                A = _mm(A, G[m])
                c *= METRIC[m]
            out.append((c, A, A))
    else:
        raise KeyError(kind)
    return out


_P = {'L': PL, 'R': PR, '1': ID, '5': G5}


@functools.lru_cache(None)
def dirac(kind, c1, c2):
    """{(a,b,c,d): value} of (A P_c1)_{ab} (B P_c2)_{cd} summed.
    c in L, R, 1 (no projector), 5 (gamma5)."""
    t = {}
    for co, A, B in bilinears(kind):
        X, Y = _mm(A, _P[c1]), _mm(B, _P[c2])
        nx = [(i, j, X[i][j]) for i in range(4) for j in range(4) if X[i][j] != 0]
        ny = [(i, j, Y[i][j]) for i in range(4) for j in range(4) if Y[i][j] != 0]
        for a, b, x in nx:
            for c, d, y in ny:
                k = (a, b, c, d)
                t[k] = t.get(k, 0) + co * x * y
    return {k: v for k, v in t.items() if v != 0}


def _exact(z):
    z = complex(z)
    re, im = Fr(z.real), Fr(z.imag)
    return (re, im)


@functools.lru_cache(None)
def op(kind, c1, c2, color, crossed_fields=False):
    """Tensor of (f1bar A f2)(f3bar B f4) with colour '1' (singlets), 'X'
    (colour-crossed) or '8' (T^a T^a); with crossed_fields the operator is
    (f1bar A f4)(f3bar B f2).  Values are pairs (re, im) of Fractions."""
    D = dirac(kind, c1, c2)
    cols = {'1': [(0, Fr(1))], 'X': [(1, Fr(1))],
            '8': [(1, Fr(1, 2)), (0, Fr(-1, 2 * NC))]}[color]
    t = {}
    for (a, b, c, d), v in D.items():
        r, i = _exact(v)
        for col, w in cols:
            if crossed_fields:
                # f1 A f4 f3 B f2 = - f1 f2 f3 f4 ordering; colour roles swap
                k = (a, d, c, b, 1 - col)
                s = -w
            else:
                k = (a, b, c, d, col)
                s = w
            o = t.get(k, (0, 0))
            t[k] = (o[0] + s * r, o[1] + s * i)
    return {k: v for k, v in t.items() if v != (0, 0)}


def antisym(t, which):
    """Antisymmetrise for identical fields: which = '13' (f1 = f3) or '24'."""
    out = dict(t)
    for (a, b, c, d, col), (r, i) in t.items():
        k = (c, b, a, d, 1 - col) if which == '13' else (a, d, c, b, 1 - col)
        o = out.get(k, (0, 0))
        out[k] = (o[0] - r, o[1] - i)
    return {k: v for k, v in out.items() if v != (0, 0)}
