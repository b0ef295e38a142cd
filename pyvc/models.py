"""Assumed contracts of the external libraries (math, ckmutil, rundec, ...)."""
import mpmath
import math as _math
from .values import Num, NaNNum, Unsupported, num, n_sqrt, CTX, SBool, is_hostnum
from . import poly as P
from .nd import NDArray, NumpyModel, asnd, einsum, PartView
import numpy as np


def _angle_np(z):
    return mpmath.arg(z)


def n_angle(x):
    """Principal argument.  arg(r*z) = arg(z) for r > 0 (contract of
    cmath.phase/numpy.angle); arg of a positive real is 0."""
    x = num(x)
    if not x.p:
        return Num({}, 'float', x.np)
    if len(x.p) == 1:
        (m, c), = x.p.items()
        keep = tuple((s, e) for s, e in m if P.sym_by_id(s).kind not in ('pos', 'prime', 'sqrt', 'abs'))
        if not isinstance(c, P.GQ):
            c = 1 if c > 0 else -1
        if not keep and c == 1:
            return Num({}, 'float', x.np)
        return Num(P.p_fun('arg', [{keep: c}], _angle_np), 'float', x.np)
    coef, mono = P._content(x.p)
    if isinstance(coef, P.GQ) or coef < 0:
        coef = 1 if isinstance(coef, P.GQ) else -coef
    a = P.p_mul(x.p, {tuple((s, -e) for s, e in mono): P.qdiv(1, coef)})
    return Num(P.p_fun('arg', [a], _angle_np), 'float', x.np)


_FN = {'exp': mpmath.exp, 'log': mpmath.log, 'sin': mpmath.sin, 'cos': mpmath.cos,
       'tan': mpmath.tan, 'asin': mpmath.asin, 'acos': mpmath.acos, 'atan': mpmath.atan}


def n_fun(name, x):
    x = num(x)
    return Num(P.p_fun(name, [x.p], _FN[name]), 'float', x.np)


def _scalar(x):
    if isinstance(x, PartView):
        x = x.arr()
    if isinstance(x, NDArray):
        if x.ndim == 0:
            return x.data[()]
        raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
    x = num(x)
    if isinstance(x, Num) and x.ty == 'complex':
        raise TypeError('must be real number, not complex')
    return x


class MathModel:
    __name__ = 'math'

    def __init__(self):
        self.pi = Num.sym('pi', 'pos')
        self.inf = float('inf')
        self.nan = float('nan')

    def sqrt(self, x):
        x = _scalar(x)
        r = n_sqrt(x)
        return Num(r.p, 'float', False) if isinstance(r, Num) else r

    def pow(self, x, y):
        return _scalar(x) ** y

    def fabs(self, x):
        return abs(_scalar(x))

    def atan2(self, y, x):
        I = Num({P.ONE: P.GQ(0, 1)}, 'complex')
        return n_angle(_scalar(x) + I * _scalar(y))

    def hypot(self, x, y):
        I = Num({P.ONE: P.GQ(0, 1)}, 'complex')
        return abs(_scalar(x) + I * _scalar(y))

    def __getattr__(self, n):
        if n in _FN:
            return lambda x: n_fun(n, _scalar(x))
        if n in ('log10',):
            return lambda x: n_fun('log', _scalar(x)) / n_fun('log', 10)
        f = getattr(_math, n)

        def w(*a):
            if any(isinstance(x, (Num, NaNNum)) for x in a):
                raise Unsupported('math.%s' % n)
            return f(*a)
        return w


class CMathModel:
    def phase(self, x):
        return n_angle(x)

    def __getattr__(self, n):
        raise Unsupported('cmath.%s' % n)


# ------------------------------------------------------------------ ckmutil

def key_args(args):
    out = []
    for a in args:
        if isinstance(a, (Num,)) or is_hostnum(a):
            out.append(num(a).p)
        else:
            out.append(a)
    return out


def V_matrix(args):
    """ckm_tree(Vus, Vub, Vcb, gamma): assumed contract: a pure function of its
    four arguments whose value is a unitary 3x3 matrix without zero entries.
    Entries are unknowns determined by the (normal forms of the) arguments."""
    k = tuple(P.p_key(num(a).p) for a in args)
    reg = CTX.engine.ckm_registry
    if k not in reg:
        n = len(reg)
        name = 'V' if n == 0 else 'V_%d' % n
        data = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                data[i, j] = Num.sym('%s%d%d' % (name, i + 1, j + 1), 'complex', np=True)
        reg[k] = (name, data, [num(a) for a in args])
    return NDArray(reg[k][1].copy(), 'complex')


class CkmModel:
    def ckm_tree(self, *args, **kw):
        names = ['Vus', 'Vub', 'Vcb', 'gamma', 'delta']
        a = list(args)
        for n in names[len(a):4]:
            if n in kw:
                a.append(kw.pop(n))
        if len(a) != 4 or kw:
            raise TypeError('ckm_tree() arguments')
        return V_matrix(a)

    def __getattr__(self, n):
        raise Unsupported('ckmutil.ckm.%s' % n)


class DiagModel:
    def msvd(self, m):
        """Singular value decomposition (U, S, V), uninterpreted functions of
        the matrix entries."""
        m = asnd(m)
        args = [x.p for x in m.data.ravel()]
        if all(not a for a in args):
            S = [Num({}, 'float', True) for i in range(3)]
        else:
            S = [Num(P.p_fun('msvd_S%d' % i, args, None), 'float', True) for i in range(3)]
        U = np.empty(m.shape, dtype=object)
        for i in range(3):
            for j in range(3):
                U[i, j] = Num(P.p_fun('msvd_U%d%d' % (i, j), args, None, complex_=True), 'complex', True)
        W = np.empty(m.shape, dtype=object)
        for i in range(3):
            for j in range(3):
                W[i, j] = Num(P.p_fun('msvd_V%d%d' % (i, j), args, None, complex_=True), 'complex', True)
        return NDArray(U, 'complex'), NDArray.of(S), NDArray(W, 'complex')

    def __getattr__(self, n):
        raise Unsupported('ckmutil.diag.%s' % n)


# ------------------------------------------------------------------ rundec

class _NfMmu:
    def __init__(self):
        self.Mth = 0
        self.muth = 0
        self.nf = 0


class CRunDecModel:
    """CRunDec: assumed contract: each method is a pure function of its
    arguments and of the threshold record it is passed."""

    def __init__(self, *a):
        self.nfMmu = _NfMmu()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*args, **kw):
            if kw:
                raise Unsupported('rundec kwargs')
            flat = []
            for a in args:
                if isinstance(a, _NfMmu):
                    flat += [num(a.Mth).p, num(a.muth).p, num(a.nf).p]
                else:
                    flat.append(num(a).p)
            CTX.engine.calls.append(('rundec.' + n, [Num(x) for x in flat]))
            p = P.p_fun('rundec.' + n, flat, None)
            # running couplings and masses are positive reals
            s, = p
            P.sym_by_id(s[0][0]).kind = 'fun'
            return Num(p, 'float', False)
        return f


class RundecModel:
    CRunDec = CRunDecModel
