"""Symbolic values manipulated by the VC generator: numbers, booleans, strings."""
from fractions import Fraction
import numbers as _numbers
import z3
from . import poly as P


class Unsupported(Exception):
    """The verifier cannot handle this construct: the obligation is undecided
    (never reported as a violation)."""


class PathAbort(Exception):
    """Current path is infeasible."""


class _Ctx:
    engine = None


CTX = _Ctx()

PyStr = z3.DeclareSort('PyStr')
_str_consts = {}


def str_const(s):
    c = _str_consts.get(s)
    if c is None:
        c = z3.Const('"%s"' % s, PyStr)
        _str_consts[s] = c
    return c


def str_axioms():
    cs = list(_str_consts.values())
    return [z3.Distinct(*cs)] if len(cs) > 1 else []


# ------------------------------------------------------------------ SBool

class SBool:
    __slots__ = ('e', 'why')

    def __init__(self, e, why=None):
        self.e = e
        self.why = why

    def __bool__(self):
        return CTX.engine.decide(self)

    def __and__(self, o):
        return mk_bool(z3.And(self.e, zbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(z3.Or(self.e, zbool(o)))
    __ror__ = __or__

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(self.e == zbool(o))
        return False

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return 'SBool(%s)' % self.e


def zbool(b):
    if isinstance(b, SBool):
        return b.e
    if isinstance(b, bool):
        return z3.BoolVal(b)
    raise Unsupported('not a boolean: %r' % (b,))


def mk_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def s_not(b):
    if isinstance(b, bool):
        return not b
    return mk_bool(z3.Not(zbool(b)))


def s_and(*bs):
    return mk_bool(z3.And(*[zbool(b) for b in bs]))


def s_or(*bs):
    return mk_bool(z3.Or(*[zbool(b) for b in bs]))


# ------------------------------------------------------------------ numbers

_rank = {'int': 0, 'float': 1, 'complex': 2}


def exact(x):
    """Host number -> exact rational / Gaussian rational."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return P.norm_q(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite number')
        return P.norm_q(Fraction(repr(x)))
    if isinstance(x, complex):
        return P.gq(exact(x.real), exact(x.imag))
    import numpy as np
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return exact(float(x))
    raise Unsupported('not a number: %r' % (x,))


def host_ty(x):
    import numpy as np
    if isinstance(x, (bool, int, np.integer)):
        return 'int'
    if isinstance(x, (float, Fraction, np.floating)):
        return 'float'
    return 'complex'


def is_hostnum(x):
    import numpy as np
    return isinstance(x, (int, float, complex, Fraction, np.integer, np.floating))


class Num:
    __slots__ = ('p', 'ty', 'np')
    __array_ufunc__ = None

    def __init__(self, p, ty='complex', np=False):
        self.p = p
        self.ty = ty
        self.np = np

    # -- construction helpers
    @staticmethod
    def const(x, ty=None, np=False):
        q = exact(x)
        return Num({} if q == 0 else {P.ONE: q}, ty or host_ty(x), np)

    @staticmethod
    def sym(name, kind='complex', ty=None, np=False, z3e=None):
        s = P.get_sym(name, kind)
        if z3e is not None:
            s.z3 = z3e
        return Num({((s.id, 1),): 1}, ty or ('complex' if kind == 'complex' else 'float'), np)

    def is_const(self):
        return not self.p or (len(self.p) == 1 and P.ONE in self.p)

    def const_val(self):
        return self.p.get(P.ONE, 0)

    def is_int_const(self):
        return self.is_const() and isinstance(self.const_val(), int)

    # -- arithmetic
    def _co(self, o):
        if isinstance(o, Num):
            return o
        if isinstance(o, NaNNum):
            return None
        if is_hostnum(o):
            return Num.const(o)
        return None

    def _ty(self, o):
        return (self.ty if _rank[self.ty] >= _rank[o.ty] else o.ty), self.np or o.np

    def __add__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        return Num(P.p_add(self.p, b.p), *self._ty(b))

    __radd__ = __add__

    def __neg__(self):
        return Num(P.p_neg(self.p), self.ty, self.np)

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        return Num(P.p_add(self.p, P.p_neg(b.p)), *self._ty(b))

    def __rsub__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        return Num(P.p_add(b.p, P.p_neg(self.p)), *self._ty(b))

    def __mul__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        return Num(P.p_mul(self.p, b.p), *self._ty(b))

    __rmul__ = __mul__

    @staticmethod
    def _div(a, b):
        ty, npf = a._ty(b)
        if ty == 'int':
            ty = 'float'
        if not b.p:
            if npf:
                return NAN   # numpy: nan/inf with a warning
            raise ZeroDivisionError('division by zero')
        if not b.is_const():
            CTX.engine.note_denominator(b) if CTX.engine else None
        return Num(P.p_mul(a.p, P.p_inv(b.p)), ty, npf)

    def __truediv__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        return Num._div(self, b)

    def __rtruediv__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        return Num._div(b, self)

    def __pow__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        if not b.is_const():
            raise Unsupported('symbolic exponent')
        e = b.const_val()
        ty, npf = self._ty(b)
        if isinstance(e, int):
            if e < 0 and ty == 'int':
                ty = 'float'
            return Num(P.p_pow(self.p, e), ty, npf)
        if isinstance(e, Fraction) and e.denominator == 2:
            return Num(P.p_pow(n_sqrt(self).p, e.numerator), 'float' if ty != 'complex' else ty, npf)
        raise Unsupported('exponent %s' % e)

    def __rpow__(self, o):
        return Num.const(o) ** self

    def __abs__(self):
        return Num(P.p_abs(self.p), 'int' if self.ty == 'int' else 'float', self.np)

    def __float__(self):
        raise Unsupported('float() of a symbolic number in a host function')

    def __int__(self):
        if self.is_int_const():
            return self.const_val()
        raise Unsupported('int() of a symbolic number')

    def __index__(self):
        if self.ty == 'int' and self.is_int_const():
            return self.const_val()
        raise TypeError("'float' object cannot be interpreted as an integer")

    # -- attributes of Python / numpy numbers
    @property
    def real(self):
        if self.ty != 'complex':
            return self
        c = P.p_conj(self.p)
        return Num(P.p_scale(P.p_add(self.p, c), Fraction(1, 2)), 'float', self.np)

    @property
    def imag(self):
        if self.ty != 'complex':
            return Num({}, self.ty, self.np)
        c = P.p_conj(self.p)
        d = P.p_add(self.p, P.p_neg(c))
        return Num(P.p_scale(d, P.GQ(0, Fraction(-1, 2))), 'float', self.np)

    def conjugate(self):
        if self.ty != 'complex':
            return self
        return Num(P.p_conj(self.p), self.ty, self.np)

    def __getattr__(self, name):
        if name in ('conj',):
            if self.np:
                return self.conjugate
            raise AttributeError("'%s' object has no attribute 'conj'" % self.ty)
        if self.np:
            if name == 'shape':
                return ()
            if name == 'ndim':
                return 0
            if name == 'size':
                return 1
            if name == 'T':
                return self
            if name == 'item':
                return lambda: Num(self.p, self.ty, False)
            if name == 'copy':
                return lambda: self
            if name == 'dtype':
                return 'complex' if self.ty == 'complex' else 'float'
        if name == 'is_integer' and self.is_const():
            return lambda: isinstance(self.const_val(), int)
        raise AttributeError("'%s' object has no attribute '%s'" % (self.ty, name))

    # -- comparison
    def __eq__(self, o):
        if isinstance(o, NaNNum):
            return False
        b = self._co(o)
        if b is None:
            return NotImplemented
        d = P.p_add(self.p, P.p_neg(b.p))
        return num_eq0(d)

    def __ne__(self, o):
        if isinstance(o, NaNNum):
            return True
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def _cmp(self, o, op):
        b = self._co(o)
        if b is None:
            return NotImplemented
        if (self.ty == 'complex' or b.ty == 'complex') and not self.np and not b.np:
            raise TypeError("'%s' not supported between instances of 'complex'" % op)
        d = P.p_add(self.p, P.p_neg(b.p))
        return num_cmp0(d, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.is_const():
            c = self.const_val()
            if isinstance(c, (int, Fraction)):
                return hash(c)
        return hash(P.p_key(self.p))

    def __format__(self, spec):
        return CTX.engine.fmt_token(self, spec)

    def __repr__(self):
        return 'Num<%s>(%s)' % (self.ty, P.p_str(self.p))

    __str__ = __repr__


class NaNNum:
    """numpy.nan"""
    __array_ufunc__ = None
    np = True
    ty = 'float'
    real = property(lambda s: s)
    imag = property(lambda s: s)

    def _s(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _s
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = _s
    conj = conjugate = _s

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    def __lt__(self, o):
        return False
    __le__ = __gt__ = __ge__ = __lt__

    def __hash__(self):
        return 17

    def __repr__(self):
        return 'nan'


NAN = NaNNum()


def num_eq0(d):
    if not d:
        return True
    if len(d) == 1:
        (m, c), = d.items()
        if all(P.sym_by_id(s).kind in ('pos', 'prime', 'inv') for s, e in m):
            return False
    re, im = to_z3(d)
    conj = []
    if re is not None:
        conj.append(re == 0)
    if im is not None:
        conj.append(im == 0)
    return mk_bool(z3.And(*conj)) if conj else True


def num_cmp0(d, op):
    if not d:
        return op in ('<=', '>=')
    if len(d) == 1 and P.ONE in d:
        c = d[P.ONE]
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
    if all(not isinstance(c, P.GQ) and P._positive_mono(m) for m, c in d.items()):
        cs = list(d.values())
        if all(c > 0 for c in cs):
            return op in ('>', '>=')
        if all(c < 0 for c in cs):
            return op in ('<', '<=')
    re, _ = to_z3(d)
    re = z3.RealVal(0) if re is None else re
    return mk_bool({'<': re < 0, '<=': re <= 0, '>': re > 0, '>=': re >= 0}[op])


def _sym_z3(S):
    """(re, im) z3 terms of a symbol, plus facts registered with the engine."""
    if S.z3 is not None:
        return S.z3
    if S.kind == 'complex':
        if S.name.startswith('conj('):
            r = _sym_z3(P.sym_by_id(S.conj))
            S.z3 = (r[0], -r[1])
        else:
            S.z3 = (z3.Real('re!' + S.name), z3.Real('im!' + S.name))
    elif S.kind == 'fun' and S.info.get('complex'):
        S.z3 = (z3.Real('re!%d' % S.id), z3.Real('im!%d' % S.id))
    else:
        v = z3.Real('%s!%d' % (S.name, S.id))
        S.z3 = (v, None)
    return S.z3


def sym_facts(ids):
    out = []
    for i in ids:
        S = P.sym_by_id(i)
        if S.kind in ('pos',):
            out.append(_sym_z3(S)[0] > 0)
        elif S.kind == 'prime':
            v = _sym_z3(S)[0]
            out.append(v > 0)
        elif S.kind in ('sqrt', 'abs'):
            out.append(_sym_z3(S)[0] >= 0)
    return out


def to_z3(p):
    """Polynomial -> (re, im) z3 real terms (None = 0)."""
    re_t, im_t = [], []
    for m, c in p.items():
        if isinstance(c, P.GQ):
            r, i = z3.RealVal(str(Fraction(c.re))), z3.RealVal(str(Fraction(c.im)))
            if c.re == 0:
                r = None
        else:
            r, i = z3.RealVal(str(Fraction(c))), None
        for s, e in m:
            S = P.sym_by_id(s)
            if isinstance(e, Fraction):
                key = '%s^%s' % (S.name, e)
                v = z3.Real(key)
                sr, si = v, None
                k = 1
            elif S.kind == 'inv' or e < 0:
                v = z3.Real('%s!%d^%s' % (S.name, S.id, e))
                sr, si = v, None
                if S.kind == 'complex' or (S.kind == 'inv' and not P.p_isreal(S.arg)):
                    si = z3.Real('im!%s!%d^%s' % (S.name, S.id, e))
                k = 1
            else:
                sr, si = _sym_z3(S)
                k = e
            if CTX.engine is not None:
                CTX.engine.used_syms.add(s)
            for _ in range(k):
                r, i = _cmul(r, i, sr, si)
        if r is not None:
            re_t.append(r)
        if i is not None:
            im_t.append(i)
    re = None if not re_t else (re_t[0] if len(re_t) == 1 else z3.Sum(re_t))
    im = None if not im_t else (im_t[0] if len(im_t) == 1 else z3.Sum(im_t))
    return re, im


def _cmul(r, i, sr, si):
    def mul(a, b):
        return None if a is None or b is None else a * b

    def sub(a, b):
        if a is None:
            return None if b is None else -b
        return a if b is None else a - b

    def add(a, b):
        if a is None:
            return b
        return a if b is None else a + b
    return sub(mul(r, sr), mul(i, si)), add(mul(r, si), mul(i, sr))


def num(x):
    if isinstance(x, (Num, NaNNum)):
        return x
    if isinstance(x, float) and x != x:
        return NAN
    return Num.const(x)


def n_sqrt(x):
    x = num(x)
    if isinstance(x, NaNNum):
        return x
    return Num(P.p_sqrt(x.p), 'float', x.np)


def n_conj(x):
    x = num(x)
    return x.conjugate()


# ------------------------------------------------------------------ strings

class SStr:
    """Symbolic (uninterpreted) string."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def fresh(name):
        return SStr(z3.Const(name, PyStr))

    def _app(self, fname):
        f = z3.Function(fname, PyStr, PyStr)
        return SStr(f(self.e))

    def lower(self):
        return self._app('lower')

    def upper(self):
        return self._app('upper')

    def strip(self, *a):
        return self._app('strip')

    def __getitem__(self, i):
        if isinstance(i, int):
            return self._app('char[%d]' % i)
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) in ((None, 1, None), (0, 1, None)):
                return self._app('char[0]')
        raise Unsupported('string slicing of a symbolic string')

    def _host(self, *a):
        raise Unsupported('host operation on a symbolic string')
    __iter__ = __len__ = __contains__ = __lt__ = __le__ = __gt__ = __ge__ = __mod__ = __mul__ = _host

    def startswith(self, s):
        if isinstance(s, str) and len(s) == 1:
            return self[0] == s
        if isinstance(s, tuple) and s and all(isinstance(x, str) and len(x) == 1 for x in s):
            return s_or(*[self[0] == x for x in s])
        raise Unsupported('startswith on a symbolic string')

    def endswith(self, s):
        if isinstance(s, str) and len(s) == 1:
            return self[-1] == s
        if isinstance(s, tuple) and s and all(isinstance(x, str) and len(x) == 1 for x in s):
            return s_or(*[self[-1] == x for x in s])
        raise Unsupported('endswith on a symbolic string')

    def __eq__(self, o):
        if isinstance(o, SStr):
            return mk_bool(self.e == o.e)
        if isinstance(o, str):
            return mk_bool(self.e == str_const(o))
        return False

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return 12345

    def __format__(self, spec):
        if CTX.engine is not None and CTX.engine.text:
            return CTX.engine.fmt_token(self, spec)
        return '<%s>' % self.e

    def __repr__(self):
        return '<%s>' % self.e

    __str__ = __repr__

    def __add__(self, o):
        if CTX.engine is not None and CTX.engine.text and isinstance(o, (str, SStr)):
            return format(self) + format(o)
        raise Unsupported('concatenation of a symbolic string')

    def __radd__(self, o):
        if CTX.engine is not None and CTX.engine.text and isinstance(o, (str, SStr)):
            return format(o) + format(self)
        raise Unsupported('concatenation of a symbolic string')

    def split(self, *a):
        raise Unsupported('split of a symbolic string')

    replace = split


class SName(str):
    """A symbolic string that can serve as the name of an attribute or keyword.
    As a dictionary key it stands for itself; comparisons go to the solver."""
    def __new__(cls, name):
        o = str.__new__(cls, '\u27e8%s\u27e9' % name)
        o.sym = SStr.fresh(name)
        return o

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, SName):
            o = o.sym
        return self.sym == o

    def __ne__(self, o):
        return s_not(self == o)

    __hash__ = str.__hash__

    def __getitem__(self, i):
        return self.sym[i]

    def lower(self):
        return self.sym.lower()

    def upper(self):
        return self.sym.upper()

    def strip(self, *a):
        return self.sym.strip(*a)

    def startswith(self, s):
        return self.sym.startswith(s)

    def endswith(self, s):
        return self.sym.endswith(s)

    def __bool__(self):
        return True

    def __format__(self, spec):
        return format(self.sym, spec)


def _blocked(name):
    def f(self, *a, **k):
        raise Unsupported('str.%s of a symbolic name' % name)
    return f


for _n in dir(str):
    if _n not in SName.__dict__ and (not _n.startswith('__') or _n in (
            '__add__', '__contains__', '__iter__', '__lt__', '__le__', '__gt__', '__ge__', '__mod__', '__mul__', '__rmul__')):
        setattr(SName, _n, _blocked(_n))


class Fold:
    """Text assembled from a sequence of any length: at every live position (a
    tuple of keys, in the order of the sequence) the text body(position), with
    sep in between."""
    def __init__(self, arities, live, body, sep=''):
        self.arities, self.live, self.body, self.sep = arities, live, body, sep


class Prev:
    """The text assembled in the iterations before the current one."""
    def __init__(self, name):
        self.name = name


class Opaque:
    """An arbitrary Python value about which nothing is known but identity."""
    def __init__(self, name):
        self._opaque_name = name

    def __repr__(self):
        return '<opaque %s>' % self._opaque_name
