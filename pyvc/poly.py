"""Exact symbolic numbers: generalised Laurent polynomials over Q(i).

A number is a finite sum of  coefficient * monomial  where the coefficient is a
Gaussian rational and the monomial a product of integer (for positive real
symbols also rational) powers of symbols.  Symbols are complex unknowns (with a
conjugate partner), real unknowns, positive real unknowns, square roots of
primes, and opaque atoms (sqrt/abs/inverse/angle/log... of a sum) identified by the
normal form of their argument.  Two numbers with the same normal form are equal
for all values of the unknowns (outside the zero set of the denominators);
different normal forms are compared numerically (mpmath, 60 digits) to find out
whether they are different functions.
"""
from fractions import Fraction
import mpmath

mpmath.mp.dps = 60


class GQ:
    """Gaussian rational with non-zero imaginary part."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __add__(self, o):
        if isinstance(o, GQ):
            return gq(self.re + o.re, self.im + o.im)
        return GQ(self.re + o, self.im)
    __radd__ = __add__

    def __neg__(self):
        return GQ(-self.re, -self.im)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, GQ):
            return gq(self.re * o.re - self.im * o.im,
                      self.re * o.im + self.im * o.re)
        return gq(self.re * o, self.im * o)
    __rmul__ = __mul__

    def __eq__(self, o):
        return isinstance(o, GQ) and self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return '(%s%+sj)' % (self.re, self.im)


def gq(re, im):
    return GQ(re, im) if im != 0 else re


def qdiv(a, b):
    """a / b for rationals / Gaussian rationals."""
    if isinstance(b, GQ):
        n = b.re * b.re + b.im * b.im
        return a * GQ(Fraction(b.re) / n, -Fraction(b.im) / n)
    if isinstance(a, GQ):
        return GQ(Fraction(a.re) / b, Fraction(a.im) / b)
    return norm_q(Fraction(a) / b)


def norm_q(f):
    if isinstance(f, Fraction) and f.denominator == 1:
        return f.numerator
    return f


def qconj(a):
    return GQ(a.re, -a.im) if isinstance(a, GQ) else a


class Sym:
    __slots__ = ('id', 'name', 'kind', 'conj', 'arg', 'z3', 'info')
    # kind: 'complex', 'real', 'pos', 'prime', 'sqrt', 'abs', 'inv', 'fun', 'ind' (0 or 1)

    def __repr__(self):
        return self.name


_syms = []
DERIVED = {}        # names of conjunctions of indicator conditions (guard.py)
CHOICE = {}         # symbol -> (presence atom, value if present, value if absent)
_index = {}


def _new(key, name, kind, arg=None, info=None):
    s = Sym()
    s.id = len(_syms)
    s.name = name
    s.kind = kind
    s.conj = s.id
    s.arg = arg
    s.z3 = None
    s.info = info
    _syms.append(s)
    if key is not None:
        _index[key] = s
    return s


def sym_by_id(i):
    return _syms[i]


def reset():
    """Forget every symbol (only for tests)."""
    del _syms[:]
    _index.clear()


def get_sym(name, kind, info=None):
    key = (kind, name)
    s = _index.get(key)
    if s is None:
        s = _new(key, name, kind, info=info)
        if kind == 'complex':
            c = _new(None, 'conj(%s)' % name, 'complex', info=info)
            s.conj = c.id
            c.conj = s.id
    return s


ONE = ()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    la, lb = len(a), len(b)
    out = []
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if e != 0:
                if isinstance(e, Fraction) and e.denominator == 1:
                    e = e.numerator
                out.append((x[0], e))
            i += 1
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def _needs_fix(m):
    ind = False
    for s, e in m:
        k = _syms[s].kind
        if k == 'ind':
            if ind or e != 1:
                return True
            ind = True
        elif k == 'prime':
            if not 0 < e < 1:
                return True
        elif k == 'sqrt' or k == 'inv' or k == 'abs':
            if k == 'sqrt' and e != 1:
                return True
            if k == 'inv' and e < 0:
                return True
            if k == 'abs' and (e >= 2 or e < 0):
                return True
    return False


def _fix(m, c):
    """Rewrite a monomial whose atoms have non-canonical exponents; returns a
    poly dict."""
    rest = []
    extra = None
    inds = [s for s, e in m if _syms[s].kind == 'ind']
    if len(inds) > 1:
        # a product of 'one of these atoms is 1': the smaller set implies the larger one
        inds = [s for s in inds if not any(_syms[t].info < _syms[s].info for t in inds)]
    for s, e in m:
        S = _syms[s]
        if S.kind == 'ind':
            if e < 0:
                raise ZeroDivisionError('division by an indicator')
            if s in inds:
                rest.append((s, 1))
        elif S.kind == 'prime':
            fl = e.__floor__() if not isinstance(e, int) else e
            fr = e - fl
            p = S.info
            if fl > 0:
                c = c * p ** fl
            elif fl < 0:
                c = c * Fraction(1, p ** (-fl))
            if fr != 0:
                rest.append((s, fr))
        elif S.kind == 'sqrt' and e != 1:
            q, r = divmod(e, 2)
            if r:
                rest.append((s, r))
            f = p_pow(S.arg, q)
            extra = f if extra is None else p_mul(extra, f)
        elif S.kind == 'abs' and (e >= 2 or e < 0):
            q, r = divmod(e, 2)
            if r:
                rest.append((s, r))
            a2 = p_mul(S.arg, p_conj(S.arg))
            f = p_pow(a2, q)
            extra = f if extra is None else p_mul(extra, f)
        elif S.kind == 'inv' and e < 0:
            f = p_pow(S.arg, -e)
            extra = f if extra is None else p_mul(extra, f)
        else:
            rest.append((s, e))
    if isinstance(c, Fraction):
        c = norm_q(c)
    base = {tuple(rest): c}
    if extra is None:
        return base
    return p_mul(base, extra)


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    out = dict(a)
    for m, c in b.items():
        o = out.get(m)
        if o is None:
            out[m] = c
        else:
            o = o + c
            if o == 0:
                del out[m]
            else:
                out[m] = o
    return out


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_scale(a, q):
    if q == 0:
        return {}
    if q == 1:
        return a
    return {m: c * q for m, c in a.items()}


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and ONE in a:
        return p_scale(b, a[ONE])
    if len(b) == 1 and ONE in b:
        return p_scale(a, b[ONE])
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            if _needs_fix(m):
                for mm, cc in _fix(m, c).items():
                    o = out.get(mm)
                    o = cc if o is None else o + cc
                    if o == 0:
                        out.pop(mm, None)
                    else:
                        out[mm] = o
                continue
            o = out.get(m)
            o = c if o is None else o + c
            if o == 0:
                out.pop(m, None)
            else:
                out[m] = o
    return out


def p_pow(a, n):
    if n < 0:
        return p_pow(p_inv(a), -n)
    r = {ONE: 1}
    while n:
        if n & 1:
            r = p_mul(r, a)
        n >>= 1
        if n:
            a = p_mul(a, a)
    return r


def p_conj(a):
    out = {}
    for m, c in a.items():
        changed = False
        mm = []
        extra = None
        for s, e in m:
            S = _syms[s]
            if S.kind == 'complex':
                mm.append((S.conj, e))
                changed = True
            elif S.kind == 'inv' and not p_isreal(S.arg):
                f = p_pow(p_inv(p_conj(S.arg)), e)
                extra = f if extra is None else p_mul(extra, f)
                changed = True
            elif S.kind == 'fun' and S.info.get('complex'):
                mm.append((S.conj, e))
                changed = True
            else:
                mm.append((s, e))
        if changed:
            mm.sort()
            mm = tuple(mm)
        else:
            mm = m
        t = {mm: qconj(c)}
        if extra is not None:
            t = p_mul(t, extra)
        out = p_add(out, t)
    return out


def p_choices(a):
    """a with the symbols of CHOICE (outside of function arguments) replaced by
    present*new + (1 - present)*old"""
    r = {}
    memo = {}
    for m, c in a.items():
        t = {(): c}
        for s, e in m:
            if s in CHOICE and e > 0 and e == int(e):
                if s not in memo:
                    n, new, old = CHOICE[s]
                    i = {((get_sym(n, 'ind', info=frozenset([n])).id, 1),): 1}
                    memo[s] = p_add(p_mul(i, new), p_add(old, p_neg(p_mul(i, old))))
                f = p_pow(memo[s], int(e))
            else:
                f = {((s, e),): 1}
            t = p_mul(t, f)
        r = p_add(r, t)
    return r


def p_isreal(a):
    return p_conj(a) == a


def p_key(a):
    return tuple(sorted(a.items(), key=lambda t: (t[0], repr(t[1]))))


def p_syms(a):
    return {i for m in a for i, _ in m}


def _positive_mono(m):
    return all(_syms[s].kind in ('pos', 'prime', 'sqrt', 'abs') or
               (_syms[s].kind in ('real', 'abs') and isinstance(e, int) and e % 2 == 0)
               for s, e in m)


def _content(a):
    """(coef, mono) such that a = coef*mono*primitive; the mono collects common
    positive-real/prime/sqrt... factors only."""
    items = sorted(a.items(), key=lambda t: (t[0], repr(t[1])))
    common = None
    for m, _ in items:
        d = {s: e for s, e in m if _syms[s].kind == 'pos'}
        if common is None:
            common = d
        else:
            common = {s: min(common.get(s, 0), d.get(s, 0))
                      for s in set(common) | set(d)}
    mono = tuple(sorted((s, e) for s, e in common.items() if e != 0))
    c = items[0][1]
    if isinstance(c, GQ):
        coef = 1
    else:
        coef = c
    return coef, mono


def p_inv(a):
    if not a:
        raise ZeroDivisionError('division by zero')
    if len(a) == 1 and not any(_syms[s].kind == 'ind' for m in a for s, e in m):
        (m, c), = a.items()
        mm = tuple((s, -e) for s, e in m)
        t = {ONE: qdiv(1, c)}
        if mm:
            t = p_mul(t, _fixed(mm))
        return t
    coef, mono = _content(a)
    pre = {mono: coef} if mono else {ONE: coef}
    pinv = {tuple((s, -e) for s, e in mono): qdiv(1, coef)}
    prim = p_mul(a, pinv)
    k = ('inv', p_key(prim))
    S = _index.get(k)
    if S is None:
        S = _new(k, 'inv%d' % len(_syms), 'inv', arg=prim)
    return p_mul(pinv, {((S.id, 1),): 1})


def _fixed(m):
    if _needs_fix(m):
        return _fix(m, 1)
    return {m: 1}


_smallprimes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]


def _sqrt_int(n):
    """n positive int -> (k, squarefree prime list) or None"""
    out = 1
    pr = []
    for p in _smallprimes:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        out *= p ** (e // 2)
        if e % 2:
            pr.append(p)
    if n > 1:
        import math
        r = math.isqrt(n)
        if r * r == n:
            out *= r
        else:
            return None
    return out, pr


def _sqrt_q(c):
    c = Fraction(c)
    a = _sqrt_int(c.numerator)
    b = _sqrt_int(c.denominator)
    if a is None or b is None:
        return None
    r = {ONE: norm_q(Fraction(a[0], b[0]))}
    for p in a[1]:
        s = get_sym('rt%d' % p, 'prime', info=p)
        r = p_mul(r, {((s.id, Fraction(1, 2)),): 1})
    for p in b[1]:
        s = get_sym('rt%d' % p, 'prime', info=p)
        r = p_mul(r, _fix(((s.id, Fraction(-1, 2)),), 1))
    return r


def p_sqrt(a):
    """Principal square root of a non-negative real."""
    if not a:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        if not isinstance(c, GQ) and c > 0 and all(_syms[s].kind in ('pos', 'prime') for s, e in m):
            q = _sqrt_q(c)
            if q is not None:
                mm = tuple((s, norm_q(Fraction(e) / 2)) for s, e in m)
                if all(_syms[s].kind != 'prime' for s, e in m):
                    return p_mul(q, {mm: 1})
                # nested roots of primes: keep opaque for the prime part only
        # perfect even powers of real symbols are not simplified (|x|)
    coef, mono = _content(a)
    pre = {ONE: 1}
    if not isinstance(coef, GQ):
        q = _sqrt_q(abs(coef))
        if q is not None:
            a = p_scale(a, qdiv(1, abs(coef)))
            pre = q
    if mono:
        a = p_mul(a, {tuple((s, -e) for s, e in mono): 1})
        pre = p_mul(pre, {tuple((s, norm_q(Fraction(e) / 2)) for s, e in mono): 1})
    k = ('sqrt', p_key(a))
    S = _index.get(k)
    if S is None:
        S = _new(k, 'sqrt%d' % len(_syms), 'sqrt', arg=a)
    return p_mul(pre, {((S.id, 1),): 1})


def p_abs(a):
    if not a:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        if _positive_mono(m) and not isinstance(c, GQ):
            return {m: abs(c)}
    coef, mono = _content(a)
    pre = {mono: abs(coef) if not isinstance(coef, GQ) else 1}
    a = p_mul(a, {tuple((s, -e) for s, e in mono): qdiv(1, coef) if not isinstance(coef, GQ) else 1})
    if a == {ONE: 1}:
        return pre
    k = ('abs', p_key(a))
    S = _index.get(k)
    if S is None:
        # |z| = |conj z|
        kc = ('abs', p_key(p_conj(a)))
        S = _index.get(kc)
    if S is None:
        S = _new(k, 'abs%d' % len(_syms), 'abs', arg=a)
    return p_mul(pre, {((S.id, 1),): 1})


def p_fun(name, args, fn, complex_=False):
    """Uninterpreted (numerically evaluable, when fn is given) function."""
    k = ('fun', name, tuple(p_key(a) if isinstance(a, dict) else ('c', a)
                            for a in args))
    S = _index.get(k)
    if S is None:
        S = _new(k, '%s#%d' % (name, len(_syms)), 'fun', arg=list(args),
                 info={'name': name, 'fn': fn, 'complex': complex_})
        if complex_:
            c = _new(None, 'conj(%s)' % S.name, 'fun', arg=list(args),
                     info={'name': 'conj ' + name, 'complex': True,
                           'fn': (lambda *a: mpmath.conj(fn(*a))) if fn else None})
            S.conj = c.id
            c.conj = S.id
    return {((S.id, 1),): 1}


# ---------------------------------------------------------------- numerics

class Env:
    """Assignment of mpmath values to symbols; values are drawn on demand from
    a seeded generator."""

    def __init__(self, rng, small=False):
        self.rng = rng
        self.v = {}
        self.named = {}      # name -> value override
        self.cache = {}
        self.group = False
        self.p1 = .75        # probability that a presence atom is 1

    def val(self, sid):
        x = self.v.get(sid)
        if x is not None:
            return x
        S = _syms[sid]
        k = S.kind
        if sid in CHOICE:
            n, new, old = CHOICE[sid]
            x = self.ev(new if self.atom(n) else old)
        elif k == 'prime':
            x = mpmath.mpf(S.info)
        elif k == 'sqrt':
            x = mpmath.sqrt(self.ev(S.arg))
        elif k == 'abs':
            x = mpmath.fabs(self.ev(S.arg))
        elif k == 'inv':
            x = 1 / self.ev(S.arg)
        elif k == 'ind':
            x = mpmath.mpf(1 if any(self.atom(n) for n in S.info) else 0)
        elif k == 'fun':
            args = [self.ev(a) if isinstance(a, dict) else a for a in S.arg]
            if S.info.get('fn'):
                x = S.info['fn'](*args)
            else:
                import random, zlib
                h = zlib.crc32(repr((S.info['name'].replace('conj ', ''),
                                    [mpmath.nstr(a, 20) if not isinstance(a, (str, int, tuple)) else a for a in args])).encode())
                r = random.Random(h)
                x = mpmath.mpf(r.randint(100, 900)) / 500
                if S.info.get('complex'):
                    y = mpmath.mpf(r.randint(100, 900)) / 500
                    x = mpmath.mpc(x, -y if S.info['name'].startswith('conj ') else y)
        elif S.name in self.named:
            x = mpmath.mpmathify(self.named[S.name])
        elif k == 'complex':
            if S.name.startswith('conj('):
                x = mpmath.conj(self.val(S.conj))
            elif S.name == 'pi':
                x = mpmath.pi
            else:
                x = mpmath.mpc(self.rng.randint(-40, 40) or 7,
                               self.rng.randint(-40, 40) or 9) / 16
        elif k == 'real':
            x = mpmath.mpf(self.rng.randint(-40, 40) or 5) / 16
        elif k == 'pos':
            if S.name == 'pi':
                x = +mpmath.pi
            else:
                x = mpmath.mpf(self.rng.randint(8, 60)) / 16
        else:
            raise KeyError(S.name)
        self.v[sid] = x
        return x

    def atom(self, n):
        if n in DERIVED:
            return all((k == 'pos') == any(self.atom(y) for y in x) for k, x in DERIVED[n])
        x = self.named.get('?' + n)
        if x is None:
            if self.group:
                # names of one operator together
                g = '?' + n.split('_')[0] + '_'
                if g not in self.named:
                    self.named[g] = self.rng.random() < .5
                if not self.named[g]:
                    self.named['?' + n] = False
                    return False
            x = self.named['?' + n] = self.rng.random() < self.p1
        return x

    def ev(self, a):
        tot = mpmath.mpf(0)
        for m, c in a.items():
            if isinstance(c, GQ):
                t = mpmath.mpc(mpmath.mpf(Fraction(c.re).numerator) / Fraction(c.re).denominator,
                               mpmath.mpf(Fraction(c.im).numerator) / Fraction(c.im).denominator)
            else:
                c = Fraction(c)
                t = mpmath.mpf(c.numerator) / c.denominator
            for s, e in m:
                x = self.val(s)
                if isinstance(e, Fraction):
                    t *= mpmath.power(x, mpmath.mpf(e.numerator) / e.denominator)
                else:
                    t *= x ** e
            tot += t
        return tot


def p_symbols(a, deep=True, acc=None):
    acc = set() if acc is None else acc
    for m in a:
        for s, e in m:
            if s in acc:
                continue
            acc.add(s)
            S = _syms[s]
            if deep and S.arg is not None:
                for q in (S.arg if isinstance(S.arg, list) else [S.arg]):
                    if isinstance(q, dict):
                        p_symbols(q, deep, acc)
    return acc


def p_str(a, limit=6):
    if not a:
        return '0'
    out = []
    for n, (m, c) in enumerate(sorted(a.items(), key=lambda t: t[0])):
        if n >= limit:
            out.append('... (%d terms)' % len(a))
            break
        ms = '*'.join(_syms[s].name + ('' if e == 1 else '^%s' % e) for s, e in m)
        out.append('%s%s%s' % (c, '*' if ms else '', ms) if (c != 1 or not ms) else ms)
    return ' + '.join(out)
