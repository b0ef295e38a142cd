"""Dictionaries with an arbitrary subset of known names, without case
distinction over the subsets.

Every name k that may or may not be there has a presence atom a_k in {0, 1}.
Code that depends on the presence of a name (a loop over the items, a test
'k in d', an update from such a dictionary) is executed under a guard: a
conjunction of conditions of the form 'one of these atoms is 1' or 'none of
these atoms is 1'.  What the guarded code assigns is merged with what was there
before: c*new + (1 - c)*old with c the indicator of the guard, so that after
the guarded code every variable, array element and dictionary entry holds its
value for all subsets at once.  A dictionary entry carries the condition (one
of a set of atoms is 1) under which it is present; its value is meaningful only
then.  Whatever cannot be merged (returns, breaks, strings, ...) is refused as
Unsupported.  An exception that escapes under a satisfiable guard is an
exception for some subset, and propagates."""
from . import poly as P
from .values import Num, NaNNum, SBool, Unsupported, num, is_hostnum

ON = False          # dictionaries created by the code are guard-aware
STACK = ()          # current guard: tuple of conditions ('pos'|'neg', frozenset of atoms)
NOTED = []          # containers created under the guard: list of (stack, {id: object})
TRY = 0             # enclosing try statements with handlers
EFF = {}            # atom -> (new, old, number standing for 'new if atom else old')


def reset():
    global STACK, TRY
    STACK = ()
    TRY = 0
    NOTED.clear()


def atom(name):
    return frozenset([name])


# ------------------------------------------------------------------- conditions

DEF = P.DERIVED     # derived atom -> the conjunction of conditions it stands for
_KNOWN = {}
_NAMES = {}
_DEPTH = {}


def as_set(conds):
    """Atoms one of which is 1 exactly where the conditions hold."""
    neg = frozenset().union(*[x for k, x in conds if k == 'neg'])
    pos = _minimal([x - neg for k, x in conds if k == 'pos'])
    if len(pos) == 1 and not neg:
        return pos[0]
    c = tuple([('pos', x) for x in sorted(pos, key=sorted)] + ([('neg', neg)] if neg else []))
    n = _NAMES.get(c)
    if n is None:
        n = 'and%d(%s)' % (len(_NAMES), ','.join(sorted(min(x) for _, x in c))[:60])
        _NAMES[c] = n
        DEF[n] = c
        _DEPTH[n] = 1 + max([_DEPTH.get(y, 0) for _, x in c for y in x] + [0])
        if _DEPTH[n] > 4:
            raise Unsupported('nested presence conditions')
    elif _DEPTH[n] > 4:
        raise Unsupported('nested presence conditions')
    return frozenset([n])


def _simple(conds):
    neg = frozenset().union(*[x for k, x in conds if k == 'neg'])
    pos = _minimal([x - neg for k, x in conds if k == 'pos'])
    return tuple([('pos', x) for x in pos] + ([('neg', neg)] if neg else []))


def negs(conds):
    """the negation of a conjunction, as a conjunction"""
    conds = _simple(conds)
    if len(conds) == 1:
        return (negate(conds[0]),)
    return (('neg', as_set(conds)),)


def _known(stack):
    """(false atoms, clauses) that follow from the guard"""
    r = _KNOWN.get(stack)
    if r is not None:
        return r
    neg, pos = set(), []

    def add(c):
        k, x = c
        if k == 'pos':
            if len(x) == 1:
                d = DEF.get(next(iter(x)))
                if d is not None:
                    for y in d:
                        add(y)
            pos.append(x)
        else:
            for y in x:
                neg.add(y)
                d = DEF.get(y)
                if d is not None and len(d) == 1:
                    add(negate(d[0]))
    for c in stack:
        add(c)
    for _ in range(4):
        n = len(neg), len(pos)
        cl = [x - neg for x in pos]
        for y in [y for y in neg if len(DEF.get(y, ())) > 1]:
            left = [c for c in DEF[y] if _settle(c, neg, cl) is not True]
            if len(left) == 1 and _settle(left[0], neg, cl) is None:
                add(negate(left[0]))
        for x in cl:
            if len(x) == 1:
                for c in DEF.get(next(iter(x)), ()):
                    if _settle(c, neg, cl) is None:
                        add(c)
        if (len(neg), len(pos)) == n:
            break
    r = frozenset(neg), [x - neg for x in pos]
    if len(_KNOWN) > 50000:
        _KNOWN.clear()
    _KNOWN[stack] = r
    return r


def _settle(c, neg, pos):
    kind, s = c
    r = None
    if any(p <= s for p in pos):
        r = True
    else:
        low = True
        for x in s:
            if x in neg:
                continue
            d = DEF.get(x)
            if d is None:
                low = False
                continue
            t = [_settle(y, neg, pos) for y in d]
            if all(y is True for y in t):
                r = True
                break
            if not any(y is False for y in t):
                low = False
        if r is None and low:
            r = False
    if kind == 'neg' and r is not None:
        r = not r
    return r


def implied(c, stack=None):
    """Does the guard settle the condition?  True, False or None."""
    st = STACK if stack is None else stack
    neg, pos = _known(st)
    r = _settle(c, neg, pos)
    if r is None and DEF and any(x in DEF for k, y in st + (c,) for x in y):
        if _contradictory(st + (negate(c),)):
            return True
        if _contradictory(st + (c,)):
            return False
    return r


_SAT = {}


def _contradictory(stack):
    if any(not p for p in _known(stack)[1]):
        return True
    r = _SAT.get(stack)
    if r is None:
        import z3
        s = z3.Solver()
        memo = {}

        def atom(n):
            if n not in memo:
                memo[n] = z3.And(*[cond(c) for c in DEF[n]]) if n in DEF else z3.Bool(n)
            return memo[n]

        def cond(c):
            b = z3.Or(*[atom(x) for x in c[1]])
            return b if c[0] == 'pos' else z3.Not(b)
        s.add(*[cond(c) for c in stack])
        r = s.check()
        if r == z3.unknown:
            raise Unsupported('presence conditions')
        r = r == z3.unsat
        if len(_SAT) > 50000:
            _SAT.clear()
        _SAT[stack] = r
    return r


def negate(c):
    return ('neg' if c[0] == 'pos' else 'pos', c[1])


def active(stamp):
    """Conditions of the current guard beyond those the object was made under."""
    if not STACK:
        return ()
    n = len(stamp)
    if STACK[:n] == stamp:
        return STACK[n:]
    return STACK


class guarded:
    """with guarded(conditions): ... ; .skip when the guard cannot hold, .plain
    when nothing is added to the current guard."""
    def __init__(self, conds):
        self.new = []
        self.skip = False
        st = STACK
        for c in conds:
            r = implied(c, st)
            if r is False:
                self.skip = True
            elif r is None:
                self.new.append(c)
                st = st + (c,)
        self.plain = not self.new

    def __enter__(self):
        global STACK
        self.saved = STACK
        STACK = STACK + tuple(self.new)
        if self.new:
            NOTED.append({})
        return self

    def __exit__(self, *a):
        global STACK
        STACK = self.saved
        if self.new:
            NOTED.pop()
        return False


def ind_sym(atoms):
    if len(atoms) == 1:
        n = next(iter(atoms))
    else:
        n = 'any(%s)' % ','.join(sorted(atoms)) if len(atoms) < 4 else 'any%d' % hash(frozenset(atoms))
    s = P.get_sym(n, 'ind', info=frozenset(atoms))
    if s.info != frozenset(atoms):
        raise Unsupported('name clash of indicators')
    return Num({((s.id, 1),): 1}, 'int')


def _ind(s):
    d = [x for x in s if x in DEF]
    if not d or len(d) > 6:
        return ind_sym(s)
    if len(s) == 1:
        return indicator(DEF[d[0]])
    rest = s - frozenset(d)
    r = 1 - ind_sym(rest) if rest else Num.const(1)
    for x in sorted(d):
        r = r * (1 - indicator(DEF[x]))
    return 1 - r


def indicator(conds):
    r = Num.const(1)
    for k, s in conds:
        i = _ind(s)
        r = r * (i if k == 'pos' else 1 - i)
    return r


# ---------------------------------------------------------------------- merging

def _isnum(x):
    return isinstance(x, Num) or is_hostnum(x)


def merge(conds, new, old):
    """new if conds else old"""
    from .nd import NDArray, PartView
    if new is old or not conds:
        return new
    if isinstance(new, PartView):
        new = new.arr()
    if isinstance(old, PartView):
        old = old.arr()
    if _isnum(new) and _isnum(old):
        return blend(conds, new, old)
    if isinstance(new, NDArray) and isinstance(old, NDArray):
        if new.shape != old.shape:
            raise Unsupported('merge of arrays of different shape')
        new.freeze()
        old.freeze()
        import numpy as np
        from .nd import _join
        out = np.empty(new.shape, dtype=object)
        for i in np.ndindex(*new.shape):
            out[i] = blend(conds, new.data[i], old.data[i])
        r = NDArray(out, _join(new.dt, old.dt))
        r.stamp = ()
        return r
    if isinstance(new, GDict) and isinstance(old, GDict):
        return _merge_dicts(conds, new, old)
    if type(new) is tuple and type(old) is tuple and len(new) == len(old):
        return tuple(merge(conds, a, b) for a, b in zip(new, old))
    if isinstance(new, (str, bool)) and type(new) is type(old) and new == old:
        return new
    if new is None or old is None:
        if isinstance(new, (Num, NDArray, str)) or is_hostnum(new) or isinstance(old, (Num, NDArray, str)) or is_hostnum(old):
            if isinstance(new, NDArray):
                new.freeze()
            if isinstance(old, NDArray):
                old.freeze()
            return GOpt(conds, new, old)
    raise Unsupported('merge of %s and %s' % (type(new).__name__, type(old).__name__))


def _merge_dicts(conds, new, old):
    """Neither the result nor the two dictionaries can be modified afterwards
    (which of them the result is depends on the condition)."""
    r = GDict()
    no = negs(conds)
    for k in list(dict.keys(old)) + [k for k in dict.keys(new) if not dict.__contains__(old, k)]:
        cn, co = (None if not dict.__contains__(d, k) else () if d.g.get(k) is None else (('pos', d.g[k]),) for d in (new, old))
        if cn is None:
            v, g = dict.__getitem__(old, k), as_set(no + co)
        elif co is None:
            v, g = dict.__getitem__(new, k), as_set(tuple(conds) + cn)
        else:
            v = merge(conds, dict.__getitem__(new, k), dict.__getitem__(old, k))
            if cn == co:
                g = cn[0][1] if cn else None
            else:
                g = as_set(tuple(conds) + cn) | as_set(no + co)
        dict.__setitem__(r, k, v)
        if g is not None:
            r.g[k] = g
    r.frz = new.frz = old.frz = True
    return r


class GOpt:
    """new where the conditions hold, old elsewhere, where one of them is None."""
    def __init__(self, conds, new, old):
        self.conds = tuple(conds)
        self.new = new
        self.old = old

    def resolve(self):
        n = [implied(c) for c in self.conds]
        if all(x is True for x in n):
            return self.new
        if any(x is False for x in n):
            return self.old
        return self

    def is_none(self):
        a, b = self.new is None, self.old is None
        if a and b:
            return True
        return mk(*self.conds) if a else mk(*negs(self.conds))

    def _no(self, *a, **k):
        raise Unsupported('value that may be None')
    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = _no
    __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = __matmul__ = _no
    __getitem__ = __iter__ = __len__ = __contains__ = __str__ = __format__ = __complex__ = __float__ = __getattr__ = _no
    __hash__ = None


def blend(conds, new, old):
    if isinstance(new, NaNNum) or isinstance(old, NaNNum):
        raise Unsupported('merge with NaN')
    a, b = num(new), num(old)
    if a.p == b.p:
        return new
    if EFF:
        conds = _simple(conds)
        if len(conds) == 1 and len(conds[0][1]) == 1:
            e = EFF.get(next(iter(conds[0][1])))
            if e is not None:
                x, y = (a, b) if conds[0][0] == 'pos' else (b, a)
                if x.p == e[0].p and y.p == e[1].p:
                    return e[2]
        for n, e in EFF.items():
            # a choice already made, under a condition that covers it
            if len(conds) == 1 and n in conds[0][1]:
                x, y = (a, b) if conds[0][0] == 'pos' else (b, a)
                if x.p == e[2].p and y.p == e[1].p:
                    return e[2]
        if not (len(conds) == 1 and len(conds[0][1]) == 1) and any((a.p == e[0].p and b.p == e[1].p) or (b.p == e[0].p and a.p == e[1].p) for e in EFF.values()):
            raise Unsupported('choice between a given and a default value')
    c = indicator(conds)
    if not b.p:
        r = c * a
    elif not a.p:
        r = b - c * b
    else:
        r = c * a + b - c * b
    ty, npf = a._ty(b)
    return Num(r.p, ty, npf)


def choice(name, new, old, eff):
    """eff stands for 'new if the atom else old'"""
    EFF[name] = (num(new), num(old), eff)
    (m, c), = eff.p.items()
    (s, e), = m
    P.CHOICE[s] = (name, num(new).p, num(old).p)


# ------------------------------------------------------------------------ bools

class GBool:
    """Conjunction of conditions on the presence atoms."""
    def __init__(self, conds):
        self.conds = tuple(conds)

    def neg(self):
        return mk(*negs(self.conds))

    def __bool__(self):
        raise Unsupported('presence of a name used outside of a condition')

    __hash__ = None

    def __eq__(self, o):
        if o is True:
            return self
        if o is False:
            return self.neg()
        raise Unsupported('comparison of presence conditions')


def mk(*conds):
    out = []
    for c in conds:
        r = implied(c)
        if r is False:
            return False
        if r is None and c not in out:
            out.append(c)
    return GBool(out) if out else True


def conj(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return mk(*(a.conds + b.conds))


def disj(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return mk(('pos', as_set(a.conds) | as_set(b.conds)))


def cond_of(x):
    """Truth value of x where it depends on presence, else x."""
    if isinstance(x, GDict) and x.g:
        s = frozenset()
        for k in dict.keys(x):
            g = x.g.get(k)
            if g is None:
                return True
            s = s | g
        return mk(('pos', s))
    if isinstance(x, (GView, GSet, GSeq)):
        e = [c for c, _ in x.entries()]
        if any(not c for c in e):
            return True
        if not e:
            return False
        return mk(('pos', frozenset().union(*[as_set(c) for c in e])))
    return x


# ------------------------------------------------------------------ collections

class _Cond:
    def _host(self, *a, **k):
        raise Unsupported('host operation on a conditional collection')
    __iter__ = __len__ = __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __contains__ = _host
    __hash__ = None

    def contains(self, x):
        r = False
        for c, y in self.entries():
            if y == x:
                r = disj(r, mk(*c))
        return r


class GView(_Cond):
    """keys()/items()/values() of a dictionary with conditional entries."""
    def __init__(self, d, what):
        self.d = d
        self.what = what

    def entries(self):
        d = self.d
        for k in list(dict.keys(d)):
            g = d.g.get(k)
            c = () if g is None else (('pos', g),)
            if self.what == 'keys':
                yield c, k
            else:
                v = dict.__getitem__(d, k)
                yield c, (k, v) if self.what == 'items' else v

    def contains(self, x):
        if self.what == 'keys':
            return self.d.contains(x)
        return _Cond.contains(self, x)

    def _set(self):
        return GSet(self.entries())

    def __and__(self, o):
        return self._set() & o

    def __or__(self, o):
        return self._set() | o

    def __sub__(self, o):
        return self._set() - o

    def __rand__(self, o):
        return self._set() & o

    __ror__ = __or__

    def __rsub__(self, o):
        return _sub(o, self._set())


class GSeq(_Cond):
    def __init__(self, entries):
        self.e = list(entries)

    def entries(self):
        return iter(self.e)

    def __add__(self, o):
        return GSeq(self.e + [(c, x) for c, x in entries(o)])

    def __radd__(self, o):
        return GSeq([(c, x) for c, x in entries(o)] + self.e)


class GSet(_Cond):
    def __init__(self, ents=()):
        self.m = {}
        for c, x in ents:
            self._put(x, tuple(c))

    def _put(self, x, c):
        if x in self.m:
            a = self.m[x]
            if not a or not c:
                c = ()
            elif a == c:
                pass
            elif len(a) == len(c) == 1 and a[0] == negate(c[0]):
                c = ()
            else:
                c = (('pos', as_set(a) | as_set(c)),)
        self.m[x] = c

    def entries(self):
        return iter([(c, x) for x, c in self.m.items()])

    def contains(self, x):
        if x not in self.m:
            return False
        return mk(*self.m[x])

    def add(self, x):
        if STACK:
            raise Unsupported('modification of a conditional set under a guard')
        self.m[x] = ()

    def copy(self):
        return GSet(self.entries())

    def __and__(self, o):
        o = _gset(o)
        return GSet([(c + o.m[x] if o.m[x] not in ((), c) else c, x) for x, c in self.m.items() if x in o.m])

    __rand__ = __and__

    def __or__(self, o):
        return GSet(list(self.entries()) + list(_gset(o).entries()))

    __ror__ = __or__

    def __sub__(self, o):
        return _sub(self, o)

    def __rsub__(self, o):
        return _sub(o, self)

    def difference(self, o):
        return _sub(self, o)

    def intersection(self, o):
        return self & o

    def union(self, o):
        return self | o


def _gset(o):
    return o if isinstance(o, GSet) else GSet(entries(o))


def _sub(a, b):
    a, b = _gset(a), _gset(b)
    out = []
    for x, c in a.m.items():
        if x not in b.m:
            out.append((c, x))
            continue
        d = b.m[x]
        if not d:
            continue
        n = negs(d)
        if len(d) == 1 and n[0] in c:
            out.append((c, x))
        elif all(y in c for y in d):
            continue
        else:
            out.append((c + n, x))
    return GSet(out)


def entries(x):
    """(conditions, element) pairs of any collection"""
    if isinstance(x, GDict):
        x = GView(x, 'keys')
    if isinstance(x, (GView, GSet, GSeq)):
        return list(x.entries())
    return [((), y) for y in x]


def conditional(x):
    return isinstance(x, (GView, GSet, GSeq)) or (isinstance(x, GDict) and bool(x.g))


_MISSING = object()


class GDict(dict):
    """Dictionary whose entry k is present under 'one of g[k] is 1' (always,
    when k has no entry in g)."""

    def __init__(self, *a, **kw):
        dict.__init__(self)
        self.g = {}
        self.stamp = STACK
        self.factory = None
        self.frz = False
        self.mut = 0
        if a or kw:
            self.update(*a, **kw)
            self.mut = 0

    # -- reading
    def contains(self, k):
        if not dict.__contains__(self, k):
            return False
        g = self.g.get(k)
        return True if g is None else mk(('pos', g))

    def __contains__(self, k):
        r = self.contains(k)
        if isinstance(r, GBool):
            raise Unsupported('presence test in a host function')
        return r

    def __getitem__(self, k):
        r = self.contains(k)
        if r is True:
            return dict.__getitem__(self, k)
        if self.factory is not None:
            return self.setdefault(k, self.factory())
        if r is False:
            raise KeyError(k)
        if TRY:
            raise Unsupported('lookup of a name that may be absent, inside try')
        raise KeyError('%s (for some subset)' % (k,))

    def get(self, k, d=None):
        r = self.contains(k)
        if r is True:
            return dict.__getitem__(self, k)
        if r is False:
            return d
        return merge(r.conds, dict.__getitem__(self, k), d)

    def total(self, k, d=0):
        """Value at k, d where absent (for the contracts)."""
        if not dict.__contains__(self, k):
            return d
        v = dict.__getitem__(self, k)
        g = self.g.get(k)
        return v if g is None else merge((('pos', g),), v, d)

    def keys(self):
        return GView(self, 'keys') if self.g else dict.keys(self)

    def values(self):
        return GView(self, 'values') if self.g else dict.values(self)

    def items(self):
        return GView(self, 'items') if self.g else dict.items(self)

    def __iter__(self):
        if self.g:
            raise Unsupported('host iteration over a dictionary with conditional entries')
        return dict.__iter__(self)

    def __reversed__(self):
        if self.g:
            raise Unsupported('host iteration over a dictionary with conditional entries')
        return dict.__reversed__(self)

    def __len__(self):
        if self.g:
            raise Unsupported('length of a dictionary with conditional entries')
        return dict.__len__(self)

    def __bool__(self):
        r = cond_of(self)
        if r is self:
            return dict.__len__(self) > 0
        return bool(r)

    def __eq__(self, o):
        if self.g or getattr(o, 'g', None):
            raise Unsupported('comparison of dictionaries with conditional entries')
        return dict.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    # -- writing
    def _write(self):
        if self.frz:
            raise Unsupported('modification of a dictionary that is one of two')
        self.mut += 1

    def __setitem__(self, k, v):
        self._write()
        conds = active(self.stamp)
        here = dict.__contains__(self, k)
        if not conds:
            self.g.pop(k, None)
            dict.__setitem__(self, k, v)
            return
        if not here:
            self.g[k] = as_set(conds)
            dict.__setitem__(self, k, v)
            return
        old = dict.__getitem__(self, k)
        g = self.g.get(k)
        if g is None:
            dict.__setitem__(self, k, merge(conds, v, old))
            return
        neg = frozenset().union(*[s for c, s in conds if c == 'neg'])
        pos = _minimal([s - neg for c, s in conds if c == 'pos'])
        if not pos and neg == g:
            new = None
            val = merge((('pos', g),), old, v)
        elif len(pos) == 1 and neg <= g:
            new = g | pos[0]
            if neg == g:
                val = merge((('pos', g),), old, v)
            elif not neg and g <= pos[0]:
                val = v
            else:
                val = merge(conds, v, old)
        else:
            new = g | as_set(conds)
            val = merge(conds, v, old)
        if new is None:
            self.g.pop(k, None)
        else:
            self.g[k] = new
        dict.__setitem__(self, k, val)

    def setdefault(self, k, d=None):
        r = self.contains(k)
        if r is True:
            return dict.__getitem__(self, k)
        if r is False:
            self[k] = d
        else:
            with guarded(negs(r.conds)):
                self[k] = d
        return dict.__getitem__(self, k)

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if isinstance(o, GDict):
                o = GView(o, 'items')
            elif hasattr(o, 'keys') and not isinstance(o, GView):
                o = [(k, o[k]) for k in o.keys()]
            for c, (k, v) in entries(o):
                with guarded(c) as u:
                    if not u.skip:
                        self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _drop(self, k):
        """k is absent afterwards, where the guard holds"""
        conds = active(self.stamp)
        if not conds:
            dict.__delitem__(self, k)
            self.g.pop(k, None)
            return
        g = self.g.get(k)
        if g is not None and conds == (('pos', g),):
            dict.__delitem__(self, k)
            del self.g[k]
            return
        self.g[k] = as_set(((('pos', g),) if g is not None else ()) + negs(conds))

    def __delitem__(self, k):
        self._write()
        r = self.contains(k)
        if r is False:
            raise KeyError(k)
        if r is not True:
            if TRY:
                raise Unsupported('deletion of a name that may be absent')
            raise KeyError('%s (for some subset)' % (k,))
        self._drop(k)

    def pop(self, k, *d):
        self._write()
        v = self.get(k, *d) if d else self[k]
        if dict.__contains__(self, k):
            self._drop(k)
        return v

    def popitem(self):
        if self.g or active(self.stamp):
            raise Unsupported('popitem')
        self._write()
        return dict.popitem(self)

    def clear(self):
        if active(self.stamp):
            raise Unsupported('deletion under a guard')
        self._write()
        self.g = {}
        dict.clear(self)

    def copy(self):
        r = GDict()
        for k, v in dict.items(self):
            dict.__setitem__(r, k, v)
        r.g = dict(self.g)
        r.factory = self.factory
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = self.copy()
        for k, v in dict.items(r):
            dict.__setitem__(r, k, copy.deepcopy(v, memo))
        return r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = GDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def move_to_end(self, k, last=True):
        raise Unsupported('move_to_end')


def _minimal(sets):
    out = []
    for s in sorted(sets, key=len):
        if not any(t <= s for t in out):
            out.append(s)
    return out


def newdict():
    return GDict() if ON else {}


def note(x):
    """x was created under the current guard and may be modified under it."""
    if NOTED:
        NOTED[-1][id(x)] = x
    return x


def may_modify(x):
    return not STACK or (bool(NOTED) and id(x) in NOTED[-1])


def subset(items, tag):
    """Dictionary with an arbitrary subset of the (name, value) pairs."""
    d = GDict()
    for k, v in items:
        dict.__setitem__(d, k, v)
        d.g[k] = atom('%s%s' % (tag, k))
    return d


def snap(d):
    return [(k, v, d.g.get(k)) for k, v in dict.items(d)], d.mut


def unchanged(d, s):
    now = [(k, v, d.g.get(k)) for k, v in dict.items(d)]
    return len(now) == len(s[0]) and all(a[0] == b[0] and a[1] is b[1] and a[2] == b[2] for a, b in zip(now, s[0]))
