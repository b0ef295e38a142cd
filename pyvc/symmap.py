"""Unbounded symbolic dictionaries, sets and sequences.

A symbolic map is a function from keys to (present?, value); comprehensions and
loops over it are summarised pointwise, so a statement proved for an arbitrary
(Skolem) key holds for maps of every size and content."""
import z3
from .values import (SStr, SBool, Num, Unsupported, PathAbort, CTX, PyStr,
                     mk_bool, zbool, s_and, s_or, s_not, str_const)


def key_eq(a, b):
    """Equality of keys (strings, symbolic strings, tuples of them)."""
    if a is b:
        return True
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return s_and(*[key_eq(x, y) for x, y in zip(a, b)]) if a else True
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return mk_bool(key_term(a) == key_term(b))
    return a == b


def key_term(k):
    if isinstance(k, SStr):
        return k.e
    if isinstance(k, str):
        return str_const(k)
    raise Unsupported('key %r' % (k,))


def key_terms(k):
    if isinstance(k, tuple):
        return [t for x in k for t in key_terms(x)]
    return [key_term(k)]


def fresh_key(name, arity=0):
    n = CTX.engine.fresh_id()
    if arity:
        return tuple(SStr.fresh('%s%d.%d' % (name, n, i)) for i in range(arity))
    return SStr.fresh('%s%d' % (name, n))


class SMap(dict):
    """dict subclass only so that isinstance(x, dict) holds; the host dict is
    never used."""
    def __init__(self, fn, name='m', arity=0):
        self.fn = fn            # key -> (present, thunk)
        self.sname = name
        self.arity = arity
        self.mut = 0

    @staticmethod
    def base(name, value, arity=0):
        """Arbitrary map; value(key) builds the symbolic value at a key."""
        pf = z3.Function('in_' + name, *([PyStr] * max(1, arity) + [z3.BoolSort()]))

        def fn(k):
            if arity and not (isinstance(k, tuple) and len(k) == arity):
                return False, None
            if not arity and isinstance(k, tuple):
                return False, None
            return mk_bool(pf(*key_terms(k))), (lambda: value(k))
        return SMap(fn, name, arity)

    @staticmethod
    def empty(arity=0):
        return SMap(lambda k: (False, None), 'empty', arity)

    def fresh(self, nm='k'):
        return fresh_key(nm, self.arity)

    # -- queries
    def at(self, k):
        return self.fn(k)

    def contains(self, k):
        return self.fn(k)[0]

    def __contains__(self, k):
        return bool(self.contains(k))

    def __getitem__(self, k):
        p, v = self.fn(k)
        if bool(p):
            return v()
        raise KeyError(k)

    def get(self, k, d=None):
        p, v = self.fn(k)
        if bool(p):
            return v()
        return d

    def items(self):
        return SIter(self.frozen(), 'items')

    def keys(self):
        return SIter(self.frozen(), 'keys')

    def values(self):
        return SIter(self.frozen(), 'values')

    def __iter__(self):
        raise Unsupported('host iteration over a symbolic map')

    def __len__(self):
        raise Unsupported('len of a symbolic map')

    def __bool__(self):
        return exists(lambda k: self.contains(k), self.arity, ('ne', id(self), self.mut))

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, SMap):
            raise Unsupported('equality of symbolic maps')
        if isinstance(o, dict) and not o:
            return not bool(self)
        raise Unsupported('equality of symbolic maps')

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def frozen(self):
        return SMap(self.fn, self.sname, self.arity)

    def copy(self):
        return self.frozen()

    def __copy__(self):
        return self.frozen()

    # -- mutation
    def _set(self, fn):
        self.fn = fn
        self.mut += 1

    def __setitem__(self, k, v):
        old = self.fn

        def fn(q):
            e = key_eq(q, k)
            if e is True or (e is not False and bool(e)):
                return True, (lambda: v)
            return old(q)
        self._set(fn)

    def __delitem__(self, k):
        if not bool(self.contains(k)):
            raise KeyError(k)
        old = self.fn

        def fn(q):
            e = key_eq(q, k)
            if e is True or (e is not False and bool(e)):
                return False, None
            return old(q)
        self._set(fn)

    def pop(self, k, *d):
        if bool(self.contains(k)):
            v = self[k]
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def setdefault(self, k, d=None):
        if bool(self.contains(k)):
            return self[k]
        self[k] = d
        return d

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, SMap):
                old, new = self.fn, o.fn

                def fn(q, old=old, new=new):
                    p, v = new(q)
                    if p is True or (p is not False and bool(p)):
                        return True, v
                    return old(q)
                self._set(fn)
            elif isinstance(o, dict):
                for k, v in o.items():
                    self[k] = v
            else:
                raise Unsupported('update of a symbolic map from %r' % (o,))
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._set(lambda k: (False, None))

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = to_smap(o, self.arity)
        r.update(self)
        return r

    def __repr__(self):
        return 'SMap(%s)' % self.sname


def to_smap(d, arity=0):
    if isinstance(d, SMap):
        return d.copy()
    m = SMap.empty(arity)
    for k, v in dict.items(d):
        m[k] = v
    return m


class SIter:
    """items()/keys()/values() of a symbolic map, or a derived sequence."""
    def __init__(self, m, what):
        self.m = m
        self.what = what

    def bind(self, k):
        """value of the loop target at key k"""
        if self.what == 'keys':
            return k
        v = self.m.at(k)[1]()
        return v if self.what == 'values' else (k, v)

    def contains(self, q):
        if self.what == 'keys':
            return self.m.contains(q)
        raise Unsupported('membership in dict values/items')

    def __contains__(self, q):
        return bool(self.contains(q))

    def __iter__(self):
        raise Unsupported('host iteration over a symbolic map')

    def __len__(self):
        raise Unsupported('len of a symbolic map')

    def __sub__(self, o):
        return to_sset(self) - o

    def __and__(self, o):
        return to_sset(self) & o

    def __or__(self, o):
        return to_sset(self) | o

    def __bool__(self):
        return bool(self.m)


class SSeq:
    """Sequence produced by nested generators over symbolic maps.

    gens: list of functions; a 'position' is a tuple of keys, one per
    generator. live(pos) -> SBool whether that position exists; elt(pos) ->
    element."""
    def __init__(self, arities, live, elt, elt_is_last_key=False, source=None):
        self.arities = arities
        self.live = live
        self.elt = elt
        self.elt_is_last_key = elt_is_last_key
        self.source = source

    def contains(self, q):
        if self.elt_is_last_key:
            n = len(self.arities) - 1
            if n == 0:
                return self.live((q,))
            if n == 1:
                return _wrap(exists(lambda s: self.live((s, q)), self.arities[0],
                                    ('mem', id(self), repr(q)), keep=self))
        if len(self.arities) == 1:
            def pred(w):
                l = self.live((w,))
                if l is False or (l is not True and not bool(l)):
                    return False
                return key_eq(self.elt((w,)), q)
            return exists(pred, self.arities[0], ('mem', id(self), repr(q)), keep=self)
        raise Unsupported('membership in a symbolic sequence')

    def __contains__(self, q):
        return bool(self.contains(q))

    def __iter__(self):
        raise Unsupported('host iteration over a symbolic sequence')

    def __len__(self):
        raise Unsupported('len of a symbolic sequence')

    def __bool__(self):
        return exists_pos(self)

    def count(self, q):
        raise Unsupported('count')

    def append(self, x):
        raise Unsupported('append to a symbolic sequence')


class SCard:
    """len() of a symbolic sequence / set; only comparisons between the length
    of a sequence and of the set of its elements are understood."""
    def __init__(self, seq, distinct):
        self.seq = seq
        self.distinct = distinct

    def _dup(self, o):
        if isinstance(o, SCard) and o.seq is self.seq and o.distinct != self.distinct:
            return has_duplicates(self.seq)
        if isinstance(o, SCard) and o.seq is self.seq and o.distinct == self.distinct:
            return False
        if isinstance(o, (int,)) and o == 0:
            return exists_pos(self.seq)
        raise Unsupported('cardinality comparison')

    def __eq__(self, o):
        return not self._dup(o)

    def __ne__(self, o):
        return self._dup(o)

    def __gt__(self, o):
        d = self._dup(o)
        if isinstance(o, int):
            return d
        return d if not self.distinct else False

    def __lt__(self, o):
        if isinstance(o, int):
            return False
        d = self._dup(o)
        return d if self.distinct else False

    __hash__ = None


def has_duplicates(seq):
    """Two different positions carry the same element."""
    if len(seq.arities) == 2 and seq.elt_is_last_key:
        # positions (s1,k), (s2,k) with s1 != s2
        eng = CTX.engine
        tag = ('dup', id(seq))

        def pred(w):
            s1, s2, k = w
            return s_and(s_not(key_eq(s1, s2)), seq.live((s1, k)), seq.live((s2, k)))
        return exists(pred, 3, tag, keep=seq)
    raise Unsupported('duplicates of a symbolic sequence')


class SCounter(SMap):
    """collections.Counter of a symbolic sequence."""
    def __init__(self, seq):
        super().__init__(lambda k: (seq.contains(k), lambda: SCount(seq, k)), 'counter')
        self.seq = seq

    def frozen(self):
        return SCounter(self.seq)


class SCount:
    """Number of occurrences (at least one) of k in a sequence."""
    def __init__(self, seq, k):
        self.seq, self.k = seq, k

    def _more(self):
        seq, k = self.seq, self.k
        if len(seq.arities) == 1 and seq.elt_is_last_key:
            return False
        if len(seq.arities) == 2 and seq.elt_is_last_key:
            def pred(w):
                return s_and(s_not(key_eq(w[0], w[1])), seq.live((w[0], k)), seq.live((w[1], k)))
            return exists(pred, 2, ('count', id(seq), repr(k)), keep=seq)
        raise Unsupported('number of occurrences')

    def __gt__(self, n):
        if n == 1:
            return self._more()
        if n == 0:
            return True
        raise Unsupported('number of occurrences')

    def __ge__(self, n):
        return self.__gt__(n - 1)

    def __le__(self, n):
        return not self.__gt__(n)

    def __lt__(self, n):
        return not self.__gt__(n - 1)

    def __eq__(self, n):
        if n == 1:
            return not self._more()
        raise Unsupported('number of occurrences')

    def __ne__(self, n):
        return not self == n
    __hash__ = None


class SSet:
    def __init__(self, pred, arity=0, seq=None):
        self.pred = pred
        self.arity = arity
        self.seq = seq

    def contains(self, q):
        return self.pred(q)

    def __contains__(self, q):
        return bool(self.contains(q))

    def __iter__(self):
        raise Unsupported('host iteration over a symbolic set')

    def __len__(self):
        raise Unsupported('len of a symbolic set')

    def __bool__(self):
        return exists(self.pred, self.arity, ('sset', id(self)), keep=self)

    def __sub__(self, o):
        o = to_sset(o)
        return SSet(lambda q: s_and(self.pred(q), s_not(o.pred(q))), self.arity)
    difference = __sub__

    def __rsub__(self, o):
        return to_sset(o) - self

    def __and__(self, o):
        o = to_sset(o)
        return SSet(lambda q: s_and(self.pred(q), o.pred(q)), self.arity)
    intersection = __and__
    __rand__ = __and__

    def __or__(self, o):
        o = to_sset(o)
        return SSet(lambda q: s_or(self.pred(q), o.pred(q)), self.arity)
    union = __or__

    def issubset(self, o):
        return not bool(self - o)
    __le__ = issubset

    def issuperset(self, o):
        return not bool(to_sset(o) - self)
    __ge__ = issuperset

    def isdisjoint(self, o):
        return not bool(self & o)

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)) and not o:
            return not bool(self)
        return not bool(self - o) and not bool(to_sset(o) - self)

    def __ne__(self, o):
        return not (self == o)
    __hash__ = None

    def __repr__(self):
        return 'SSet'
    __str__ = __repr__


def to_sset(x):
    if isinstance(x, SSet):
        return x
    if isinstance(x, SIter):
        return SSet(x.contains, x.m.arity)
    if isinstance(x, SMap):
        return SSet(x.contains, x.arity)
    if isinstance(x, SSeq):
        return SSet(x.contains, seq=x)
    if isinstance(x, (set, frozenset, list, tuple, dict)) or hasattr(x, '__iter__'):
        els = list(x)
        return SSet(lambda q: s_or(*[key_eq(q, e) for e in els]) if els else False)
    raise Unsupported('set of %r' % (x,))


def _wrap(b):
    return b


# ---------------------------------------------------------------- existence

def exists(pred, arity, tag, keep=None):
    """Decide (by forking) whether some key satisfies pred.  On the True branch a
    Skolem witness is introduced, on the False branch the universal fact is
    recorded and instantiated at every key of interest."""
    eng = CTX.engine
    if keep is not None:
        eng.keep.append(keep)
    memo = eng.exists_memo
    if tag in memo:
        return memo[tag]
    # cheap attempt: known keys
    b = z3.Bool('exists!%d' % eng.fresh_id())
    r = eng.decide(SBool(b))
    memo[tag] = r
    if r:
        w = fresh_key('w', arity)
        eng.add_key(w)
        eng.assume(pred(w))
    else:
        eng.add_universal(pred, arity)
    return r


def exists_pos(seq):
    n = len(seq.arities)

    def pred(w):
        return seq.live(tuple(w) if n > 1 else (w,))
    return exists(pred, n if n > 1 else seq.arities[0], ('pos', id(seq)), keep=seq)


class OptMap(SMap):
    """Dictionary with an arbitrary subset of the given names, value(name) the
    number stored there.  A lookup with a numerical default needs no case
    distinction: it is p*value + (1 - p)*default with p in {0, 1} the presence
    of the name; a membership test is one."""
    def __init__(self, name, value, state=None, factory=None):
        self.value = value
        self.state = state if state is not None else {'case': {}, 'merged': set()}
        self.factory = factory
        self.extra = {}
        SMap.__init__(self, self._at, name, 0)

    def _case(self, k):
        if k in self.state['merged']:
            raise Unsupported('membership test after a lookup with default')
        self.state['case'][k] = True
        return mk_bool(z3.Bool('in_%s_%s' % (self.sname, k)))

    def _at(self, k):
        if not isinstance(k, str):
            raise Unsupported('lookup of an unknown name')
        if k in self.extra:
            return True, (lambda: self.extra[k])
        return self._case(k), (lambda: self.value(k))

    def total(self, k, d=0):
        """Value at k, d where absent."""
        from .values import Num, num
        if not isinstance(k, str):
            raise Unsupported('lookup of an unknown name')
        if k in self.extra:
            return self.extra[k]
        if k in self.state['case']:
            return self.value(k) if bool(self._case(k)) else d
        self.state['merged'].add(k)
        x, d = num(self.value(k)), num(d)
        p = Num.sym('present(%s,%s)' % (self.sname, k), 'real', ty='float')
        r = p * x + (1 - p) * d if d.p else p * x
        return Num(r.p, x.ty, x.np)

    def get(self, k, d=None):
        from .values import Num, is_hostnum
        if isinstance(d, Num) or is_hostnum(d):
            return self.total(k, d)
        return SMap.get(self, k, d)

    def __getitem__(self, k):
        if self.factory is not None:
            return self.total(k, self.factory())
        return SMap.__getitem__(self, k)

    def _set(self, fn):
        raise Unsupported('modification of the dictionary')

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported('modification at an unknown name')
        self.extra[k] = v
        self.mut += 1

    def frozen(self):
        r = OptMap(self.sname, self.value, self.state, self.factory)
        r.extra.update(self.extra)
        return r

    def with_factory(self, f):
        r = self.frozen()
        r.factory = f
        return r
