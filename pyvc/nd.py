"""Model of the numpy subset the code uses: arrays of exact symbolic numbers.

Index bookkeeping (shapes, views, broadcasting, slicing, masks) is delegated to
real numpy on object arrays; element arithmetic is exact (values.Num).  The
model is cross-checked against real numpy by conformance.py."""
import itertools
import numpy as np
from .values import (Num, NaNNum, NAN, Unsupported, num, is_hostnum, n_sqrt,
                     SBool, CTX)
from . import poly as P
from . import guard


def _dt(dtype):
    """normalise a dtype argument -> 'complex' | 'float' | 'int' | 'bool' | 'object'"""
    if dtype is None:
        return None
    if isinstance(dtype, str):
        d = dtype
    elif dtype in (complex, np.complex128, np.complex64):
        return 'complex'
    elif dtype in (float, np.float64, np.float32):
        return 'float'
    elif dtype in (int, np.int64, np.int32):
        return 'int'
    elif dtype in (bool, np.bool_):
        return 'bool'
    elif dtype is object:
        return 'object'
    else:
        raise Unsupported('dtype %r' % (dtype,))
    if d.startswith('complex'):
        return 'complex'
    if d.startswith('float'):
        return 'float'
    if d.startswith('int'):
        return 'int'
    if d in ('bool', 'object'):
        return d
    raise Unsupported('dtype %r' % (dtype,))


def _elt(x, dt):
    """value as stored in an array of dtype dt"""
    x = num(x)
    if isinstance(x, NaNNum):
        return x
    ty = dt if dt in ('complex', 'float', 'int') else x.ty
    if dt == 'float' and x.ty == 'complex':
        if P.p_isreal(x.p):
            pass  # ComplexWarning/TypeError natively; see store()
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    if dt == 'int' and x.ty != 'int':
        raise Unsupported('storing a float in an integer array')
    return Num(x.p, ty, True)


_MAX = {'bool': 0, 'int': 1, 'float': 2, 'complex': 3, 'object': 4}


def _join(*dts):
    return max(dts, key=lambda d: _MAX[d])


def dtype_of(x):
    if isinstance(x, NDArray):
        return x.dt
    if isinstance(x, PartView):
        return 'float'
    if isinstance(x, np.ndarray):
        k = x.dtype.kind
        return {'i': 'int', 'u': 'int', 'f': 'float', 'c': 'complex', 'b': 'bool'}.get(k, 'object')
    if isinstance(x, NaNNum):
        return 'float'
    return num(x).ty


class NDArray:
    __array_ufunc__ = None

    def __init__(self, data, dt, stamp=None):
        self.data = data
        self.dt = dt
        self.frz = None
        # the guard the array was made under (views: the guard of their base)
        self.stamp = guard.STACK if stamp is None else stamp

    # ------------------------------------------------ construction
    @staticmethod
    def full(shape, value, dt):
        a = np.empty(shape, dtype=object)
        a.fill(value)
        return NDArray(a, dt)

    @staticmethod
    def of(x, dt=None, copy=True):
        if isinstance(x, NDArray):
            if dt is None or dt == x.dt:
                return NDArray(x.data.copy(), x.dt) if copy else x
            return x.astype(dt)
        if isinstance(x, PartView):
            r = x.arr()
            return r if dt in (None, 'float') else r.astype(dt)
        if isinstance(x, np.ndarray):
            d = dt or dtype_of(x)
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = _elt(x[i].item(), d)
            return NDArray(out, d)
        if isinstance(x, (list, tuple)):
            parts = [NDArray.of(y) if isinstance(y, (list, tuple, NDArray, PartView, np.ndarray)) else y for y in x]
            if parts and all(isinstance(y, NDArray) for y in parts):
                d = dt or _join(*[y.dt for y in parts])
                if len({y.shape for y in parts}) != 1:
                    raise ValueError('inhomogeneous shape')
                data = np.empty((len(parts),) + parts[0].shape, dtype=object)
                for i, y in enumerate(parts):
                    data[i] = y.astype(d).data
                return NDArray(data, d)
            d = dt or (_join(*[dtype_of(y) for y in parts]) if parts else 'float')
            data = np.empty(len(parts), dtype=object)
            for i, y in enumerate(parts):
                data[i] = _elt(y, d)
            return NDArray(data, d)
        d = dt or dtype_of(x)
        data = np.empty((), dtype=object)
        data[()] = _elt(x, d)
        return NDArray(data, d)

    def astype(self, dt, **kw):
        dt = _dt(dt)
        out = np.empty(self.data.shape, dtype=object)
        for i in np.ndindex(*self.data.shape):
            v = self.data[i]
            if dt == 'float' and self.dt == 'complex':
                v = v.real
            out[i] = _elt(v, dt)
        return NDArray(out, dt)

    # ------------------------------------------------ attributes
    @property
    def shape(self):
        return self.data.shape

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def size(self):
        return self.data.size

    @property
    def dtype(self):
        return self.dt

    @property
    def T(self):
        return NDArray(self.data.T, self.dt, self.stamp)._view(self)

    @property
    def flat(self):
        return iter([self._out(x) for x in self.data.ravel()])

    def _map(self, f, dt=None):
        out = np.empty(self.data.shape, dtype=object)
        for i in np.ndindex(*self.data.shape):
            out[i] = f(self.data[i])
        return NDArray(out, dt or self.dt)

    @property
    def real(self):
        return self if self.dt != 'complex' else PartView(self, 'real')

    @real.setter
    def real(self, v):
        PartView(self, 'real')[...] = v

    @property
    def imag(self):
        return PartView(self, 'imag')

    @imag.setter
    def imag(self, v):
        PartView(self, 'imag')[...] = v

    def conj(self):
        return self._map(lambda x: x.conjugate())
    conjugate = conj

    def copy(self, *a, **k):
        return NDArray(self.data.copy(), self.dt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def _wrap(self, d):
        return NDArray(d, self.dt, self.stamp)._view(self)

    def _view(self, base):
        if base.frz is None and guard.ON:
            base.frz = [False]
        self.frz = base.frz
        return self

    def freeze(self):
        if self.frz is None:
            self.frz = [True]
        self.frz[0] = True

    def _writable(self):
        if self.frz is not None and self.frz[0]:
            raise Unsupported('modification of an array that was merged')

    def reshape(self, *s, **k):
        return self._wrap(self.data.reshape(*s, **k))

    def transpose(self, *ax):
        return self._wrap(self.data.transpose(*ax))

    def swapaxes(self, a, b):
        return self._wrap(self.data.swapaxes(a, b))

    def ravel(self):
        return self._wrap(self.data.ravel())

    def flatten(self):
        return self._wrap(self.data.flatten())

    def squeeze(self, *a, **k):
        return self._wrap(self.data.squeeze(*a, **k))

    def diagonal(self, *a):
        return self._wrap(self.data.diagonal(*a).copy())

    def tolist(self):
        return [x.tolist() if isinstance(x, NDArray) else x for x in self]

    def item(self, *a):
        v = self.data.item(*a)
        return Num(v.p, v.ty, False)

    def fill(self, v):
        self[...] = v

    def dot(self, o):
        return matmul(self, o)

    def sum(self, axis=None):
        if axis is None:
            t = Num({}, self.dt if self.dt in ('complex', 'float', 'int') else 'float', True)
            for x in self.data.ravel():
                t = t + x
            return t
        return self._wrap(np.add.reduce(self.data, axis=axis))

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self.data)):
            yield self[i]

    def _out(self, x):
        return x

    # ------------------------------------------------ indexing
    @staticmethod
    def _idx(i):
        if isinstance(i, tuple):
            return tuple(NDArray._idx(j) if isinstance(j, tuple) else NDArray._idx1(j) for j in i)
        return NDArray._idx1(i)

    @staticmethod
    def _idx1(j):
        if isinstance(j, NDArray):
            if j.dt == 'bool':
                return j.data.astype(bool)
            if j.dt == 'int':
                return np.array([int(x) for x in j.data.ravel()]).reshape(j.shape)
            raise Unsupported('fancy index')
        if isinstance(j, Num):
            if j.ty == 'int' and j.is_int_const():
                return j.const_val()
            if j.is_const() and j.ty != 'int':
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
            raise Unsupported('symbolic array index')
        if isinstance(j, list):
            return [NDArray._idx1(x) for x in j]
        if isinstance(j, (float, str)):
            raise IndexError('only integers, slices ... are valid indices')
        return j

    def __getitem__(self, i):
        r = self.data[self._idx(i)]
        if isinstance(r, np.ndarray):
            return NDArray(r, self.dt, self.stamp)._view(self)
        return self._out(r)

    def __setitem__(self, i, v):
        self._writable()
        if guard.STACK:
            conds = guard.active(self.stamp)
            if conds:
                old = self.data.copy()
                st, self.stamp = self.stamp, guard.STACK
                try:
                    self[i] = v
                finally:
                    self.stamp = st
                for j in np.ndindex(*self.data.shape):
                    if self.data[j] is not old[j]:
                        self.data[j] = guard.blend(conds, self.data[j], old[j])
                return
        i = self._idx(i)
        if isinstance(v, PartView):
            v = v.arr()
        if isinstance(v, (list, tuple, np.ndarray)):
            v = NDArray.of(v)
        if isinstance(v, NDArray):
            if v.dt == 'complex' and self.dt == 'float':
                raise Unsupported('complex array stored in float array')
            src = v._map(lambda x: _elt(x, self.dt)).data
            self.data[i] = src if src.ndim else src[()]
        else:
            e = _elt(v, self.dt)
            tgt = self.data[i]
            if isinstance(tgt, np.ndarray):
                f = np.empty(tgt.shape, dtype=object)
                f.fill(e)
                self.data[i] = f
            else:
                self.data[i] = e

    # ------------------------------------------------ arithmetic
    def _bin(self, o, f, swap=False, div=False):
        if isinstance(o, PartView):
            o = o.arr()
        if isinstance(o, (np.ndarray, list)):
            o = NDArray.of(o)
        if isinstance(o, NDArray):
            od = o.data
            dt = _join(self.dt, o.dt)
        elif isinstance(o, (Num, NaNNum)) or is_hostnum(o):
            od = num(o)
            dt = _join(self.dt, od.ty)
        else:
            return NotImplemented
        if div and dt in ('int', 'bool'):
            dt = 'float'
        a, b = (od, self.data) if swap else (self.data, od)
        a2 = a if isinstance(a, np.ndarray) else _box(a)
        b2 = b if isinstance(b, np.ndarray) else _box(b)
        bc = np.broadcast(a2, b2)
        out = np.empty(bc.shape, dtype=object)
        for k, (x, y) in zip(np.ndindex(*bc.shape), bc):
            r = f(x, y)
            out[k] = Num(r.p, dt if dt in _MAXT else r.ty, True) if isinstance(r, Num) else r
        return NDArray(out, dt)

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: x - y, swap=True)

    def __mul__(self, o):
        return self._bin(o, lambda x, y: x * y)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda x, y: x / y, div=True)

    def __rtruediv__(self, o):
        return self._bin(o, lambda x, y: x / y, swap=True, div=True)

    def __pow__(self, o):
        return self._bin(o, lambda x, y: x ** y)

    def __neg__(self):
        return self._map(lambda x: -x)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return self._map(abs, 'float' if self.dt == 'complex' else self.dt)

    def _ibin(self, r):
        if r.dt == 'complex' and self.dt != 'complex':
            raise TypeError('Cannot cast ufunc output from complex to float')
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._ibin(self + o)

    def __isub__(self, o):
        return self._ibin(self - o)

    def __imul__(self, o):
        return self._ibin(self * o)

    def __itruediv__(self, o):
        return self._ibin(self / o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def _cmp(self, o, f):
        r = self._bin(o, lambda x, y: f(x, y))
        if r is NotImplemented:
            return r
        if all(isinstance(x, bool) for x in r.data.ravel()):
            return r.data.astype(bool)
        raise Unsupported('elementwise comparison of symbolic arrays')

    def __eq__(self, o):
        return self._cmp(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self._cmp(o, lambda x, y: x != y)

    __hash__ = None

    def __bool__(self):
        if self.size == 1:
            return bool(self.data.ravel()[0] != 0)
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.ndim == 0:
            raise Unsupported('float() of 0-d array')
        raise TypeError('only 0-dimensional arrays can be converted to Python scalars')

    def __repr__(self):
        return 'NDArray%s<%s>' % (self.shape, self.dt)


_MAXT = ('complex', 'float', 'int')


def _box(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


class PartView:
    """a.real / a.imag of an array (writable view)."""
    __array_ufunc__ = None

    def __init__(self, parent, part):
        self.parent = parent
        self.part = part

    def arr(self):
        return self.parent._map(lambda x: getattr(x, self.part), 'float')

    def __getitem__(self, i):
        r = self.parent[i]
        if isinstance(r, NDArray):
            return PartView(r, self.part)
        return getattr(r, self.part)

    def __setitem__(self, i, v):
        cur = self.parent[i]
        if isinstance(v, PartView):
            v = v.arr()
        if dtype_of(v) == 'complex':
            raise Unsupported('complex value assigned to real/imag part')
        if self.parent.dt != 'complex':
            if self.part == 'imag':
                raise TypeError('cannot set imaginary part of a real array')
            self.parent[i] = v
            return
        I = Num({P.ONE: P.GQ(0, 1)}, 'complex', True)
        if self.part == 'real':
            im = cur.imag if not isinstance(cur, NDArray) else cur.imag.arr()
            self.parent[i] = im * I + v
        else:
            re = cur.real if not isinstance(cur, NDArray) else cur.real.arr()
            self.parent[i] = v * I + re

    def __getattr__(self, n):
        return getattr(self.arr(), n)

    def __len__(self):
        return len(self.parent)

    def __iter__(self):
        return iter(self.arr())

    def _d(name):
        def f(self, *a):
            return getattr(self.arr(), name)(*a)
        return f
    for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__',
               '__truediv__', '__rtruediv__', '__pow__', '__neg__', '__abs__',
               '__matmul__', '__rmatmul__', '__eq__', '__ne__'):
        locals()[_n] = _d(_n)
    __hash__ = None

    def __iadd__(self, o):
        self[...] = self.arr() + o
        return self

    def __imul__(self, o):
        self[...] = self.arr() * o
        return self


# ---------------------------------------------------------------- functions

def asnd(x):
    if isinstance(x, NDArray):
        return x
    if isinstance(x, PartView):
        return x.arr()
    return NDArray.of(x)


def matmul(a, b):
    a = asnd(a)
    b = asnd(b)
    if a.ndim == 2 and b.ndim == 2:
        return einsum('ij,jk->ik', a, b)
    if a.ndim == 2 and b.ndim == 1:
        return einsum('ij,j->i', a, b)
    if a.ndim == 1 and b.ndim == 2:
        return einsum('i,ij->j', a, b)
    if a.ndim == 1 and b.ndim == 1:
        return einsum('i,i->', a, b)
    if 0 in (a.ndim, b.ndim):
        raise ValueError('matmul: not enough dimensions')
    if b.ndim == 2 and a.ndim > 2:
        return einsum('...ij,jk->...ik', a, b)
    if a.ndim == 2 and b.ndim > 2:
        return einsum('ij,...jk->...ik', a, b)
    if a.ndim == b.ndim:
        return einsum('...ij,...jk->...ik', a, b)
    raise Unsupported('matmul of ndim %d,%d' % (a.ndim, b.ndim))


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported('einsum list format')
    kw.pop('optimize', None)
    if kw:
        raise Unsupported('einsum kwargs %s' % list(kw))
    spec = spec.replace(' ', '')
    if '...' in spec:
        if any('...' not in t for t in spec.split('->')[-1:]) and '->' in spec:
            raise Unsupported('einsum ellipsis summed over')
        if '->' not in spec:
            raise Unsupported('einsum ellipsis')
        lhs0, out0 = spec.split('->')
        free = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in spec]
        ss, n = lhs0.split(','), 0
        new = []
        for t, o in zip(ss, ops):
            if '...' in t:
                k = asnd(o).ndim - (len(t) - 3)
                if k < 0 or (n and k and k != n):
                    raise Unsupported('einsum ellipsis broadcast')
                n = max(n, k)
                t = t.replace('...', ''.join(free[:k]))
            new.append(t)
        if len(ss) != len(ops):
            raise ValueError('einsum: number of operands')
        spec = ','.join(new) + '->' + out0.replace('...', ''.join(free[:n]))
    if '->' in spec:
        lhs, out = spec.split('->')
    else:
        lhs = spec
        allc = lhs.replace(',', '')
        out = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    subs = lhs.split(',')
    ops = [asnd(o) for o in ops]
    if len(subs) != len(ops):
        raise ValueError('einsum: number of operands')
    for s, o in zip(subs, ops):
        if len(s) != o.ndim:
            raise ValueError('einstein sum subscripts string contains wrong number of dimensions: %s' % spec)
    dt = _join(*[o.dt for o in ops])
    dims = {}
    for s, o in zip(subs, ops):
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError('einsum dimension mismatch')
    for c in out:
        if c not in dims:
            raise ValueError('einsum output label')
    # sparse representation
    tens = []
    for s, o in zip(subs, ops):
        labs = ''.join(dict.fromkeys(s))
        d = {}
        for idx in np.ndindex(*o.shape):
            v = o.data[idx]
            if isinstance(v, Num) and not v.p:
                continue
            m = {}
            ok = True
            for c, i in zip(s, idx):
                if m.setdefault(c, i) != i:
                    ok = False
                    break
            if not ok:
                continue
            if isinstance(v, NaNNum):
                if len(ops) == 1:
                    d[tuple(m[c] for c in labs)] = v
                    continue
                raise Unsupported('einsum with NaN entries')
            d[tuple(m[c] for c in labs)] = v.p
        tens.append((labs, d))
    if len(tens) == 1:
        labs, d = tens[0]
        res = _reduce(labs, d, out)
        acc = (out, res)
    else:
        tens = tens[::-1]
        acc = tens[0]
        rest = tens[1:]
        while rest:
            # prefer an operand sharing a label
            j = next((k for k, t in enumerate(rest) if set(t[0]) & set(acc[0])), 0)
            t = rest.pop(j)
            need = set(out)
            for r in rest:
                need |= set(r[0])
            acc = _contract(acc, t, need)
        acc = (out, _reduce(acc[0], acc[1], out))
    shape = tuple(dims[c] for c in out)
    ty = dt if dt in _MAXT else 'float'
    zero = Num({}, ty, True)
    if not shape:
        v = acc[1].get((), {})
        return v if isinstance(v, NaNNum) else Num(v, ty, True)
    data = np.empty(shape, dtype=object)
    data.fill(zero)
    for idx, v in acc[1].items():
        data[idx] = v if isinstance(v, NaNNum) else Num(v, ty, True)
    return NDArray(data, dt)


def _reduce(labs, d, out):
    pos = [labs.index(c) for c in out]
    res = {}
    for idx, v in d.items():
        k = tuple(idx[i] for i in pos)
        if k in res:
            if isinstance(v, NaNNum) or isinstance(res[k], NaNNum):
                res[k] = NAN
            else:
                res[k] = P.p_add(res[k], v)
        else:
            res[k] = v
    return res


def _contract(a, b, need):
    la, da = a
    lb, db = b
    shared = [c for c in lb if c in la]
    newb = [c for c in lb if c not in la]
    pa = [la.index(c) for c in shared]
    pb = [lb.index(c) for c in shared]
    pn = [lb.index(c) for c in newb]
    byk = {}
    for idx, v in db.items():
        byk.setdefault(tuple(idx[i] for i in pb), []).append((tuple(idx[i] for i in pn), v))
    labs = la + ''.join(newb)
    keep = [i for i, c in enumerate(labs) if c in need]
    out = {}
    for idx, v in da.items():
        for nidx, w in byk.get(tuple(idx[i] for i in pa), ()):
            full = idx + nidx
            k = tuple(full[i] for i in keep)
            t = P.p_mul(v, w)
            o = out.get(k)
            out[k] = t if o is None else P.p_add(o, t)
    return ''.join(labs[i] for i in keep), out


def _has_sym(x):
    if isinstance(x, (Num, NaNNum, NDArray, PartView)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(_has_sym(y) for y in x.values())
    return False


class _Linalg:
    def multi_dot(self, arrays, out=None):
        if out is not None:
            raise Unsupported('multi_dot out=')
        r = arrays[0]
        for a in arrays[1:]:
            r = matmul(r, a)
        return r

    def __getattr__(self, n):
        raise Unsupported('numpy.linalg.%s' % n)


class NumpyModel:
    """Stand-in for the module object `numpy`."""
    __name__ = 'numpy'
    ndarray = NDArray
    nan = NAN
    NaN = NAN
    newaxis = None
    linalg = _Linalg()
    complex128 = np.complex128
    float64 = np.float64
    int64 = np.int64
    bool_ = np.bool_

    def __init__(self):
        pi = Num.sym('pi', 'pos')
        self.pi = pi

    def __getattr__(self, n):
        f = getattr(np, n)
        if not callable(f) or isinstance(f, type):
            return f

        def w(*a, **k):
            if _has_sym(a) or _has_sym(k):
                raise Unsupported('numpy.%s on symbolic data' % n)
            return f(*a, **k)
        return w

    # creation
    def array(self, x, dtype=None, copy=True, **k):
        return NDArray.of(x, _dt(dtype), copy=copy is not False)

    def asarray(self, x, dtype=None):
        return NDArray.of(x, _dt(dtype), copy=False)

    def _shape(self, s):
        if isinstance(s, (list, tuple)):
            return tuple(int(i) for i in s)
        return (int(s),)

    def zeros(self, shape, dtype=None, **k):
        d = _dt(dtype) or 'float'
        return NDArray.full(self._shape(shape), _elt(0, d), d)

    def ones(self, shape, dtype=None, **k):
        d = _dt(dtype) or 'float'
        return NDArray.full(self._shape(shape), _elt(1, d), d)

    def full(self, shape, v, dtype=None, **k):
        d = _dt(dtype) or dtype_of(v)
        return NDArray.full(self._shape(shape), _elt(v, d), d)

    def empty(self, shape, dtype=None, **k):
        d = _dt(dtype) or 'float'
        # uninitialised memory: a fresh unknown per entry
        out = np.empty(self._shape(shape), dtype=object)
        n = CTX.engine.fresh_id() if CTX.engine else 0
        for i in np.ndindex(*out.shape):
            out[i] = Num.sym('uninit%d%s' % (n, i), 'complex' if d == 'complex' else 'real', np=True)
        return NDArray(out, d)

    def zeros_like(self, a, dtype=None, **k):
        a = asnd(a)
        r = self.zeros(a.shape, dtype or a.dt)
        return r if a.shape != () or isinstance(a, NDArray) else r

    def empty_like(self, a, dtype=None, **k):
        a = asnd(a)
        return self.empty(a.shape, dtype or a.dt)

    def ones_like(self, a, dtype=None, **k):
        a = asnd(a)
        return self.ones(a.shape, dtype or a.dt)

    def full_like(self, a, v, dtype=None, **k):
        a = asnd(a)
        return self.full(a.shape, v, dtype or a.dt)

    def eye(self, n, dtype=None, **k):
        d = _dt(dtype) or 'float'
        a = self.zeros((n, n), d)
        for i in range(n):
            a.data[i, i] = _elt(1, d)
        return a
    identity = eye

    def diag(self, a, k=0):
        if not _has_sym(a):
            return NDArray.of(np.diag(a, k))
        a = asnd(a)
        if a.ndim == 1 and k == 0:
            r = self.zeros((len(a), len(a)), a.dt)
            for i in range(len(a)):
                r.data[i, i] = a.data[i]
            return r
        if a.ndim == 2 and k == 0:
            return a.diagonal()
        raise Unsupported('diag')

    # queries
    def shape(self, x):
        if isinstance(x, (Num, NaNNum)) or is_hostnum(x):
            return ()
        return asnd(x).shape

    def ndim(self, x):
        return len(self.shape(x))

    def size(self, x):
        return int(np.prod(self.shape(x))) if self.shape(x) else 1

    def isnan(self, x):
        if isinstance(x, NDArray):
            out = np.zeros(x.shape, dtype=bool)
            for i in np.ndindex(*x.shape):
                out[i] = isinstance(x.data[i], NaNNum)
            return out
        return isinstance(x, NaNNum)

    def isscalar(self, x):
        return isinstance(x, (Num, NaNNum)) or is_hostnum(x)

    def ndenumerate(self, a):
        a = asnd(a)
        return iter([(i, a[i]) for i in np.ndindex(*a.shape)])

    def iscomplexobj(self, a):
        return dtype_of(a) == 'complex'

    # elementwise
    def _el(self, x, f, dt=None):
        if isinstance(x, PartView):
            x = x.arr()
        if isinstance(x, (list, tuple, np.ndarray)):
            x = asnd(x)
        if isinstance(x, NDArray):
            return x._map(f, dt)
        r = f(num(x))
        return Num(r.p, r.ty, True) if isinstance(r, Num) else r

    def conj(self, x):
        return self._el(x, lambda v: v.conjugate())
    conjugate = conj

    def real(self, x):
        if isinstance(x, NDArray):
            return x.real
        return self._el(x, lambda v: v.real)

    def imag(self, x):
        if isinstance(x, NDArray):
            return x.imag
        return self._el(x, lambda v: v.imag)

    def sqrt(self, x):
        return self._el(x, n_sqrt, 'float')

    def abs(self, x):
        return self._el(x, abs, 'float')
    absolute = abs

    def square(self, x):
        return self._el(x, lambda v: v * v)

    def angle(self, x):
        from .models import n_angle
        return self._el(x, n_angle, 'float')

    def _fn(name):
        def f(self, x):
            from .models import n_fun
            return self._el(x, lambda v: n_fun(name, v), 'float')
        return f
    exp = _fn('exp')
    log = _fn('log')
    sin = _fn('sin')
    cos = _fn('cos')

    def arctan2(self, y, x):
        from .models import n_angle
        I = Num({P.ONE: P.GQ(0, 1)}, 'complex')
        r = n_angle(num(x) + I * num(y))
        return Num(r.p, r.ty, True)

    def negative(self, a):
        return self._el(a, lambda v: -v)

    def positive(self, a):
        return self._el(a, lambda v: v)

    def isreal(self, a):
        r = self.iscomplex(a)
        return ~r if isinstance(r, np.ndarray) else s_not(r)

    def inner(self, a, b):
        a, b = asnd(a), asnd(b)
        if a.ndim <= 1 and b.ndim <= 1:
            return self.dot(a, b)
        return einsum('...i,ji->...j' if b.ndim == 2 else '...i,i->...', a, b)

    def vdot(self, a, b):
        a, b = asnd(a), asnd(b)
        return matmul(self.conj(a).ravel(), b.ravel())

    def fill_diagonal(self, a, v, wrap=False):
        if a.ndim != 2:
            raise Unsupported('fill_diagonal')
        vs = asnd(v)
        for i in range(min(a.shape)):
            a[i, i] = vs[()] if vs.ndim == 0 else vs[i % len(vs)]

    def _structural(name):
        # moves entries around, does not compute with them
        def f(self, a, *r, **k):
            if _has_sym(r) or _has_sym(k):
                raise Unsupported('numpy.%s with symbolic arguments' % name)
            if name in ('concatenate', 'vstack', 'hstack'):
                parts = [asnd(x) for x in a]
                dt = _join(*[x.dt for x in parts])
                return NDArray(getattr(np, name)([x.astype(dt).data for x in parts], *r, **k), dt)
            a = asnd(a)
            d = getattr(np, name)(a.data, *r, **k)
            if not isinstance(d, np.ndarray) or d.dtype != object:
                raise Unsupported('numpy.' + name)
            d = d.copy()
            for i in np.ndindex(*d.shape):
                if not isinstance(d[i], (Num, NaNNum)):
                    d[i] = _elt(d[i], a.dt)
            return NDArray(d, a.dt)
        return f
    for _n in ('concatenate', 'vstack', 'hstack', 'expand_dims', 'broadcast_to', 'triu', 'tril', 'roll', 'flip',
               'fliplr', 'flipud', 'rot90', 'atleast_1d', 'atleast_2d', 'take', 'diagflat', 'repeat', 'tile'):
        locals()[_n] = _structural(_n)

    def ascontiguousarray(self, a, dtype=None):
        return self.asarray(a, dtype)
    asanyarray = asarray_chkfinite = ascontiguousarray

    def add(self, a, b):
        return asnd(a) + b

    def subtract(self, a, b):
        return asnd(a) - b

    def multiply(self, a, b):
        return asnd(a) * b

    def divide(self, a, b):
        return asnd(a) / b
    true_divide = divide

    # structural
    def transpose(self, a, axes=None):
        a = asnd(a)
        return a.transpose(*([axes] if axes is not None else []))

    def swapaxes(self, a, i, j):
        return asnd(a).swapaxes(i, j)

    def moveaxis(self, a, s, d):
        a = asnd(a)
        return NDArray(np.moveaxis(a.data, s, d), a.dt)

    def rollaxis(self, a, *k):
        a = asnd(a)
        return NDArray(np.rollaxis(a.data, *k), a.dt)

    def reshape(self, a, s):
        return asnd(a).reshape(s)

    def ravel(self, a):
        return asnd(a).ravel()

    def copy(self, a):
        return asnd(a).copy()

    def stack(self, xs, axis=0):
        xs = [asnd(x) for x in xs]
        return NDArray(np.stack([x.data for x in xs], axis), _join(*[x.dt for x in xs]))

    def where(self, c, *ab):
        if isinstance(c, NDArray):
            raise Unsupported('where on symbolic mask')
        if not ab:
            return np.where(c)
        a, b = [asnd(x) for x in ab]
        c = np.asarray(c)
        bc = np.broadcast(c, a.data, b.data)
        dt = _join(a.dt, b.dt)
        out = np.empty(bc.shape, dtype=object)
        for k, (m, x, y) in zip(np.ndindex(*bc.shape), bc):
            out[k] = _elt(x if m else y, dt)
        return NDArray(out, dt)

    # contraction
    def einsum(self, *a, **k):
        return einsum(*a, **k)

    def matmul(self, a, b):
        return matmul(a, b)

    def dot(self, a, b):
        if self.ndim(a) == 0 or self.ndim(b) == 0:
            return asnd(a) * b if self.ndim(a) else asnd(b) * a
        a, b = asnd(a), asnd(b)
        if a.ndim <= 2 and b.ndim <= 2:
            return matmul(a, b)
        return self.tensordot(a, b, axes=([a.ndim - 1], [b.ndim - 2 if b.ndim > 1 else 0]))

    def outer(self, a, b):
        return einsum('i,j->ij', asnd(a).ravel(), asnd(b).ravel())

    def kron(self, a, b):
        raise Unsupported('kron')

    def trace(self, a):
        return einsum('ii->', asnd(a))

    def tensordot(self, a, b, axes=2):
        a, b = asnd(a), asnd(b)
        if isinstance(axes, int):
            ax = list(range(a.ndim - axes, a.ndim)), list(range(axes))
        else:
            ax = [list(x) if isinstance(x, (list, tuple)) else [x] for x in axes]
        la = [chr(97 + i) for i in range(a.ndim)]
        lb = [chr(97 + a.ndim + i) for i in range(b.ndim)]
        for i, j in zip(*ax):
            lb[j % b.ndim] = la[i % a.ndim]
        sa = {la[i % a.ndim] for i in ax[0]}
        out = [c for c in la if c not in sa] + [c for c in lb if c not in sa]
        return einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(out)), a, b)

    def sum(self, a, axis=None):
        return asnd(a).sum(axis)

    def prod(self, a, *k):
        if not _has_sym(a):
            return np.prod(a, *k)
        t = num(1)
        for x in asnd(a).data.ravel():
            t = t * x
        return t

    def any(self, a, *k):
        if _has_sym(a):
            raise Unsupported('np.any on symbolic data')
        return np.any(a, *k)

    def iscomplex(self, a):
        raise Unsupported('np.iscomplex')
