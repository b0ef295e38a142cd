"""Interpreter of the Python AST of the code under verification.

The text executed is the current source in /repo (parsed on every run).  Host
Python objects represent concrete values; numbers are exact symbolic numbers;
conditions on unknowns fork the path (engine.decide); loops and comprehensions
over unbounded symbolic maps are summarised pointwise (symmap).  Functions for
which a contract is registered are replaced by their contract at call sites."""
import ast
import builtins as _b
import os
import sys
import types
import operator
import importlib
from .values import (Num, NaNNum, SBool, SStr, Unsupported, PathAbort, CTX, num,
                     is_hostnum, s_not, s_and, s_or, zbool, mk_bool, Opaque, Fold, Prev)
from .symmap import (SMap, OptMap, SIter, SSeq, SSet, SCard, SCounter, to_sset, to_smap, key_eq,
                     exists, exists_pos, fresh_key, has_duplicates)
from .nd import NDArray, NumpyModel, PartView
from . import guard
from .guard import GBool, GDict, GView, GSet, GSeq, GOpt
from . import models
from . import poly as P


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


_UNSET = object()
_MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
             'setdefault', 'popitem', 'difference_update', 'intersection_update', 'symmetric_difference_update',
             'move_to_end', '__setitem__', '__delitem__'}

_bin = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul,
    ast.FloorDiv: operator.floordiv, ast.BitOr: operator.or_,
    ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
    ast.LShift: operator.lshift, ast.RShift: operator.rshift,
}
_ibin = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul,
    ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.MatMult: operator.imatmul,
    ast.FloorDiv: operator.ifloordiv, ast.BitOr: operator.ior,
    ast.BitAnd: operator.iand, ast.BitXor: operator.ixor,
    ast.LShift: operator.ilshift, ast.RShift: operator.irshift,
}
_cmp = {
    ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt,
    ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
}


def truth(x):
    """bool(x), forking on symbolic values"""
    return bool(x)


def py_div(a, b):
    if is_hostnum(a) and is_hostnum(b) and not isinstance(a, bool):
        a = num(a)
    return operator.truediv(a, b)


def py_eq(a, b):
    if isinstance(a, SMap) or isinstance(b, SMap):
        return a == b if isinstance(a, SMap) else b == a
    if isinstance(b, (SSet, SStr)) and not isinstance(a, (SSet, SStr)):
        return b == a
    if isinstance(a, (str, SStr, tuple)) and isinstance(b, (str, SStr, tuple)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        if isinstance(a, tuple):
            if len(a) != len(b):
                return False
            return s_and(True, *[_tb(py_eq(x, y)) for x, y in zip(a, b)])
        return key_eq(a, b)
    return a == b


def _tb(x):
    return x if isinstance(x, (bool, SBool, GBool)) else bool(x)


def model_op(f, *a, **k):
    """Apply an operation of the host language.  Where it rejects a stand-in for
    a Python object, that says nothing about the object itself."""
    try:
        return f(*a, **k)
    except (TypeError, AttributeError) as ex:
        xs = list(a) + list(k.values()) + [getattr(f, '__self__', None)]
        for x in list(xs):
            if type(x) in (list, tuple):
                xs.extend(x)
        if any(isinstance(x, _STANDINS) for x in xs):
            raise Unsupported('%s: %s' % (getattr(f, '__name__', f), ex))
        raise


def _stands_for(o):
    import numpy as np
    if isinstance(o, Num):
        if not getattr(o, 'np', False):
            return [int if o.ty == 'int' else float if o.ty == 'float' else complex]
        return [np.float64 if o.ty == 'float' else np.complex128]
    for c, t in ((SCounter, _coll.Counter), (dict, dict), (SStr, str), ((SSet, GSet, set), set), ((NDArray, PartView), np.ndarray),
                 ((SSeq, GSeq, list), list), ((SIter, GView), type({}.keys()))):
        if isinstance(o, c):
            return [t]
    return []


def _host_callable(fn):
    if isinstance(fn, PFunc):
        return False
    if isinstance(fn, type):
        return fn.__module__ in ('builtins', 'collections')
    if isinstance(fn, types.MethodType):
        return isinstance(fn.__self__, _STANDINS)
    return isinstance(fn, (types.BuiltinFunctionType, types.MethodWrapperType, types.MethodDescriptorType)) \
        or (getattr(fn, '__module__', None) or '').startswith('pyvc')


def contains(c, x):
    """x in c  ->  bool or SBool"""
    if isinstance(c, (SMap, SSet, SIter, SSeq, GDict, GView, GSet, GSeq)):
        return c.contains(x)
    if isinstance(x, SStr) or (isinstance(x, tuple) and any(isinstance(y, SStr) for y in x)):
        if isinstance(c, (dict, list, tuple, set, frozenset)):
            els = list(c)
            return s_or(*[key_eq(x, e) for e in els]) if els else False
        if isinstance(c, str):
            raise Unsupported('substring test on symbolic string')
    return operator.contains(c, x)


# --------------------------------------------------------------- name analysis

import collections as _coll
import copy as _copy
_MAPTYPES = [_coll.OrderedDict]


class _Locals(ast.NodeVisitor):
    def __init__(self):
        self.names = set()
        self.globals = set()
        self.nonlocals = set()
        self.is_gen = False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # targets are local to the comprehension; walrus leaks (rare)
        for sub in ast.walk(n):
            if isinstance(sub, ast.NamedExpr):
                self.names.add(sub.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_Global(self, n):
        self.globals |= set(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals |= set(n.names)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.is_gen = True
        self.generic_visit(n)
    visit_YieldFrom = visit_Yield


class Frame:
    __slots__ = ('vars', 'parent', 'mod', 'localnames', 'globalnames',
                 'nonlocalnames', 'func', 'kind', 'yields')

    def __init__(self, mod, parent=None, kind='func', func=None):
        self.vars = {}
        self.parent = parent       # enclosing function frame (closures)
        self.mod = mod
        self.kind = kind           # 'module' | 'func' | 'class' | 'comp'
        self.localnames = ()
        self.globalnames = ()
        self.nonlocalnames = ()
        self.func = func
        self.yields = None


class PFunc:
    """A function of the code under verification."""
    def __init__(self, interp, node, frame, mod, qualname, defaults, kwdefaults):
        self.interp = interp
        self.node = node
        self.frame = frame
        self.mod = mod
        self.__name__ = getattr(node, 'name', '<lambda>')
        self.__qualname__ = qualname
        self.__module__ = mod.name
        self.__doc__ = ast.get_docstring(node) if not isinstance(node, ast.Lambda) else None
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.defclass = None
        self.__dict__.setdefault('__wrapped__', None)
        loc = _Locals()
        body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
        for s in body:
            loc.visit(s)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        names = set(self.params) | set(self.kwonly)
        if self.vararg:
            names.add(self.vararg)
        if self.kwarg:
            names.add(self.kwarg)
        self.localnames = (loc.names | names) - loc.globals - loc.nonlocals
        self.globalnames = loc.globals
        self.nonlocalnames = loc.nonlocals
        self.is_gen = loc.is_gen

    @property
    def fullname(self):
        return self.mod.name + '.' + self.__qualname__

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def bind(self, args, kw):
        b = {}
        n = len(self.params)
        if len(args) > n and not self.vararg:
            raise TypeError('%s() takes %d positional arguments but %d were given'
                            % (self.__name__, n, len(args)))
        for p, v in zip(self.params, args):
            b[p] = v
        if self.vararg:
            b[self.vararg] = tuple(args[n:])
        extra = {}
        for k, v in kw.items():
            if k in b and k in self.params:
                raise TypeError("%s() got multiple values for argument '%s'" % (self.__name__, k))
            if k in self.params or k in self.kwonly:
                b[k] = v
            elif self.kwarg:
                extra[k] = v
            else:
                raise TypeError("%s() got an unexpected keyword argument '%s'" % (self.__name__, k))
        if self.kwarg:
            b[self.kwarg] = extra
        nd = len(self.defaults)
        for i, p in enumerate(self.params):
            if p not in b:
                j = i - (n - nd)
                if j >= 0:
                    b[p] = self.defaults[j]
                else:
                    raise TypeError("%s() missing required positional argument: '%s'" % (self.__name__, p))
        for p in self.kwonly:
            if p not in b:
                if p in self.kwdefaults:
                    b[p] = self.kwdefaults[p]
                else:
                    raise TypeError("%s() missing required keyword-only argument: '%s'" % (self.__name__, p))
        return b

    def __call__(self, *args, **kw):
        eng = CTX.engine
        h = eng.contracts.get(self.fullname) if eng else None
        if h is not None:
            return h(self, args, kw)
        return self.run(args, kw)

    def run(self, args, kw):
        it = self.interp
        if CTX.engine is not None:
            CTX.engine.functions[self.fullname] = CTX.engine.functions.get(self.fullname, 0) + 1
        fr = Frame(self.mod, self.frame, 'func', self)
        fr.localnames = self.localnames
        fr.globalnames = self.globalnames
        fr.nonlocalnames = self.nonlocalnames
        fr.vars.update(self.bind(args, kw))
        it.depth += 1
        if it.depth > 150:
            it.depth = 0
            raise Unsupported('recursion too deep')
        try:
            if isinstance(self.node, ast.Lambda):
                return it.expr(self.node.body, fr)
            if self.is_gen:
                fr.yields = []
                try:
                    it.block(self.node.body, fr)
                except _Return:
                    pass
                return iter(fr.yields)
            try:
                it.block(self.node.body, fr, True)
            except _Return as r:
                return r.v
            return None
        finally:
            it.depth -= 1

    def __repr__(self):
        return '<pfunc %s>' % self.fullname


class Module(types.ModuleType):
    pass


class ModInfo:
    def __init__(self, name, path, module):
        self.name = name
        self.path = path
        self.module = module
        self.globals = module.__dict__


class _Stub:
    """External module replaced by a stub whose use is unsupported unless the
    harness provides a contract."""
    def __init__(self, name, attrs=None):
        self.__dict__['_name'] = name
        self.__dict__.update(attrs or {})

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        nm = self._name + '.' + n

        def f(*a, **k):
            raise Unsupported('external call %s' % nm)
        f.__name__ = nm
        return f


def _identity_cache(*a, **k):
    """functools.lru_cache / cache: memoisation of a pure function, modelled as
    the function itself."""
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class _Functools:
    lru_cache = staticmethod(_identity_cache)
    cache = staticmethod(lambda f: f)

    @staticmethod
    def wraps(f):
        return lambda g: g

    def __getattr__(self, n):
        import functools
        return getattr(functools, n)


HOST_MODULES = {'os', 'os.path', 'glob', 're', 'collections', 'itertools', 'operator',
                'sys', 'copy', 'io', 'numbers', 'string', 'typing', 'contextlib',
                'warnings', 'json', 'argparse', 'fractions', 'decimal', 'abc',
                'collections.abc', 'textwrap', 'enum', 'dataclasses', 'types', 'logging',
                'pathlib', 'time', 'datetime', '__future__', 'random', 'inspect'}


class Interp:
    def __init__(self, root='/repo'):
        self.root = root
        self.mods = {}
        self.depth = 0
        self.np = NumpyModel()
        self.math = models.MathModel()
        ck = types.SimpleNamespace(ckm=models.CkmModel(), diag=models.DiagModel())
        self.external = {
            'numpy': self.np, 'math': self.math, 'cmath': models.CMathModel(),
            'ckmutil': ck, 'ckmutil.ckm': ck.ckm, 'ckmutil.diag': ck.diag,
            'rundec': models.RundecModel(), 'functools': _Functools(),
            'yaml': self._yaml_stub(), 'pylha': _Stub('pylha'),
            'subprocess': _Stub('subprocess'), 'tempfile': _Stub('tempfile'),
            'shutil': _Stub('shutil'), 'pkgutil': self._pkgutil(),
        }
        self.builtins = self._builtins()
        self.override = {}      # fully qualified global -> replacement

    # ------------------------------------------------------------ externals
    def _yaml_stub(self):
        class YAMLError(Exception):
            pass
        res = types.SimpleNamespace(BaseResolver=types.SimpleNamespace(
            DEFAULT_MAPPING_TAG='tag:yaml.org,2002:map'))
        return _Stub('yaml', {'YAMLError': YAMLError, 'resolver': res,
                              'add_representer': lambda *a, **k: None,
                              'add_constructor': lambda *a, **k: None})

    def _pkgutil(self):
        root = self.root

        def get_data(pkg, res):
            with open(os.path.join(root, pkg.replace('.', '/'), res), 'rb') as f:
                return f.read()
        return types.SimpleNamespace(get_data=get_data)

    def _builtins(self):
        d = dict(vars(_b))
        I = self

        def isinstance_(x, T):
            if type(x) is GOpt:
                raise Unsupported('type of a value that may be None')
            if isinstance(T, tuple):
                return any(isinstance_(x, t) for t in T)
            if isinstance(T, types.UnionType):
                return any(isinstance_(x, t) for t in T.__args__)
            if isinstance(x, Num):
                import numbers
                import numpy as _np
                if T in (float,):
                    return x.ty == 'float'
                if T in (int,):
                    return x.ty == 'int' and not x.np
                if T in (complex,):
                    return x.ty == 'complex'
                if T in (numbers.Number, numbers.Complex, object):
                    return True
                if T in (numbers.Real,):
                    return x.ty != 'complex'
                if T in (numbers.Integral,):
                    return x.ty == 'int'
                if T in (_np.number, _np.generic):
                    return x.np
                if T in (_np.floating, _np.float64):
                    return x.np and x.ty == 'float'
                if T in (_np.complexfloating, _np.complex128):
                    return x.np and x.ty == 'complex'
                return False
            if isinstance(x, NaNNum):
                return T in (float, complex)
            if isinstance(x, SStr):
                return T is str or T is object
            if T is NDArray:
                return isinstance(x, (NDArray, PartView))
            if isinstance(x, (SSeq,)) and T in (list,):
                return True
            if isinstance(x, SSet) and T in (set,):
                return True
            if isinstance(x, Opaque):
                raise Unsupported('isinstance of an opaque value')
            return isinstance(x, T)

        class float_meta(type):
            pass

        def float_(x=0.0):
            if isinstance(x, NaNNum):
                return x
            if isinstance(x, (NDArray, PartView)):
                return models._scalar(x)
            if isinstance(x, Num):
                if x.ty == 'complex':
                    if x.np:
                        raise TypeError('float() of a numpy complex scalar')
                    raise TypeError("float() argument must be a string or a real number, not 'complex'")
                return Num(x.p, 'float', False)
            if isinstance(x, str):
                v = _b.float(x)
                return num(v) if v == v and abs(v) != _b.float('inf') else v
            if is_hostnum(x):
                return Num.const(x, 'float')
            if isinstance(x, SStr):
                n = CTX.engine.numerals.get(str(x.e))
                if n is None:
                    raise Unsupported('float of symbolic string')
                return n
            return _b.float(x)

        def complex_(re=0, im=0):
            if isinstance(re, str):
                return num(_b.complex(re))
            i = Num({P.ONE: P.GQ(0, 1)}, 'complex')
            r = num(re) + i * num(im)
            return Num(r.p, 'complex', False)

        def int_(x=0, *a):
            if isinstance(x, Num):
                if x.is_int_const():
                    return x.const_val()
                raise Unsupported('int() of symbolic number')
            return _b.int(x, *a)

        def abs_(x):
            return abs(x)

        def len_(x):
            if isinstance(x, SSeq):
                return SCard(x, False)
            if isinstance(x, SSet) and x.seq is not None:
                return SCard(x.seq, True)
            if isinstance(x, SSet):
                return _CardLike(x)
            if isinstance(x, SCounter):
                return SCard(x.seq, True)
            if isinstance(x, (SMap, SIter)):
                return _CardLike(to_sset(x))
            return _b.len(x)

        def set_(x=()):
            if guard.ON and guard.conditional(x):
                return GSet(guard.entries(x))
            if guard.ON:
                return guard.note(_b.set(x)) if not isinstance(x, (SMap, SIter, SSeq, SSet)) else to_sset(x)
            if isinstance(x, (SMap, SIter, SSeq, SSet)):
                return to_sset(x)
            return _b.set(x)

        def frozenset_(x=()):
            if guard.ON and guard.conditional(x):
                return GSet(guard.entries(x))
            if isinstance(x, (SMap, SIter, SSeq, SSet)):
                return to_sset(x)
            return _b.frozenset(x)

        def list_(x=()):
            if guard.ON and guard.conditional(x):
                return GSeq(guard.entries(x))
            if isinstance(x, SMap):
                return _seq_of_iter(SIter(x.frozen(), 'keys'))
            if isinstance(x, SIter):
                return _seq_of_iter(x)
            if isinstance(x, SSeq):
                return x
            if isinstance(x, SSet):
                return x
            return _b.list(x)

        def tuple_(x=()):
            if isinstance(x, (SMap, SIter, SSeq, SSet)):
                return list_(x)
            return _b.tuple(x)

        def dict_(*a, **k):
            if guard.ON and not (a and isinstance(a[0], (SMap, SIter, SSeq))):
                return GDict(*a, **k)
            if a and isinstance(a[0], SMap):
                r = a[0].copy()
                if isinstance(r, OptMap):
                    r.factory = None
                if k:
                    r.update(**k)
                return r
            if a and isinstance(a[0], SIter) and a[0].what == 'items':
                r = a[0].m.copy()
                r.update(**k)
                return r
            if a and isinstance(a[0], SSeq):
                r = _map_of_pairs(a[0])
                r.update(**k)
                return r
            return _b.dict(*a, **k)

        def sorted_(x, **k):
            if guard.ON and guard.conditional(x):
                key = k.get('key')
                return GSeq(_b.sorted(guard.entries(x), key=lambda t: key(t[1]) if key else t[1], reverse=k.get('reverse', False)))
            if isinstance(x, (SMap, SIter, SSeq, SSet)):
                return list_(x)
            return _b.sorted(x, **k)

        def any_(x):
            if guard.ON:
                r = False
                for c, y in guard.entries(x):
                    y = guard.cond_of(y)
                    y = y if isinstance(y, GBool) else truth(y)
                    r = guard.disj(r, guard.conj(guard.mk(*c), y))
                return r
            if isinstance(x, SSeq):
                return exists(_pos_pred(x, lambda e: truthy_sb(e)), _pos_arity(x), ('any', id(x)), keep=x)
            return _b.any(x)

        def all_(x):
            if guard.ON:
                r = True
                for c, y in guard.entries(x):
                    y = guard.cond_of(y)
                    y = y if isinstance(y, GBool) else truth(y)
                    if c and y is not True:
                        raise Unsupported('all() over a conditional collection')
                    r = guard.conj(r, y)
                return r
            if isinstance(x, SSeq):
                return not exists(_pos_pred(x, lambda e: s_not(truthy_sb(e))), _pos_arity(x), ('all', id(x)), keep=x)
            return _b.all(x)

        def type_(*a):
            if len(a) == 1 and isinstance(a[0], Num):
                return {'int': _b.int, 'float': _b.float, 'complex': _b.complex}[a[0].ty]
            return _b.type(*a)

        def super_(*a):
            if a:
                return _b.super(*a)
            raise Unsupported('super() without frame')

        def getattr_(o, n, *dflt):
            return I.getattr(o, n, *dflt)

        def hasattr_(o, n):
            try:
                I.getattr(o, n)
                return True
            except AttributeError:
                return False

        def repr_(x):
            return _b.repr(x)

        def print_(*a, **k):
            if CTX.engine is not None:
                CTX.engine.calls.append(('print', a))

        def str_(x='', *a):
            if isinstance(x, SStr):
                return x
            if isinstance(x, Num) and CTX.engine is not None and CTX.engine.text:
                return format(x)
            return _b.str(x, *a)

        def sum_(x, start=0):
            if isinstance(x, SSeq):
                raise Unsupported('sum over symbolic sequence')
            t = start
            for c, y in guard.entries(x):
                t = guard.merge(c, t + y, t)
            return t

        def enumerate_(x, start=0):
            if guard.ON and guard.conditional(x):
                return GSeq([(c, (_Poison('index'), y)) for c, y in guard.entries(x)])
            if isinstance(x, (SMap, SIter, SSeq, SSet)):
                q = _as_seq(x)
                return SSeq(q.arities, q.live, lambda pos: (_Poison('index'), q.elt(pos)))
            return _b.enumerate(x, start)

        def map_(f, *xs):
            if guard.ON and any(guard.conditional(x) for x in xs):
                if len(xs) > 1:
                    raise Unsupported('map over conditional collections')
                out = []
                for c, y in guard.entries(xs[0]):
                    with guard.guarded(c) as u:
                        if not u.skip:
                            out.append((c, I.call(f, [y], {})))
                return GSeq(out)
            if len(xs) == 1 and isinstance(xs[0], (SMap, SIter, SSeq, SSet)):
                q = _as_seq(xs[0])
                return SSeq(q.arities, q.live, lambda pos: I.call(f, [q.elt(pos)], {}))
            return _b.map(_unproxy(f), *xs)

        def filter_(f, x):
            if guard.ON and guard.conditional(x):
                out = []
                for c, y in guard.entries(x):
                    with guard.guarded(c) as u:
                        if not u.skip:
                            t = guard.cond_of(y if f is None else I.call(f, [y], {}))
                            if isinstance(t, GBool):
                                out.append((c + t.conds, y))
                            elif truth(t):
                                out.append((c, y))
                return GSeq(out)
            if isinstance(x, (SMap, SIter, SSeq, SSet)):
                q = _as_seq(x)

                def live(pos):
                    l = q.live(pos)
                    if l is False or (l is not True and not bool(l)):
                        return False
                    e = q.elt(pos)
                    return truth(e if f is None else I.call(f, [e], {}))
                return SSeq(q.arities, live, q.elt, q.elt_is_last_key)
            return _b.filter(_unproxy(f), x)

        d.update({'enumerate': enumerate_, 'map': map_, 'filter': filter_})
        d.update({'isinstance': isinstance_, 'len': len_, 'abs': abs_,
                  'any': any_, 'all': all_, 'getattr': getattr_, 'hasattr': hasattr_,
                  'print': print_, 'sorted': sorted_, 'sum': sum_, 'super': super_})
        # types usable both as constructors and in isinstance()
        d['float'] = _TypeProxy(_b.float, float_)
        d['complex'] = _TypeProxy(_b.complex, complex_)
        d['int'] = _TypeProxy(_b.int, int_)
        d['set'] = _TypeProxy(_b.set, set_)
        d['frozenset'] = _TypeProxy(_b.frozenset, frozenset_)
        d['list'] = _TypeProxy(_b.list, list_)
        d['tuple'] = _TypeProxy(_b.tuple, tuple_)
        d['dict'] = _TypeProxy(_b.dict, dict_)
        d['str'] = _TypeProxy(_b.str, str_)
        d['type'] = _TypeProxy(_b.type, type_)
        base_isinstance = isinstance_

        def isinstance2(x, T):
            return base_isinstance(x, _unproxy(T))
        d['isinstance'] = isinstance2
        d['issubclass'] = lambda a, b: issubclass(_unproxy(a), _unproxy(b))
        d['open'] = lambda *a, **k: self.open_hook(*a, **k)
        d['input'] = lambda *a: self._unsup('input()')
        d['exec'] = d['eval'] = d['compile'] = lambda *a, **k: self._unsup('eval')
        d['quit'] = d['exit'] = lambda *a: (_ for _ in ()).throw(SystemExit())
        return d

    def _unsup(self, w):
        raise Unsupported(w)

    def open_hook(self, path, mode='r', *a, **k):
        if isinstance(path, str) and 'r' in mode and os.path.abspath(path).startswith(self.root):
            return open(path, mode)
        raise Unsupported('open(%r, %r)' % (path, mode))

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name].module
        if name in self.external:
            return self.external[name]
        rel = name.replace('.', '/')
        pk = os.path.join(self.root, rel, '__init__.py')
        fl = os.path.join(self.root, rel + '.py')
        if os.path.exists(pk):
            path, is_pkg = pk, True
        elif os.path.exists(fl):
            path, is_pkg = fl, False
        else:
            if name.split('.')[0] in HOST_MODULES or name in HOST_MODULES:
                return importlib.import_module(name)
            raise ImportError('module %s not found' % name)
        if '.' in name:
            parent, leaf = name.rsplit('.', 1)
            pm = self.load(parent)
            if name in self.mods:
                return self.mods[name].module
        m = Module(name)
        m.__dict__['__file__'] = path
        m.__dict__['__name__'] = name
        m.__dict__['__package__'] = name if is_pkg else name.rpartition('.')[0]
        if is_pkg:
            m.__dict__['__path__'] = [os.path.dirname(path)]
        info = ModInfo(name, path, m)
        self.mods[name] = info
        with open(path, encoding='utf8') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
        if '.' in name:
            setattr(pm, leaf, m)
        fr = Frame(info, None, 'module')
        fr.vars = m.__dict__
        self.block(tree.body, fr)
        return m

    def import_from(self, modname, name):
        m = self.load(modname)
        try:
            return getattr(m, name)
        except AttributeError:
            try:
                return self.load(modname + '.' + name)
            except ImportError:
                raise ImportError('cannot import name %r from %r' % (name, modname))

    def _resolve_rel(self, fr, level, module):
        if level == 0:
            return module
        pkg = fr.mod.globals['__package__']
        for _ in range(level - 1):
            pkg = pkg.rpartition('.')[0]
        return pkg + ('.' + module if module else '')

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if f.kind == 'module':
                break
            if f.kind == 'class' and not first:
                f = f.parent
                continue
            if name in f.globalnames:
                break
            if name in f.vars:
                v = f.vars[name]
                if type(v) is _Poison:
                    raise Unsupported('%s after a loop over a symbolic map' % name)
                return v
            if f.kind == 'func' and name in f.localnames:
                raise UnboundLocalError("cannot access local variable '%s'" % name)
            if f.kind != 'comp':
                first = False
            f = f.parent
        g = fr.mod.globals
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        raise NameError("name '%s' is not defined" % name)

    def assign_name(self, name, v, fr):
        f = fr
        while f.kind == 'comp':
            # walrus inside a comprehension binds in the enclosing scope
            if name in f.vars:
                f.vars[name] = v
                return
            f = f.parent
        if name in f.globalnames:
            f.mod.globals[name] = v
            return
        if name in f.nonlocalnames:
            g = f.parent
            while g is not None:
                if name in g.vars or name in g.localnames:
                    g.vars[name] = v
                    return
                g = g.parent
            raise SyntaxError('nonlocal')
        f.vars[name] = v

    # ------------------------------------------------------------ attribute access
    def getattr(self, o, n, *dflt):
        try:
            return getattr(o, n)
        except AttributeError:
            if (isinstance(o, _STANDINS) or isinstance(o, Num)) and not n.startswith('__') \
                    and any(hasattr(t, n) for t in _stands_for(o)):
                raise Unsupported('%s of %s' % (n, type(o).__name__))
            if dflt:
                return dflt[0]
            raise

    # ------------------------------------------------------------ statements
    def block(self, body, fr, top=False):
        for n, s in enumerate(body):
            if top and guard.ON and isinstance(s, ast.If) and s.body and isinstance(s.body[-1], ast.Return):
                t = guard.cond_of(self.expr(s.test, fr))
                if isinstance(t, GBool):
                    # 'if present: return x': the rest of the function runs where the condition fails
                    raise _Return(self.guarded_return(t, s.body, list(s.orelse) + list(body[n + 1:]), fr))
                self.block(s.body if truth(t) else s.orelse, fr, top)
                continue
            if guard.ON and isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], ast.Continue):
                t = guard.cond_of(self.expr(s.test, fr))
                if isinstance(t, GBool):
                    # 'if present: ...; continue': the rest runs where the condition fails
                    self.guarded_if(t, s.body[:-1], body[n + 1:], fr)
                    return
                if truth(t):
                    self.block(s.body, fr)
                continue
            self.stmt(s, fr)

    def guarded_if(self, t, body, orelse, fr):
        """Both branches under their guards; variables are merged."""
        if fr.kind == 'module':
            raise Unsupported('presence condition at module level')
        orig, before = fr.vars, dict(fr.vars)
        with guard.guarded(t.conds):
            self.guarded_block(body, fr)
        then = dict(fr.vars)
        if not orelse:
            els = before
        else:
            fr.vars = dict(before)
            with guard.guarded(guard.negs(t.conds)):
                self.guarded_block(orelse, fr)
            els = fr.vars
        self.merge_vars(fr, orig, t.conds, then, els)

    def guarded_return(self, t, body, rest, fr):
        before = dict(fr.vars)
        vals = []
        for conds, b in ((t.conds, body), (guard.negs(t.conds), rest)):
            fr.vars = dict(before)
            v = None
            with guard.guarded(conds):
                try:
                    self.block(b, fr, True)
                except _Return as r:
                    v = r.v
            vals.append(v)
        return guard.merge(t.conds, *vals)

    def guarded_block(self, body, fr):
        try:
            self.block(body, fr)
        except (_Return, _Break):
            raise Unsupported('return or break that depends on the presence of a name')
        except _Continue:
            raise Unsupported('continue that depends on the presence of a name')

    def merge_vars(self, fr, orig, conds, new, old):
        """fr.vars := new where conds hold, old elsewhere"""
        out = {}
        for k in list(old) + [k for k in new if k not in old]:
            a, b = new.get(k, _UNSET), old.get(k, _UNSET)
            if a is b:
                out[k] = a
                continue
            if a is _UNSET or b is _UNSET:
                out[k] = _Poison(k)
                continue
            try:
                out[k] = guard.merge(conds, a, b)
            except Unsupported:
                out[k] = _Poison(k)
        orig.clear()
        orig.update(out)
        fr.vars = orig

    def guarded_for(self, s, ents, fr):
        """Loop over a collection with conditional elements: each iteration
        under the condition that the element is there."""
        if fr.kind == 'module':
            raise Unsupported('presence condition at module level')
        targets = set(_target_names(s.target))
        for conds, x in ents:
            g = guard.guarded(conds)
            if g.skip:
                continue
            if g.plain:
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except _Break:
                    return
                except _Continue:
                    pass
                continue
            orig, before = fr.vars, dict(fr.vars)
            with g:
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except _Continue:
                    pass
                except (_Return, _Break):
                    raise Unsupported('return or break that depends on the presence of a name')
            self.merge_vars(fr, orig, tuple(g.new), dict(fr.vars), before)
            for n in targets:
                fr.vars[n] = _Poison(n)
        self.block(s.orelse, fr)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s (%s:%d)' % (type(s).__name__, fr.mod.path, s.lineno))
        return m(s, fr)

    def s_Expr(self, s, fr):
        self.expr(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise _Return(self.expr(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_Global(self, s, fr):
        pass
    s_Nonlocal = s_Global

    def s_Assign(self, s, fr):
        v = self.expr(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, fr)
            if guard.STACK and not isinstance(o, (NDArray, PartView)):
                raise Unsupported('attribute assigned under a presence condition')
            setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, fr)
            i = self.expr(t.slice, fr)
            self.setitem(o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('assignment target')

    def setitem(self, o, i, v):
        if isinstance(o, _OneKey):
            o[i] = v
            return
        if guard.STACK and not isinstance(o, (GDict, NDArray, PartView)) and not guard.may_modify(o):
            raise Unsupported('container modified under a presence condition')
        if isinstance(o, dict) and not isinstance(o, SMap) and _symkey(i):
            # host dict with a symbolic key: compare with the existing keys
            for k in list(o):
                if bool(key_eq(k, i)):
                    o[k] = v
                    return
            o[i] = v
            return
        o[i] = v

    def unpack(self, elts, v, fr):
        if isinstance(v, (SMap, SIter, SSeq, SSet)):
            raise Unsupported('unpacking a symbolic sequence')
        vals = list(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            tail = len(elts) - i - 1
            if len(vals) < len(elts) - 1:
                raise ValueError('not enough values to unpack')
            parts = vals[:i] + [vals[i:len(vals) - tail]] + vals[len(vals) - tail:]
        else:
            if len(vals) != len(elts):
                raise ValueError('%s values to unpack (expected %d, got %d)' % (
                    'too many' if len(vals) > len(elts) else 'not enough', len(elts), len(vals)))
            parts = vals
        for e, x in zip(elts, parts):
            self.assign(e, x, fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        rhs = None
        if isinstance(s.op, ast.Div):
            def op0(a, b):
                if is_hostnum(a) and is_hostnum(b):
                    return py_div(a, b)
                return operator.itruediv(a, b)
        else:
            op0 = _ibin[type(s.op)]

        def op(a, b):
            return model_op(op0, a, b)
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            if guard.STACK and isinstance(cur, (list, set)) and not guard.may_modify(cur):
                raise Unsupported('container modified under a presence condition')
            self.assign_name(t.id, op(cur, self.expr(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, fr)
            setattr(o, t.attr, op(getattr(o, t.attr), self.expr(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, fr)
            i = self.expr(t.slice, fr)
            self.setitem(o, i, op(self.getitem(o, i), self.expr(s.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    def s_Delete(self, s, fr):
        if guard.STACK:
            raise Unsupported('del under a presence condition')
        for t in s.targets:
            if isinstance(t, ast.Name):
                del fr.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, fr)
                del o[self.expr(t.slice, fr)]
            elif isinstance(t, ast.Attribute):
                delattr(self.expr(t.value, fr), t.attr)
            else:
                raise Unsupported('del')

    def s_If(self, s, fr):
        t = self.expr(s.test, fr)
        if guard.ON:
            t = guard.cond_of(t)
            if isinstance(t, GBool):
                return self.guarded_if(t, s.body, s.orelse, fr)
        if truth(t):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_While(self, s, fr):
        n = 0
        while True:
            c = self.expr(s.test, fr)
            if isinstance(c, SBool):
                raise Unsupported('while loop on a symbolic condition')
            if not truth(c):
                self.block(s.orelse, fr)
                break
            n += 1
            if n > 100000:
                raise Unsupported('while loop bound')
            try:
                self.block(s.body, fr)
            except _Break:
                break
            except _Continue:
                continue

    def s_For(self, s, fr):
        it = self.expr(s.iter, fr)
        if isinstance(it, SMap):
            it = SIter(it.frozen(), 'keys')
        if isinstance(it, (SIter, SSeq, SSet)):
            return self.sym_for(s, it, fr)
        if guard.ON and guard.conditional(it):
            return self.guarded_for(s, guard.entries(it), fr)
        for x in it:
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not truth(self.expr(s.test, fr)):
            msg = self.expr(s.msg, fr) if s.msg is not None else ''
            raise AssertionError(msg)

    def s_Raise(self, s, fr):
        if s.exc is None:
            e = self.cur_exc[-1] if getattr(self, 'cur_exc', None) else None
            if e is None:
                raise RuntimeError('No active exception to reraise')
            raise e
        e = self.expr(s.exc, fr)
        if isinstance(e, type):
            e = e()
        if s.cause is not None:
            c = self.expr(s.cause, fr)
            raise e from c
        raise e

    def s_Try(self, s, fr):
        try:
            try:
                guard.TRY += bool(s.handlers)
                try:
                    self.block(s.body, fr)
                finally:
                    guard.TRY -= bool(s.handlers)
            except (Unsupported, PathAbort, _Return, _Break, _Continue):
                raise
            except BaseException as ex:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        T = _unproxy(self.expr(h.type, fr))
                        ok = isinstance(ex, T)
                    if ok:
                        if h.name:
                            self.assign_name(h.name, ex, fr)
                        self.cur_exc = getattr(self, 'cur_exc', []) + [ex]
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.cur_exc = self.cur_exc[:-1]
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        def rec(i):
            if i == len(s.items):
                self.block(s.body, fr)
                return
            cm = self.expr(s.items[i].context_expr, fr)
            with cm as v:
                if s.items[i].optional_vars is not None:
                    self.assign(s.items[i].optional_vars, v, fr)
                rec(i + 1)
        rec(0)

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                self.assign_name(a.asname, m, fr)
            else:
                self.assign_name(a.name.split('.')[0], self.load(a.name.split('.')[0]), fr)

    def s_ImportFrom(self, s, fr):
        name = self._resolve_rel(fr, s.level, s.module)
        if name == '__future__':
            return
        for a in s.names:
            if a.name == '*':
                m = self.load(name)
                for k, v in list(vars(m).items()):
                    if not k.startswith('_'):
                        self.assign_name(k, v, fr)
            else:
                self.assign_name(a.asname or a.name, self.import_from(name, a.name), fr)

    def _qual(self, fr, name):
        if fr.kind == 'class':
            return fr.func + '.' + name
        if fr.kind == 'func' and fr.func is not None:
            return fr.func.__qualname__ + '.<locals>.' + name
        return name

    def mkfunc(self, node, fr):
        defaults = [self.expr(d, fr) for d in node.args.defaults]
        kwd = {a.arg: self.expr(d, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        parent = fr
        while parent is not None and parent.kind in ('class',):
            parent = parent.parent
        if parent is not None and parent.kind == 'module':
            parent = None
        nm = getattr(node, 'name', '<lambda>')
        return PFunc(self, node, parent, fr.mod, self._qual(fr, nm), defaults, kwd)

    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr)
        if fr.kind == 'class':
            fr.vars.setdefault('__pfuncs__', []).append(f)
        for d in reversed(s.decorator_list):
            f = self.call(self.expr(d, fr), [f], {})
        self.assign_name(s.name, f, fr)

    def s_ClassDef(self, s, fr):
        bases = [_unproxy(self.expr(b, fr)) for b in s.bases]
        kw = {k.arg: self.expr(k.value, fr) for k in s.keywords}
        meta = kw.pop('metaclass', None)
        q = self._qual(fr, s.name)
        cf = Frame(fr.mod, fr, 'class', q)
        cf.vars = {'__module__': fr.mod.name, '__qualname__': q}
        self.block(s.body, cf)
        ns = dict(cf.vars)
        pf = ns.pop('__pfuncs__', [])
        if meta is None:
            meta = type
            for b in bases:
                if issubclass(type(b), meta):
                    meta = type(b)
        cls = meta(s.name, tuple(bases), ns, **kw)
        for f in pf:
            f.defclass = cls
        for d in reversed(s.decorator_list):
            cls = self.call(self.expr(d, fr), [cls], {})
        self.assign_name(s.name, cls, fr)

    # ------------------------------------------------------------ expressions
    def expr(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s (%s:%d)' % (type(e).__name__, fr.mod.path, e.lineno))
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, (float, complex)) and not isinstance(v, bool):
            return num(v)
        return v

    def e_Name(self, e, fr):
        v = self.lookup(e.id, fr)
        return v.resolve() if type(v) is GOpt else v

    def e_Attribute(self, e, fr):
        return self.getattr(self.expr(e.value, fr), e.attr)

    def getitem(self, o, i):
        if isinstance(o, _OneKey):
            return o[i]
        if isinstance(o, dict) and not isinstance(o, SMap) and _symkey(i):
            for k in list(o):
                if bool(key_eq(k, i)):
                    return o[k]
            raise KeyError(i)
        if isinstance(o, _TypeProxy):
            return o
        return o[i]

    def e_Subscript(self, e, fr):
        return self.getitem(self.expr(e.value, fr), self.expr(e.slice, fr))

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.expr(x, fr)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, fr):
        return tuple(self._elts(e.elts, fr))

    def e_List(self, e, fr):
        return guard.note(self._elts(e.elts, fr))

    def e_Set(self, e, fr):
        return guard.note(set(self._elts(e.elts, fr)))

    def _elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, fr)
                if isinstance(v, (SMap, SIter, SSeq, SSet)):
                    raise Unsupported('star of symbolic sequence')
                out.extend(v)
            else:
                out.append(self.expr(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = guard.newdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.expr(v, fr)
                if isinstance(o, SMap):
                    d = to_smap(d, o.arity) if not isinstance(d, SMap) else d
                    d.update(o)
                else:
                    d.update(o)
            else:
                kk = self.expr(k, fr)
                self.setitem(d, kk, self.expr(v, fr))
        return d

    def e_BinOp(self, e, fr):
        a = self.expr(e.left, fr)
        b = self.expr(e.right, fr)
        if isinstance(e.op, ast.Div):
            return model_op(py_div, a, b)
        if isinstance(e.op, ast.Mod) and isinstance(a, str):
            return _percent(a, b)
        if isinstance(e.op, ast.Pow) and is_hostnum(a) and is_hostnum(b) and not (isinstance(a, int) and isinstance(b, int) and b >= 0):
            return num(a) ** b
        return model_op(_bin[type(e.op)], a, b)

    def e_UnaryOp(self, e, fr):
        v = self.expr(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if guard.ON:
                v = guard.cond_of(v)
                if isinstance(v, GBool):
                    return v.neg()
            if isinstance(v, (bool, SBool)):
                return s_not(v)
            if isinstance(v, Num):
                return v == 0
            return not truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.expr(x, fr)
            if guard.ON:
                c = guard.cond_of(v)
                if isinstance(c, GBool):
                    return self.guarded_boolop(e, i, isand, v, c, fr)
            if i == len(e.values) - 1:
                return v
            t = truth(v)
            if isand and not t:
                return v if not isinstance(v, SBool) else False
            if not isand and t:
                return v if not isinstance(v, SBool) else True
        return v

    def guarded_boolop(self, e, i, isand, v, c, fr):
        if i == len(e.values) - 1:
            return c if v is c else v
        rest = e.values[i + 1] if i == len(e.values) - 2 else ast.BoolOp(op=e.op, values=e.values[i + 1:])
        if not isand and v is not c:
            # x or y with x a collection: x where it is not empty
            with guard.guarded(guard.negs(c.conds)):
                y = self.expr(rest, fr)
            if isinstance(v, GDict) and isinstance(y, dict) and not isinstance(y, SMap) \
                    and not guard.conditional(y) and not len(y):
                return v
            raise Unsupported('or of conditional collections')
        if isand:
            with guard.guarded(c.conds):
                y = self.expr(rest, fr)
                y = guard.cond_of(y)
                if not isinstance(y, (bool, GBool)):
                    y = self._concrete(y)
            return guard.conj(c, y)
        with guard.guarded(guard.negs(c.conds)):
            y = guard.cond_of(self.expr(rest, fr))
            if not isinstance(y, (bool, GBool)):
                y = self._concrete(y)
        return guard.disj(c, y)

    def _concrete(self, y):
        if isinstance(y, (SBool, Num)):
            raise Unsupported('presence condition combined with a symbolic one')
        return truth(y)

    def e_Compare(self, e, fr):
        left = self.expr(e.left, fr)
        res = True
        for n, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.expr(r, fr)
            t = type(op)
            if t is ast.In:
                v = contains(right, left)
            elif t is ast.NotIn:
                v = _tb(contains(right, left))
                v = v.neg() if isinstance(v, GBool) else s_not(v)
            elif t is ast.Is:
                v = _is(left, right)
            elif t is ast.IsNot:
                v = _is(left, right)
                v = v.neg() if isinstance(v, GBool) else s_not(v)
            elif t is ast.Eq:
                v = py_eq(left, right)
            elif t is ast.NotEq:
                v = py_eq(left, right)
                if isinstance(v, (bool, SBool)):
                    v = s_not(v)
                else:
                    v = left != right
            else:
                v = _cmp[t](left, right)
            if len(e.ops) == 1:
                return v
            if n == len(e.ops) - 1:
                return v
            if not truth(v):
                return False
            left = right
        return res

    def e_IfExp(self, e, fr):
        r = self._same_branches(e, fr)
        if r is not None:
            return r
        t = self.expr(e.test, fr)
        if guard.ON:
            t = guard.cond_of(t)
            if isinstance(t, GBool):
                with guard.guarded(t.conds):
                    a = self.expr(e.body, fr)
                with guard.guarded(t.neg().conds):
                    b = self.expr(e.orelse, fr)
                return guard.merge(t.conds, a, b)
        return self.expr(e.body if truth(t) else e.orelse, fr)

    def _same_branches(self, e, fr):
        """a if x != 0 else b, where b = a for x = 0: no case distinction."""
        def pure(n):
            while isinstance(n, ast.Attribute):
                n = n.value
            return isinstance(n, (ast.Name, ast.Constant))
        t, on = e.test, True
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, on = t.operand, False
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.NotEq)) \
                and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
            on = on == isinstance(t.ops[0], ast.NotEq)
            t = t.left
        if not (pure(t) and isinstance(t, ast.Attribute) and pure(e.body) and pure(e.orelse)):
            return None
        try:
            c = self.expr(t, fr)
            if not isinstance(c, Num) or c.is_const():
                return None
            a, b = self.expr(e.body, fr), self.expr(e.orelse, fr)
            if not on:
                a, b = b, a
            if not (isinstance(a, Num) and isinstance(b, Num)):
                return None
        except (Unsupported, AttributeError):
            return None
        d = (a - b).p
        m = next(iter(c.p))
        if m not in d:
            return None
        if not (num(Num(d, 'complex')) * Num({P.ONE: c.p[m]}, 'complex') - Num(c.p, 'complex') * Num({P.ONE: d[m]}, 'complex')).p:
            return a
        return None

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.expr(e.value, fr)
        f = fr
        while f.kind == 'comp':
            f = f.parent
        self.assign_name(e.target.id, v, f)
        return v

    def e_JoinedStr(self, e, fr):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.expr(p.value, fr)
                if p.conversion == 114:
                    v = repr(v)
                elif p.conversion == 115:
                    v = str(v)
                spec = self.e_JoinedStr(p.format_spec, fr) if p.format_spec is not None else ''
                out.append(format(v, spec))
        return ''.join(out)

    def e_FormattedValue(self, e, fr):
        return format(self.expr(e.value, fr))

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_Yield(self, e, fr):
        f = fr
        while f.kind == 'comp':
            f = f.parent
        f.yields.append(self.expr(e.value, fr) if e.value else None)
        return None

    def e_YieldFrom(self, e, fr):
        f = fr
        while f.kind == 'comp':
            f = f.parent
        for x in self.expr(e.value, fr):
            f.yields.append(x)
        return None

    def e_Call(self, e, fr):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and not (f.kind == 'func' and f.func is not None and f.func.defclass is not None):
                f = f.parent
            if f is None:
                raise RuntimeError('super(): no arguments')
            return super(f.func.defclass, f.vars[f.func.params[0]])
        if isinstance(e.func, ast.Name) and e.func.id == 'locals' and not e.args:
            raise Unsupported('locals()')
        fn = self.expr(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, fr)
                if isinstance(v, (SMap, SIter, SSeq, SSet)):
                    raise Unsupported('*args of symbolic sequence')
                args.extend(v)
            else:
                args.append(self.expr(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.expr(k.value, fr)
                if isinstance(o, SMap):
                    kw['**'] = o
                    continue
                if guard.conditional(o) and isinstance(o, GDict) and len(e.keywords) == 1 and len(args) < 2 and e.func.__class__ is ast.Name \
                        and e.func.id == 'dict' and all(isinstance(x, str) for x in dict.keys(o)):
                    r = self.call(fn, args, {})
                    if isinstance(r, GDict):
                        r.update(o)
                        return r
                for kk in o:
                    if kk in kw:
                        raise TypeError('multiple values for keyword argument %s' % kk)
                    kw[kk] = o[kk]
            else:
                kw[k.arg] = self.expr(k.value, fr)
        if '**' in kw:
            raise Unsupported('**kwargs of symbolic map')
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'update' and len(args) == 1 \
                and isinstance(getattr(fn, '__self__', None), (dict, SMap)):
            # pairs
            if isinstance(args[0], SSeq):
                args = [_map_of_pairs(args[0])]
            elif isinstance(args[0], SIter) and args[0].what == 'items':
                args = [args[0].m.frozen()]
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'update' and isinstance(e.func.value, ast.Name) \
                and len(args) == 1 and isinstance(args[0], SMap) and not kw:
            o = getattr(fn, '__self__', None)
            if isinstance(args[0], OptMap) and type(o) in (dict, _coll.OrderedDict, _coll.defaultdict) and not o \
                    and fr.kind != 'module' and self._only_reference(o, fr, e.func.value.id):
                m = args[0].frozen()
                f = getattr(o, 'default_factory', None)
                m.factory = (lambda: self.call(f, [], {})) if f is not None else None
                fr.vars[e.func.value.id] = m
                return None
            if type(o) in (dict, _coll.OrderedDict) and fr.kind != 'module' and self._only_reference(o, fr, e.func.value.id):
                # a local dictionary nobody else refers to: continue with a symbolic one
                m = to_smap(o, args[0].arity)
                m.update(args[0])
                fr.vars[e.func.value.id] = m
                return None
        return self.call(fn, args, kw)

    def _only_reference(self, o, fr, name):
        import gc
        import types as _t
        if fr.vars.get(name) is not o:
            return False
        for r in gc.get_referrers(o):
            if r is fr.vars or isinstance(r, (_t.FrameType, _t.BuiltinMethodType)):
                continue
            return False
        n = 0
        for v in fr.vars.values():
            n += v is o
        return n == 1

    def call(self, fn, args, kw):
        if isinstance(fn, _TypeProxy):
            return fn.ctor(*args, **kw)
        if args and isinstance(args[0], (SMap, SIter, SSeq, SSet)):
            if getattr(fn, '__name__', '') == 'join' and isinstance(getattr(fn, '__self__', None), str):
                # text assembled from a sequence of any length
                if CTX.engine.text:
                    return _fold_text(fn.__self__, args[0])
                return SStr.fresh('join%d' % CTX.engine.fresh_id())
            if fn is _coll.Counter:
                if isinstance(args[0], SSeq):
                    return SCounter(args[0])
                raise Unsupported('Counter of a symbolic collection')
        if CTX.engine is not None and CTX.engine.text:
            o = getattr(fn, '__self__', None)
            if isinstance(o, str):
                name = getattr(fn, '__name__', '')
                if name == 'join' and args and isinstance(args[0], (list, tuple)):
                    return o.join([format(x) if isinstance(x, SStr) else x for x in args[0]])
                if '\u27e6' in o and name not in ('format', 'join', 'format_map'):
                    raise Unsupported('str.%s of a text with unknown parts' % name)
        if guard.ON:
            if fn in _MAPTYPES and not (args and isinstance(args[0], (SMap, SIter, SSeq))):
                return GDict(*args, **kw)
            if fn is _coll.defaultdict and not (len(args) > 1 and isinstance(args[1], SMap)):
                r = GDict(*args[1:], **kw)
                f = args[0] if args else None
                r.factory = (lambda: self.call(f, [], {})) if f is not None else None
                return r
            o = getattr(fn, '__self__', None)
            if type(o) in (dict, _coll.OrderedDict):
                name = getattr(fn, '__name__', '')
                if name == 'copy':
                    return GDict(o)
                if name == 'update' and args and guard.conditional(args[0]):
                    raise Unsupported('update of a plain dictionary with conditional entries')
            if fn is _copy.copy and args and type(args[0]) in (dict, _coll.OrderedDict):
                return GDict(args[0])
            if guard.STACK:
                if isinstance(o, (dict, list, set)) and not isinstance(o, (GDict, SMap)) and not guard.may_modify(o) \
                        and getattr(fn, '__name__', '') in _MUTATORS:
                    raise Unsupported('container modified under a presence condition')
        if args and fn in _MAPTYPES and isinstance(args[0], (SMap, SIter)):
            # a new mapping with the same content
            m = args[0]
            if isinstance(m, SIter):
                if m.what != 'items':
                    raise Unsupported('mapping of keys')
                m = m.m
            r = m.copy()
            if kw:
                r.update(**kw)
            return r
        if args and fn in _MAPTYPES and isinstance(args[0], SSeq):
            r = _map_of_pairs(args[0])
            if kw:
                r.update(**kw)
            return r
        if fn is _coll.defaultdict and len(args) == 2 and isinstance(args[1], SMap):
            if not isinstance(args[1], OptMap) or kw:
                raise Unsupported('defaultdict of a symbolic map')
            f = args[0]
            return args[1].with_factory(lambda: self.call(f, [], {}))
        args, kw = [_unproxy(a) for a in args], {k: _unproxy(v) for k, v in kw.items()}
        if _host_callable(fn):
            return model_op(fn, *args, **kw)
        return fn(*args, **kw)

    # ------------------------------------------------------------ comprehensions
    def _comp_frame(self, fr):
        f = Frame(fr.mod, fr, 'comp')
        return f

    def _run_comp(self, gens, i, fr, emit):
        if i == len(gens):
            emit(fr)
            return
        g = gens[i]
        it = self.expr(g.iter, fr if i else fr.parent)
        if isinstance(it, (SMap, SIter, SSeq, SSet)):
            raise _SymComp()
        if guard.ON:
            for conds, x in (guard.entries(it) if guard.conditional(it) else (((), x) for x in it)):
                u = guard.guarded(conds)
                if u.skip:
                    continue
                with u:
                    self._bind_comp(g.target, x, fr)
                    self._guarded_ifs(gens, i, 0, fr, emit)
            return
        for x in it:
            self._bind_comp(g.target, x, fr)
            if all(truth(self.expr(c, fr)) for c in g.ifs):
                self._run_comp(gens, i + 1, fr, emit)

    def _guarded_ifs(self, gens, i, j, fr, emit):
        if j == len(gens[i].ifs):
            return self._run_comp(gens, i + 1, fr, emit)
        t = guard.cond_of(self.expr(gens[i].ifs[j], fr))
        if isinstance(t, GBool):
            with guard.guarded(t.conds):
                return self._guarded_ifs(gens, i, j + 1, fr, emit)
        if truth(t):
            self._guarded_ifs(gens, i, j + 1, fr, emit)

    def _collect(self, e, fr):
        """Elements of a comprehension, with their conditions if any."""
        out, base, any_ = [], guard.STACK, False
        f = self._comp_frame(fr)

        def emit(f):
            out.append((guard.STACK[len(base):], self.expr(e.elt, f)))
        self._run_comp(e.generators, 0, f, emit)
        return out, any(c for c, _ in out)

    def _bind_comp(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(v)
            if len(vals) != len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                raise ValueError('unpack')
            for a, b in zip(t.elts, vals):
                self._bind_comp(a, b, fr)
        else:
            raise Unsupported('comprehension target')

    def e_ListComp(self, e, fr):
        if guard.ON:
            try:
                out, cond = self._collect(e, fr)
            except _SymComp:
                return self.sym_seq(e, fr)
            return GSeq(out) if cond else guard.note([x for _, x in out])
        out = []
        f = self._comp_frame(fr)
        try:
            self._run_comp(e.generators, 0, f, lambda f: out.append(self.expr(e.elt, f)))
        except _SymComp:
            return self.sym_seq(e, fr)
        return out

    def e_SetComp(self, e, fr):
        if guard.ON:
            try:
                out, cond = self._collect(e, fr)
            except _SymComp:
                return to_sset(self.sym_seq(e, fr))
            return GSet(out) if cond else guard.note({x for _, x in out})
        out = set()
        f = self._comp_frame(fr)
        try:
            self._run_comp(e.generators, 0, f, lambda f: out.add(self.expr(e.elt, f)))
        except _SymComp:
            return to_sset(self.sym_seq(e, fr))
        return out

    def e_GeneratorExp(self, e, fr):
        if guard.ON:
            try:
                out, cond = self._collect(e, fr)
            except _SymComp:
                return self.sym_seq(e, fr)
            return GSeq(out) if cond else iter([x for _, x in out])
        out = []
        f = self._comp_frame(fr)
        try:
            self._run_comp(e.generators, 0, f, lambda f: out.append(self.expr(e.elt, f)))
        except _SymComp:
            return self.sym_seq(e, fr)
        return iter(out)

    def e_DictComp(self, e, fr):
        out = guard.newdict()
        f = self._comp_frame(fr)

        def emit(f):
            k = self.expr(e.key, f)
            self.setitem(out, k, self.expr(e.value, f))
        try:
            self._run_comp(e.generators, 0, f, emit)
        except _SymComp:
            return self.sym_dict(e, fr)
        return out

    # ------------------------------------------------------------ symbolic comprehension
    def _snapshot(self, fr):
        """Copy of the visible local environment (values are captured when the
        comprehension is evaluated; symbolic maps are frozen)."""
        f = Frame(fr.mod, None, 'comp')
        chain = []
        g = fr
        while g is not None and g.kind != 'module':
            chain.append(g)
            g = g.parent
        for g in reversed(chain):
            if g.kind == 'class':
                continue
            for k, v in g.vars.items():
                f.vars[k] = v.frozen() if isinstance(v, SMap) else v
        if chain:
            f.globalnames = chain[0].globalnames
        return f

    def sym_dict(self, e, fr):
        if len(e.generators) != 1:
            raise Unsupported('dict comprehension with several symbolic generators')
        g = e.generators[0]
        it = self.expr(g.iter, fr)
        if isinstance(it, SMap):
            it = SIter(it.frozen(), 'keys')
        env = self._snapshot(fr)
        if isinstance(it, SSet):
            src = SMap(lambda k: (it.contains(k), lambda: None), 'set', it.arity)
            it = SIter(src, 'keys')
        if isinstance(it, SSeq) and it.elt_is_last_key:
            # (a dict: what is repeated in the sequence counts once)
            seq = it
            src = SMap(lambda k: (seq.contains(k), lambda: None), 'seq', seq.arities[-1])
            it = SIter(src, 'keys')
        if not isinstance(it, SIter) or it.what == 'values':
            raise Unsupported('dict comprehension over %r' % (it,))
        base = it.m
        if isinstance(base, OptMap) and not g.ifs:
            # (no case distinction on the presence)
            def val(q):
                f = self._comp_frame(env)
                self._bind_comp(g.target, (q, base.value(q)) if it.what == 'items' else q, f)
                if key_eq(self.expr(e.key, f), q) is not True:
                    raise Unsupported('re-keying comprehension over a symbolic map')
                return self.expr(e.value, f)
            if not base.extra and base.factory is None:
                return OptMap(base.sname, val, base.state)

        def fn(q):
            p, _ = base.at(q)
            if p is False:
                return False, None
            if p is not True:
                if not bool(p):
                    return False, None
            f = self._comp_frame(env)
            self._bind_comp(g.target, it.bind(q), f)
            kk = self.expr(e.key, f)
            same = key_eq(kk, q)
            if same is not True:
                raise Unsupported('re-keying comprehension over a symbolic map')
            for c in g.ifs:
                if not truth(self.expr(c, f)):
                    return False, None
            return True, (lambda: self.expr(e.value, f))
        return SMap(fn, 'comp', base.arity)

    def sym_seq(self, e, fr):
        env = self._snapshot(fr)
        gens = e.generators
        first = self.expr(gens[0].iter, fr)

        # a position is a tuple of keys, one per generator
        def walk(pos):
            """(live, frame)"""
            f = self._comp_frame(env)
            live = True
            for i, g in enumerate(gens):
                it = first if i == 0 else self.expr(g.iter, f)
                if isinstance(it, SMap):
                    it = SIter(it.frozen(), 'keys')
                k = pos[i]
                if isinstance(it, SIter):
                    p = it.m.contains(k)
                    val = lambda: it.bind(k)
                elif isinstance(it, SSet):
                    p = it.contains(k)
                    val = lambda: k
                elif isinstance(it, SSeq) and len(it.arities) == 1:
                    p = it.live((k,))
                    val = lambda: it.elt((k,))
                else:
                    raise Unsupported('mixed concrete/symbolic generators')
                if p is not True:
                    if p is False or not bool(p):
                        return False, f
                self._bind_comp(g.target, val(), f)
                for c in g.ifs:
                    if not truth(self.expr(c, f)):
                        return False, f
            return live, f

        def live(pos):
            return walk(pos)[0]

        def elt(pos):
            l, f = walk(pos)
            if not l:
                raise PathAbort()
            return self.expr(e.elt, f)
        arities = [0] * len(gens)
        if isinstance(first, SMap):
            arities[0] = first.arity
        elif isinstance(first, SIter):
            arities[0] = first.m.arity
        elif isinstance(first, SSet):
            arities[0] = first.arity
        elif isinstance(first, SSeq) and len(first.arities) == 1:
            arities[0] = first.arities[0]
        # is the element the key of the last generator?
        lastkey = False
        t = gens[-1].target
        if isinstance(e.elt, ast.Name):
            if isinstance(t, ast.Name) and t.id == e.elt.id:
                lastkey = 'maybe'
            elif isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name) and t.elts[0].id == e.elt.id:
                lastkey = True
        if lastkey == 'maybe':
            # iterating keys (map itself, keys(), set) -> element is the key
            last = gens[-1].iter
            lastkey = not (isinstance(last, ast.Call) and isinstance(last.func, ast.Attribute)
                           and last.func.attr in ('values', 'items'))
            if len(gens) == 1:
                if isinstance(first, SIter):
                    lastkey = first.what == 'keys'
                elif isinstance(first, SSeq):
                    lastkey = first.elt_is_last_key and len(first.arities) == 1
        return SSeq(arities, live, elt, bool(lastkey))

    def _append_seq(self, s, n, fresh_accs, present, run, arity):
        """List built by appends in a loop over a symbolic map."""
        def got(k):
            p = present(k)
            if p is False or (p is not True and not bool(p)):
                return []
            acc = _OneList()
            try:
                run(k, {**fresh_accs(k), n: acc})
            except (Unsupported, PathAbort):
                raise
            except _Break:
                raise Unsupported('break')
            except Exception:
                raise PathAbort()
            r = list.copy(acc)
            if len(r) > 1:
                raise Unsupported('several elements per iteration')
            return r

        def elt(pos):
            r = got(pos[0])
            if not r:
                raise PathAbort()
            return r[0]
        # the element is the loop key?
        key = s.target.id if isinstance(s.target, ast.Name) else None
        if isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and isinstance(s.iter, ast.Call) \
                and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == 'items':
            key = s.target.elts[0].id
        elif isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr in ('values', 'items'):
            key = None
        args = [c.args for st in s.body for c in ast.walk(st) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
                and c.func.attr == 'append' and isinstance(c.func.value, ast.Name) and c.func.value.id == n]
        it = self._loop_iter
        iskey = isinstance(it, (SMap, SSet)) or (isinstance(it, SIter) and it.what in ('keys', 'items')) \
            or (isinstance(it, SSeq) and it.elt_is_last_key)
        last = bool(args) and key is not None and iskey and key not in _stored(s.body) and \
            all(len(a) == 1 and isinstance(a[0], ast.Name) and a[0].id == key for a in args)
        return SSeq([arity], lambda pos: bool(got(pos[0])), elt, last)

    # ------------------------------------------------------------ symbolic for
    def sym_for(self, s, it, fr):
        """Loop over a symbolic map.  Two cases are forked: (A) some iteration
        leaves the loop abnormally (raise/return/break): that iteration is run
        for a witness key; (B) no iteration does: the effects on dictionaries
        written at the loop key are summarised pointwise."""
        eng = CTX.engine
        self._loop_iter = it
        if s.orelse:
            raise Unsupported('for-else over a symbolic map')
        if isinstance(it, SSeq):
            if len(it.arities) != 1:
                raise Unsupported('loop over nested symbolic sequence')
            seq = it
            present = lambda k: seq.live((k,))
            bind = lambda k: seq.elt((k,))
            arity = seq.arities[0]
        elif isinstance(it, SSet):
            present, bind, arity = it.contains, (lambda k: k), it.arity
        else:
            present, bind, arity = it.m.contains, it.bind, it.m.arity
        f = fr
        while f.kind == 'comp':
            f = f.parent
        before = dict(f.vars)
        accs = _assigned_containers(s.body, before)
        stored = _stored(s.body) | _target_names(s.target)
        _frame_check(s.body, before, stored)
        flags = _flags(s.body, before)
        unions = [n for n in accs if isinstance(before[n], dict) and _only_updates(s.body, n)]

        def fresh_accs(k):
            # one iteration may write to the accumulators; what earlier
            # iterations left there is not known
            return {m: _OneUnion() if m in unions else
                    _OneKey(k) if isinstance(before[m], (dict, SMap)) else
                    _OneList() if isinstance(before[m], list) else _OneSet() for m in accs}
        texts = {}
        if eng.text:
            loads = {n.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            augs = {n.target.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
            texts = {n: eng.fmt_token(Prev(n), '') for n in stored if type(before.get(n)) in (str, SStr) and n in loads | augs
                     and n not in _target_names(s.target)}

        def run(k, scratch, holder=None):
            """execute the body once in a scratch frame; returns outcome"""
            sf = Frame(f.mod, f.parent, 'func', f.func)
            sf.localnames = f.localnames
            sf.globalnames = f.globalnames
            sf.nonlocalnames = f.nonlocalnames
            sf.vars = dict(before)
            sf.vars.update(texts)
            sf.vars.update(scratch)
            if f.kind == 'module':
                raise Unsupported('module-level loop over a symbolic map')
            if holder is not None:
                holder['f'] = sf
            self.assign(s.target, bind(k), sf)
            try:
                self.block(s.body, sf)
            except _Continue:
                pass
            for n in accs:
                if sf.vars.get(n) is not scratch[n]:
                    raise Unsupported('accumulator %s replaced in a loop over a symbolic map' % n)
            for n, v in sf.vars.items():
                if n in before and n not in scratch and n not in texts and v is not before[n] and n not in _target_names(s.target) and n not in _stored_first(s.body):
                    raise Unsupported('loop-carried variable %s over a symbolic map' % n)
            return sf

        exits = _may_exit(s.body)
        if eng.text and not any(isinstance(n, (ast.Raise, ast.Return, ast.Break, ast.Assert)) for st in s.body for n in ast.walk(st)):
            exits = False     # an exception in the body shows when the text at an arbitrary position is asked for
        if exits:
            tag = ('loopexit', id(s), eng.fresh_id())
            b = eng.decide(SBool(__import__('z3').Bool('loopexit!%d' % eng.fresh_id())))
            if b:
                w = fresh_key('w', arity)
                eng.add_key(w)
                eng.assume(present(w))
                holder = {}
                if accs:
                    for n in accs:
                        f.vars[n] = _Poison(n)    # what the iterations before left
                try:
                    run(w, fresh_accs(w), holder)
                except _Break:
                    if accs:
                        raise Unsupported('break in a loop over a symbolic map')
                    sf = holder['f']
                    for n in stored:
                        if n in flags and sf.vars.get(n) is not before[n]:
                            f.vars[n] = sf.vars[n]
                        else:
                            f.vars[n] = _Poison(n)
                    return
                raise PathAbort()     # iteration completed normally: not case A
            else:
                def bad(k):
                    p = present(k)
                    if p is False or (p is not True and not bool(p)):
                        return False
                    try:
                        run(k, fresh_accs(k))
                    except (Unsupported, PathAbort):
                        raise
                    except BaseException:
                        return True
                    return False
                eng.add_universal(bad, arity)
        for n, c in flags.items():
            if c is before[n]:
                continue

            def sets(k, n=n):
                p = present(k)
                if p is False or (p is not True and not bool(p)):
                    return False
                return run(k, fresh_accs(k)).vars[n] is not before[n]
            f.vars[n] = c if exists(sets, arity, ('flag', id(s), n, eng.fresh_id())) else before[n]
        for n in stored:
            if n not in flags:
                f.vars[n] = _Poison(n)
        for n, prev in texts.items():
            def body(pos, n=n, prev=prev):
                p = present(pos[0])
                if p is False or (p is not True and not bool(p)):
                    raise PathAbort()
                v = run(pos[0], fresh_accs(pos[0])).vars[n]
                if isinstance(v, SStr):
                    v = format(v)
                if not isinstance(v, str) or not v.startswith(prev) or prev in v[len(prev):]:
                    raise Unsupported('loop does not only append to the text %s' % n)
                return v[len(prev):]
            f.vars[n] = format(before[n]) + eng.fmt_token(Fold([arity], (lambda pos: present(pos[0])), body), '')
        for n in accs:
            old = before[n]
            if n in unions and self._union_acc(s, n, old, before, present, run, arity, f, fresh_accs):
                pass
            elif type(old) is list and not old:
                f.vars[n] = self._append_seq(s, n, fresh_accs, present, run, arity)
            elif isinstance(old, SMap) or (isinstance(old, dict)):
                base = to_smap(old, arity)

                def fn(q, n=n, base=base, old=old):
                    p = present(q)
                    if p is not False and (p is True or bool(p)):
                        acc = _OneKey(q)
                        try:
                            run(q, {**fresh_accs(q), n: acc})
                        except (Unsupported, PathAbort):
                            raise
                        except _Break:
                            raise Unsupported('break')
                        except _Return:
                            raise PathAbort()
                        except Exception:
                            raise PathAbort()
                        if acc.written:
                            return True, (lambda: acc.value)
                    return base.at(q)
                f.vars[n] = SMap(fn, 'loop', arity)
            else:
                raise Unsupported('accumulator %s (%s) in a loop over a symbolic map' % (n, type(old).__name__))

    def _union_acc(self, s, n, old, before, present, run, arity, f, fresh_accs):
        """Accumulator that is only updated with whole maps: a name is in the
        result if it was there before or some iteration adds it; its value is the
        one of an (arbitrary) iteration that adds it, or the one from before."""
        eng = CTX.engine
        tag = eng.fresh_id()

        def added(k):
            p = present(k)
            if p is False or (p is not True and not bool(p)):
                return []
            acc = _OneUnion()
            try:
                run(k, {**fresh_accs(k), n: acc})
            except (Unsupported, PathAbort):
                raise
            except _Break:
                raise Unsupported('break')
            except (_Return, Exception):
                raise PathAbort()
            return acc.maps
        base = to_smap(old, 0)
        found = {}

        def fn(q):
            key = repr(q)
            if key not in found:
                box = {}

                def pred(w):
                    ms = [to_smap(m, 0) for m in added(w)]
                    for m in reversed(ms):
                        pr, v = m.at(q)
                        if pr is True or (pr is not False and bool(pr)):
                            box['v'] = v
                            return True
                    return False
                yes = exists(pred, arity, ('union', tag, key), keep=found)
                found[key] = box.get('v') if yes else None
                if yes and found[key] is None:
                    raise PathAbort()
            if found[key] is not None:
                v = found[key]
                return True, v
            return base.at(q)
        f.vars[n] = SMap(fn, 'union', 0)
        return True



class _OneSet(set):
    """Stands for a set accumulator in one iteration."""
    def add(self, x):
        pass

    def _no(self, *a, **k):
        raise Unsupported('loop reads its accumulator')
    __contains__ = __iter__ = __len__ = __bool__ = pop = copy = union = update = _no
    __or__ = __ior__ = __and__ = __sub__ = __eq__ = difference = intersection = issubset = issuperset = _no


class _OneUnion(dict):
    """Stands for an accumulator in one iteration that is only updated."""
    def __init__(self):
        self.maps = []

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, SMap):
                self.maps.append(o.frozen())
            elif isinstance(o, dict):
                self.maps.append(dict(o))
            else:
                raise Unsupported('update from %r' % (o,))
        if kw:
            self.maps.append(dict(kw))

    def _no(self, *a, **k):
        raise Unsupported('loop reads its accumulator')
    get = __contains__ = items = keys = values = pop = setdefault = __iter__ = __len__ = copy = __delitem__ = _no
    __getitem__ = __setitem__ = __bool__ = __eq__ = __ne__ = __or__ = __ror__ = __ior__ = popitem = clear = _no
    __hash__ = None


def _only_updates(body, n):
    """The loop body uses the dictionary n only in statements n.update(x)."""
    ok = set()
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) \
                    and x.value.func.attr == 'update' and isinstance(x.value.func.value, ast.Name) \
                    and x.value.func.value.id == n and len(x.value.args) == 1 and not x.value.keywords \
                    and not isinstance(x.value.args[0], ast.Dict):
                ok.add(id(x.value.func.value))
    uses = [x for st in body for x in ast.walk(st) if isinstance(x, ast.Name) and x.id == n]
    return bool(uses) and all(id(x) in ok for x in uses)


class _OneList(list):
    """Stands for a list accumulator in one iteration: appends only."""
    def _no(self, *a, **k):
        raise Unsupported('loop reads its accumulator')
    insert = pop = remove = clear = extend = sort = reverse = index = count = _no
    __setitem__ = __delitem__ = __getitem__ = __contains__ = __iter__ = __len__ = __iadd__ = __add__ = _no
    __eq__ = __ne__ = __bool__ = __mul__ = copy = _no
    __hash__ = None


class _OneKey(dict):
    """Stands for the accumulator in one iteration: only a write at the loop
    key is understood."""
    def __init__(self, q):
        self.q = q
        self.written = False
        self.value = None

    def __setitem__(self, k, v):
        if key_eq(k, self.q) is not True:
            raise Unsupported('loop writes a key different from the loop key')
        self.written = True
        self.value = v

    def _no(self, *a, **k):
        raise Unsupported('loop reads its accumulator')
    get = __contains__ = items = keys = values = pop = _no
    __eq__ = __ne__ = __or__ = __ror__ = __ior__ = __bool__ = popitem = clear = _no
    __hash__ = None

    def __getitem__(self, k):
        if self.written and key_eq(k, self.q) is True:
            return self.value
        raise Unsupported('loop reads its accumulator')

    setdefault = __iter__ = __len__ = copy = __delitem__ = _no

    def update(self, o=(), **kw):
        for k, v in dict(o).items():
            self[k] = v


class _Trap:
    def __init__(self, n):
        self.n = n


def _copy_container(v):
    if isinstance(v, SMap):
        return v.copy()
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, list):
        return list(v)
    if isinstance(v, set):
        return set(v)
    return v


def _target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _stored_first(body):
    """names stored in the body (temporaries)"""
    out = set()
    read_first = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                read_first.add(n.target.id)
    return out - read_first


def _stored(body):
    return {n.id for st in body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def _flags(body, env):
    """Boolean variables set to one constant in the loop body: name -> constant"""
    out, bad = {}, set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                bad.add(n.id) if n.id not in out else None
    cand = {}
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                cand.setdefault(n.targets[0].id, []).append(n.value.value)
    for k, v in cand.items():
        stores = sum(1 for st in body for n in ast.walk(st) if isinstance(n, ast.Name) and n.id == k
                     and isinstance(n.ctx, (ast.Store, ast.Del)))
        loads = any(isinstance(n, ast.Name) and n.id == k and isinstance(n.ctx, ast.Load) for st in body for n in ast.walk(st))
        if stores == len(v) and len(set(v)) == 1 and not loads and isinstance(env.get(k), bool):
            out[k] = v[0]
    return out


_LOOP_MUTATORS = ('append', 'add', 'update', 'extend', 'insert', 'pop', 'popitem', 'remove', 'setdefault', 'clear', 'discard', 'sort', 'reverse')


def _frame_check(body, env, stored):
    """The loop may only write local containers (summarised) and objects made in
    the iteration itself."""
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                raise Unsupported('attribute assigned in a loop over a symbolic map')
            tgt = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                tgt = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in _LOOP_MUTATORS:
                tgt = n.func.value
            if tgt is None:
                continue
            if isinstance(tgt, ast.Name):
                if tgt.id in stored or isinstance(env.get(tgt.id), (dict, list, set)):
                    continue
                if tgt.id in env and isinstance(n, ast.Call):
                    continue            # a method of that name of some other object
                raise Unsupported('loop over a symbolic map writes %s' % tgt.id)
            r = tgt
            while isinstance(r, (ast.Subscript, ast.Attribute)):
                r = r.value
            if isinstance(r, ast.Name) and r.id in stored:
                continue
            if isinstance(r, ast.Name) and type(env.get(r.id)) in (dict, _coll.OrderedDict, list) and not env[r.id]:
                continue                # entry made in the iteration itself (_OneKey)
            if isinstance(tgt, (ast.Call, ast.Constant, ast.Dict, ast.List)):
                continue
            raise Unsupported('loop over a symbolic map writes a nested container')


def _assigned_containers(body, env):
    """local dict/list/set variables the loop body may mutate"""
    out = []
    for st in body:
        for n in ast.walk(st):
            nm = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                v = n.value
                while isinstance(v, (ast.Subscript, ast.Attribute)):
                    v = v.value
                if isinstance(v, ast.Name):
                    nm = v.id
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'append', 'add', 'update', 'extend', 'insert', 'pop', 'remove', 'setdefault', 'clear', 'discard'):
                v = n.func.value
                while isinstance(v, (ast.Subscript, ast.Attribute)):
                    v = v.value
                if isinstance(v, ast.Name):
                    nm = v.id
            if nm is not None and nm in env and nm not in out and isinstance(env[nm], (dict, list, set)):
                out.append(nm)
    return out


def _may_exit(body):
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.Raise, ast.Return, ast.Break, ast.Assert, ast.Call, ast.Subscript)):
                return True
    return False


class _SymComp(Exception):
    pass


class _CardLike:
    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        if o == 0:
            return not bool(self.s)
        raise Unsupported('cardinality')

    def __ne__(self, o):
        return not (self == o)

    def __gt__(self, o):
        if o == 0:
            return bool(self.s)
        raise Unsupported('cardinality')

    def __bool__(self):
        return bool(self.s)
    __hash__ = None


class _Poison:
    """A variable whose value after (in) a loop of unknown length is not known."""
    def __init__(self, n):
        self.n = n


def _as_seq(x):
    if isinstance(x, SMap):
        x = SIter(x.frozen(), 'keys')
    if isinstance(x, SIter):
        return _seq_of_iter(x)
    if isinstance(x, SSet):
        return SSeq([x.arity], lambda pos: x.contains(pos[0]), lambda pos: pos[0], True)
    return x


def _map_of_pairs(q):
    if len(q.arities) != 1:
        raise Unsupported('dictionary from a nested symbolic sequence')

    def fn(k):
        l = q.live((k,))
        if l is False or (l is not True and not bool(l)):
            return False, None
        pr = q.elt((k,))
        if not isinstance(pr, (tuple, list)) or len(pr) != 2:
            raise Unsupported('dictionary from a symbolic sequence')
        if key_eq(pr[0], k) is not True:
            raise Unsupported('re-keying of a symbolic map')
        return True, (lambda: pr[1])
    return SMap(fn, 'pairs', q.arities[0])


def _seq_of_iter(it):
    return SSeq([it.m.arity], lambda pos: it.m.contains(pos[0]), lambda pos: it.bind(pos[0]),
                it.what == 'keys')


def _pos_pred(seq, f):
    n = len(seq.arities)

    def pred(w):
        pos = tuple(w) if n > 1 else (w,)
        l = seq.live(pos)
        if l is False or (l is not True and not bool(l)):
            return False
        return f(seq.elt(pos))
    return pred


def _pos_arity(seq):
    return len(seq.arities) if len(seq.arities) > 1 else seq.arities[0]


def truthy_sb(e):
    if isinstance(e, (bool, SBool)):
        return e
    return bool(e)


class _TypeProxy:
    """builtin type whose constructor is replaced by a symbolic-aware one"""
    def __init__(self, t, ctor):
        self.t = t
        self.ctor = ctor

    def __call__(self, *a, **k):
        return self.ctor(*a, **k)

    def __getattr__(self, n):
        return getattr(self.t, n)

    def __or__(self, o):
        return self.t | _unproxy(o)

    def __ror__(self, o):
        return _unproxy(o) | self.t

    def __eq__(self, o):
        return self.t == _unproxy(o)

    def __hash__(self):
        return hash(self.t)

    def __instancecheck__(self, x):
        return isinstance(x, self.t)


def _unproxy(T):
    if isinstance(T, _TypeProxy):
        return T.t
    if isinstance(T, tuple) and any(isinstance(x, _TypeProxy) for x in T):
        return tuple(_unproxy(x) for x in T)
    return T


def _is(a, b):
    a, b = _unproxy(a), _unproxy(b)
    if type(a) is GOpt or type(b) is GOpt:
        if a is None or b is None:
            return (b if a is None else a).is_none()
        raise Unsupported('identity of a value that may be None')
    return a is b


def _symkey(i):
    return isinstance(i, SStr) or (isinstance(i, tuple) and any(isinstance(x, SStr) for x in i))


def _fold_text(sep, x):
    if isinstance(x, SMap):
        x = x.keys()
    if isinstance(x, SIter):
        it = x
        x = SSeq([it.m.arity], lambda pos: it.m.contains(pos[0]), lambda pos: it.bind(pos[0]))
    if not isinstance(x, SSeq):
        raise Unsupported('text of a symbolic set')

    def body(pos):
        v = x.elt(pos)
        if isinstance(v, SStr):
            return format(v)
        if not isinstance(v, str):
            raise TypeError('sequence item: expected str instance')
        return v
    return CTX.engine.fmt_token(Fold(x.arities, x.live, body, sep), '')


def _percent(fmt, args):
    import re
    if not isinstance(args, tuple):
        args = (args,)
    if not any(isinstance(a, (Num, SStr)) for a in args):
        return fmt % args
    out = []
    i = 0
    pos = 0
    for m in re.finditer(r'%(%|([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z]))', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            out.append('%')
            continue
        a = args[i]
        i += 1
        if isinstance(a, (Num, SStr)):
            c = m.group(3)
            out.append(format(a, m.group(2) + (c if c not in 'sr' else '')))
        else:
            out.append(m.group(0) % a)
    out.append(fmt[pos:])
    return ''.join(out)


_STANDINS = (SMap, SIter, SSeq, SSet, SCard, SCounter, SStr, SBool, GDict, GView, GSet, GSeq, GOpt, GBool,
             Fold, Prev, NDArray, PartView, _Poison, _OneKey, _OneList, _OneSet, _OneUnion)
