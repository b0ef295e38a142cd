"""Shared machinery of the contracts: sessions, symbolic inputs, assumed
contracts of the running couplings, access-discipline dictionaries."""
import os
import sys
import time
import traceback

from pyvc import values as V
from pyvc import poly as P
from pyvc.values import Num, SStr, SBool, Unsupported, PathAbort, CTX, num, n_sqrt
from pyvc.engine import Engine
from pyvc.interp import Interp
from pyvc.nd import NDArray
from pyvc import guard
import numpy as np

REPO = os.environ.get('WCXF_REPO', '/repo')


class Ops:
    """Arithmetic used by the specification functions on symbolic numbers."""
    @staticmethod
    def sqrt(x):
        return n_sqrt(x)

    pi = None

    @staticmethod
    def conj(x):
        return V.n_conj(x)

    @staticmethod
    def abs(x):
        return abs(num(x))

    @staticmethod
    def frac(a, b):
        from fractions import Fraction
        return Num.const(Fraction(a, b))


def rep(n):
    """Text that identifies a number up to normal form."""
    return repr(P.p_key(num(n).p))


def parameter(name):
    """A parameter: positive; CKM phase and V_ub any real number."""
    return Num.sym(name, 'real' if name.rsplit('.', 1)[-1] in ('gamma', 'Vub') else 'pos', ty='float')


class Session:
    def __init__(self, pid, seed=1, tier='quick'):
        self.pid = pid
        self.seed = seed
        self.tier = tier
        self.eng = Engine(seed)
        self.eng.stop_at = time.time() + (240 if tier == 'quick' else 2600)
        self.assumed = []            # assumed contracts used
        self.notes = []
        self.bounded = []            # what is covered only up to a bound
        self.errors = []             # unexpected exceptions of the code on a symbolic input
        self._it = None
        self.qcd_args = {}           # symbol -> arguments of the running couplings
        Ops.pi = Num.sym('pi', 'pos')

    # -- interpreter
    @property
    def it(self):
        if self._it is None:
            self.fresh()
        return self._it

    def fresh(self, install=None):
        """New interpreter: every module of the package is executed again."""
        self._it = Interp(REPO)
        if install is not None:
            install(self._it)
        self._it.load('wcxf')
        return self._it

    def mod(self, name):
        return self.it.load(name)

    # -- assumed contract of running couplings
    def assume_qcd(self):
        """alpha_s, m_b, m_c, m_s: positive, and functions of their arguments
        only.  (Checked on their own in C19.)"""
        def mk(fn, defaults):
            def h(f, args, kw):
                b = f.bind(args, kw)
                key = ','.join('%s=%s' % (k, rep(b[k])) for k in sorted(b))
                self.eng.calls.append((fn, dict(b)))
                name = '%s(%s)' % (fn, key)
                self.qcd_args[name] = [num(x) for x in b.values()]
                return Num.sym(name, 'pos', ty='float')
            return h
        for fn in ('alpha_s', 'm_b', 'm_c', 'm_s'):
            self.eng.contracts['wcxf.util.qcd.' + fn] = mk(fn, None)
        self.assumed.append('util.qcd.{alpha_s,m_b,m_c,m_s}: positive and determined by their arguments (C19 checks them)')

    def qcd(self, fn, *args):
        return getattr(self.mod('wcxf.util.qcd'), fn)(*args)

    def reach(self, nums):
        """Names of the symbols the numbers are built from (through roots,
        absolute values, running couplings and CKM elements)."""
        ckm = {}
        for name, data, args in self.eng.ckm_registry.values():
            for x in data.flat:
                for i in P.p_syms(num(x).p):
                    ckm[i] = ckm[P._syms[i].conj] = args
        seen, todo = set(), [num(n).p for n in nums]
        while todo:
            for i in P.p_syms(todo.pop()):
                if i in seen:
                    continue
                seen.add(i)
                y = P._syms[i]
                more = list(ckm.get(i, ())) + list(self.qcd_args.get(y.name, ()))
                todo += [num(a).p for a in more]
                a = y.arg
                for b in a if isinstance(a, (list, tuple)) else [a]:
                    if isinstance(b, dict):
                        todo.append(b)
        return {P._syms[i].name for i in seen}

    # -- symbolic inputs
    def flat(self, keys, prefix='', real=lambda k: False, cls=None):
        d = (cls or AccessDict)()
        for k in keys:
            r = real(k)
            dict.__setitem__(d, k, Num.sym(prefix + k, 'real' if r else 'complex',
                                           ty='float' if r else 'complex'))
        return d

    def params(self, prefix='p.', names=None):
        names = names or ['m_W', 'm_Z', 'GF', 'alpha_e', 'alpha_s', 'Vus', 'Vub', 'Vcb', 'gamma',
                          'm_b', 'm_s', 'm_e', 'm_mu', 'm_tau']
        return {n: parameter(prefix + n) for n in names}

    def scale(self, name='scale'):
        return Num.sym(name, 'pos', ty='float')

    # -- exploration
    def explore(self, fn, label):
        """Every feasible path of fn; a Python exception escaping from the code
        under verification is recorded as an error at this label."""
        def wrapped():
            try:
                fn()
            except (PathAbort, Unsupported, RecursionError):
                raise
            except SpecError:
                raise
            except Exception as ex:
                self.errors.append((label, '%s: %s' % (type(ex).__name__, ex),
                                    traceback.format_exc()[-1500:]))
        return self.eng.explore(wrapped, label)

    def every_subset(self, fn, label, fallback=None, note=''):
        """Explore fn with guarded execution: dictionaries may hold arbitrary
        subsets of names.  Where the code leaves what guarded execution can
        merge, the fallback (sampled subsets) is explored instead, and noted as
        bounded."""
        e = self.eng
        n = len(e.obligations), len(e.undecided), len(self.errors), len(e.vacuous)
        import signal

        def late(*a):
            raise Unsupported('time limit of guarded execution')
        guard.ON = True
        limit = 60 if self.tier == 'quick' else 400
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, limit if fallback is not None else 5 * limit)
        try:
            self.explore(fn, label)
        except Unsupported as ex:
            e.undecided.append((label, str(ex)))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            guard.ON = False
            guard.EFF.clear()
            guard.P.CHOICE.clear()
            guard.reset()
        if any(o.status == 'refuted' for o in e.obligations[n[0]:]):
            return True
        if len(e.undecided) > n[1] and fallback is not None:
            why = e.undecided[n[1]][1]
            del e.obligations[n[0]:], e.undecided[n[1]:], self.errors[n[2]:], e.vacuous[n[3]:]
            self.bounded.append('%s: %s (guarded execution: %s)' % (label, note or 'subsets sampled', str(why)[:200]))
            fallback()
            return False
        return True

    def subset(self, keys, tag='in.', real=lambda k: False, prefix=''):
        """(dictionary with an arbitrary subset of the keys, {key: its value or 0})"""
        full = self.flat(keys, prefix=prefix, real=real, cls=dict)
        d = guard.subset(full.items(), tag)
        return d, {k: d.total(k) for k in full}

    def parallel(self, tasks, jobs=8):
        """Explore the (function, label) tasks in forked processes and collect
        their obligations (label None: the function explores itself); falls back to this process for a task whose process
        ends without an answer."""
        import pickle
        import tempfile
        e = self.eng
        todo, running, done = list(enumerate(tasks)), {}, {}
        tmp = tempfile.mkdtemp(prefix='pyvc')

        def child(fn, label, path):
            e.obligations, e.undecided, e.vacuous, e.denoms = [], [], [], {}
            e.solver_time, e.solver_calls, e.paths = 0.0, 0, 0
            self.errors, self.assumed, self.notes, self.bounded = [], [], [], []
            self.explore(fn, label) if label is not None else fn()
            obl = [(o.name, o.status, o.backend, o.detail, o.path, str(o.model) if o.model is not None else None)
                   for o in e.obligations]
            with open(path, 'wb') as f:
                pickle.dump((obl, [(str(a), str(b)) for a, b in e.undecided], [str(v) for v in e.vacuous],
                             e.solver_time, e.solver_calls, e.paths, self.errors, self.assumed, self.notes,
                             self.bounded, dict(e.functions), list(e.denoms)), f)
        try:
            while todo or running:
                while todo and len(running) < jobs:
                    i, (fn, label) = todo.pop(0)
                    path = os.path.join(tmp, '%d' % i)
                    pid = os.fork()
                    if pid == 0:
                        try:
                            child(fn, label, path + '.part')
                            os.rename(path + '.part', path)
                        finally:
                            os._exit(0)
                    running[pid] = (i, fn, label, path)
                pid, _ = os.wait()
                if pid in running:
                    i, fn, label, path = running.pop(pid)
                    done[i] = (fn, label, path)
            for i in sorted(done):
                fn, label, path = done[i]
                if not os.path.exists(path):
                    self.explore(fn, label) if label is not None else fn()
                    continue
                with open(path, 'rb') as f:
                    obl, und, vac, st, sc, pa, err, ass, notes, bnd, fns, den = pickle.load(f)
                from pyvc.engine import Obligation
                e.obligations += [Obligation(*o) for o in obl]
                e.undecided += und
                e.vacuous += vac
                e.solver_time += st
                e.solver_calls += sc
                e.paths += pa
                self.errors += err
                for mine, new in ((self.assumed, ass), (self.notes, notes), (self.bounded, bnd)):
                    mine += [x for x in new if x not in mine]
                for k, v in fns.items():
                    e.functions[k] = v
                for k in den:
                    e.denoms.setdefault(k, None)
        finally:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)

    def prove(self, name, b, detail=''):
        return self.eng.prove(self.pid + '.' + name, b, detail)

    def equal(self, name, a, b, detail=''):
        if a is None:
            return self.eng._rec(self.pid + '.' + name, 'refuted', 'eval', detail + ' result missing')
        try:
            a, b = num(scal(a)), num(scal(b))
        except (Unsupported, TypeError) as ex:
            return self.eng._rec(self.pid + '.' + name, 'undecided', 'eval', detail + ' %s' % ex)
        return self.eng.prove_equal(self.pid + '.' + name, a, b, detail)

    def equal_dicts(self, name, out, exp, closed=True, detail=''):
        """out == exp as coefficient sets (absent = 0)."""
        if not isinstance(out, dict):
            return self.eng._rec(self.pid + '.' + name, 'refuted', 'eval', 'result is %s' % type(out).__name__)
        total = out.total if isinstance(out, guard.GDict) else lambda k: dict.get(out, k, 0)
        for k, v in exp.items():
            self.equal('%s[%s]' % (name, k), total(k), v, detail)
        if closed:
            for k in dict.keys(out):
                if k not in exp:
                    self.equal('%s[%s]' % (name, k), total(k), 0, detail + ' coefficient outside the expected set')

    def register(self, eft, basis, keys, sectors=None):
        w = self.mod('wcxf')
        if sectors is None:
            sectors = {'all': {k: {} for k in keys}}
        return w.Basis(eft, basis, sectors)


class SpecError(Exception):
    pass


def scal(x):
    if isinstance(x, NDArray) and x.ndim == 0:
        return x.data[()]
    return x


class AccessDict(dict):
    """Dictionary that records how it is read, to settle 'an absent coefficient
    counts as zero' for every subset at once: if every access is .get(k, 0) the
    result for any subset is the result for the full dictionary with the absent
    symbols set to zero."""
    def __init__(self, *a):
        super().__init__(*a)
        self.gets = 0
        self.iters = 0
        self.other = []
        self.written = []

    def get(self, k, d=None):
        z = (not isinstance(d, (Num, NDArray)) and d == 0 and d is not None and d is not False)
        if z:
            self.gets += 1
        else:
            self.other.append('get(%r, %r)' % (k, d))
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.other.append('[%r]' % (k,))
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.other.append('%r in' % (k,))
        return dict.__contains__(self, k)

    def keys(self):
        self.other.append('keys()')
        return dict.keys(self)

    def values(self):
        self.other.append('values()')
        return dict.values(self)

    def items(self):
        self.iters += 1
        return dict.items(self)

    def __iter__(self):
        self.other.append('iter')
        return dict.__iter__(self)

    def copy(self):
        self.other.append('copy')
        return dict(dict.items(self))

    def __setitem__(self, k, v):
        self.written.append(k)
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self.written.append(k)
        dict.__delitem__(self, k)

    def pop(self, k, *d):
        self.written.append(k)
        return dict.pop(self, k, *d)

    def update(self, *a, **kw):
        self.written.append('update')
        dict.update(self, *a, **kw)

    def setdefault(self, k, d=None):
        self.written.append(k)
        return dict.setdefault(self, k, d)

    def clear(self):
        self.written.append('clear')
        dict.clear(self)

    def popitem(self):
        self.written.append('popitem')
        return dict.popitem(self)

    @property
    def disciplined(self):
        return not self.other and not self.iters


def same_dict(S, name, d, snapshot):
    """The dictionary d still holds exactly the snapshot (frame condition)."""
    ok = len(d) == len(snapshot) and all(k in snapshot and dict.__getitem__(d, k) is snapshot[k] for k in dict.keys(d))
    S.prove(name, ok)


def snapshot(d):
    return dict(dict.items(d))
