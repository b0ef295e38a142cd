"""Path-exhaustive verification engine: explores every feasible path of a
harness by re-execution, collects the obligations stated by the contracts and
discharges them (ring normal form, Z3)."""
import time
import random
import z3
import mpmath
from . import values as V
from . import poly as P
from . import guard
from .values import CTX, SBool, Num, NaNNum, PathAbort, Unsupported, zbool, s_not


class Refuted(Exception):
    pass


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'detail', 'path', 'model')

    def __init__(self, name, status, backend, detail='', path='', model=None):
        self.name = name
        self.status = status        # proved | refuted | undecided
        self.backend = backend      # ring | z3 | eval | sampling
        self.detail = detail
        self.path = path
        self.model = model

    def __repr__(self):
        return '%s: %s [%s] %s' % (self.name, self.status, self.backend, self.detail)


class Engine:
    def __init__(self, seed=1):
        self.seed = seed
        self.obligations = []
        self.undecided = []        # (where, reason): constructs out of reach
        self.solver_time = 0.0
        self.solver_calls = 0
        self.paths = 0
        self.vacuous = []
        self.functions = {}        # qualname -> set(kind) executed
        self.contracts = {}        # qualname -> replacement
        self.denoms = {}
        self.limit_paths = 4000
        self.stop_at = None         # (wall clock) no new path after this
        self.conformance = None
        self._fid = 0
        self._begin_path([])
        CTX.engine = self

    # ---------------------------------------------------------------- paths
    def _begin_path(self, prefix):
        guard.reset()
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.desc = []
        self.used_syms = set()
        self.universals = []
        self.keys = []
        self.kdepth = {}
        self.inst_depth = 0
        self.exists_memo = {}
        self.keep = []
        self.ckm_registry = {}
        self.calls = []
        self.tokens = {}
        self.numerals = {}
        self._fid = 0
        self._inc = None
        self._lits = {}

    def fresh_id(self):
        self._fid += 1
        return self._fid

    text = False      # strings assembled from unknowns are kept exactly (tokens)

    def fmt_token(self, n, spec):
        i = len(self.tokens)
        self.tokens[i] = (n, spec)
        return '\u27e6%d\u27e7' % i

    def numeral(self, s):
        """The number denoted by the symbolic string s (s is a numeral)."""
        k = str(s.e)
        if k not in self.numerals:
            self.numerals[k] = Num.sym('number(%s)' % k, 'real', ty='float')
        return self.numerals[k]

    def note_denominator(self, b):
        if len(self.denoms) < 2000:
            self.denoms.setdefault(P.p_str(b.p, 3), None)

    def facts(self):
        return self.pc + V.sym_facts(self.used_syms) + V.str_axioms()

    def _check(self, extra, timeout=3000):
        t = time.time()
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*self.facts())
        s.add(*extra)
        r = s.check()
        self.solver_time += time.time() - t
        self.solver_calls += 1
        return r, s

    def _sat(self, extra):
        """Feasibility under the path condition (incremental solver of this
        path; the one-shot solver where that one gives up)."""
        t = time.time()
        if self._inc is None:
            self._inc = z3.Solver()
            self._inc.set('timeout', 1000)
            self._inc_pc, self._inc_syms, self._inc_strs = 0, set(), 0
        s = self._inc
        if self._inc_pc < len(self.pc):
            s.add(*self.pc[self._inc_pc:])
            self._inc_pc = len(self.pc)
        new = self.used_syms - self._inc_syms
        if new:
            s.add(*V.sym_facts(new))
            self._inc_syms |= new
        n = len(V._str_consts)
        if n > self._inc_strs:
            s.add(*V.str_axioms())
            self._inc_strs = n
        if extra is None:
            r = s.check()
        else:
            s.push()
            s.add(extra)
            r = s.check()
            s.pop()
        self.solver_time += time.time() - t
        self.solver_calls += 1
        if r == z3.unknown:
            r, _ = self._check([extra] if extra is not None else [])
        return r

    def _lit(self, e, c):
        """e is known to be c on this path (its term is alive in pc)."""
        if z3.is_not(e):
            e, c = e.arg(0), not c
        self._lits[e.get_id()] = (e, c)

    def decide(self, sb):
        if isinstance(sb, bool):
            return sb
        e = sb.e
        neg = z3.is_not(e)
        known = self._lits.get((e.arg(0) if neg else e).get_id())
        if known is not None:
            return known[1] != neg
        c = self._decide(e)
        self._lit(e, c)
        return c

    def _decide(self, e):
        n = len(self.taken)
        if n < len(self.prefix):
            c = self.prefix[n]
            self.taken.append(c)
            self.pc.append(e if c else z3.Not(e))
            return c
        t = self._sat(e)
        f = self._sat(z3.Not(e)) if t != z3.unsat else self._sat(None)
        if t == z3.unsat and f == z3.unsat:
            raise PathAbort()
        if t == z3.unsat:
            c = False
        elif f == z3.unsat:
            c = True
        else:
            c = True
            self.work.append(self.taken + [False])
        self.taken.append(c)
        self.pc.append(e if c else z3.Not(e))
        return c

    def assume(self, b):
        if isinstance(b, bool):
            if not b:
                raise PathAbort()
            return
        e = zbool(b)
        self.pc.append(e)
        r = self._sat(None)
        if r == z3.unsat:
            raise PathAbort()
        self._lit(e, True)

    def add_key(self, k):
        # a witness introduced while instantiating at a witness ... is one level
        # deeper; instantiation stops at MAXDEPTH (fewer facts: still sound)
        self.keys.append(k)
        d = self.kdepth[id(k)] = self.inst_depth
        self.keep.append(k)
        if d > self.MAXDEPTH:
            return
        for pred, ar in list(self.universals):
            self._inst(pred, ar, k)

    def add_universal(self, pred, arity):
        self.universals.append((pred, arity))
        for k in list(self.keys):
            if self.kdepth[id(k)] <= self.MAXDEPTH:
                self._inst(pred, arity, k)

    MAXDEPTH = 2

    def _inst(self, pred, arity, k):
        old = self.inst_depth
        self.inst_depth = max(old, self.kdepth[id(k)]) + 1
        try:
            self._inst1(pred, arity, k)
        finally:
            self.inst_depth = old

    def _inst1(self, pred, arity, k):
        ka = len(k) if isinstance(k, tuple) else 0
        if ka == arity:
            self.assume(s_not(pred(k)))
        elif arity > 1 and ka == 0:
            import itertools
            ks = [x for x in self.keys if self.kdepth[id(x)] <= self.MAXDEPTH]
            flat = [x for x in ks if not isinstance(x, tuple)]
            flat += [y for x in ks if isinstance(x, tuple) for y in x]
            for combo in itertools.product(flat, repeat=arity):
                if k in combo if False else any(c is k for c in combo):
                    self.assume(s_not(pred(combo)))
        elif arity == 0 and ka > 0:
            for x in k:
                self.assume(s_not(pred(x)))

    def explore(self, fn, label=''):
        """Run fn() on every feasible path."""
        self.work = [[]]
        n = 0
        done = 0
        mark, since = len(self.obligations), None
        while self.work:
            now = time.time()
            if self.stop_at is not None and now > self.stop_at:
                self.undecided.append((label, 'time limit'))
                break
            # a refuted obligation decides; what else is wrong is not needed
            if since is None and any(o.status == 'refuted' for o in self.obligations[mark:]):
                since = now
            mark = len(self.obligations)
            if since is not None and now - since > 20:
                self.undecided.append((label, 'stopped after a refuted obligation'))
                break
            prefix = self.work.pop()
            self._begin_path(prefix)
            CTX.engine = self
            n += 1
            if n > self.limit_paths:
                self.undecided.append((label, 'path limit'))
                break
            try:
                fn()
                done += 1
            except PathAbort:
                continue
            except Unsupported as ex:
                self.undecided.append((label, str(ex)))
                done += 1
            except RecursionError:
                self.undecided.append((label, 'recursion'))
        self.paths += done
        if done == 0:
            self.vacuous.append(label)
        return done

    # ---------------------------------------------------------------- obligations
    def _rec(self, *a, **k):
        o = Obligation(*a, **k)
        self.obligations.append(o)
        return o

    def prove(self, name, b, detail=''):
        """Boolean obligation under the current path condition."""
        if isinstance(b, bool):
            return self._rec(name, 'proved' if b else 'refuted', 'eval', detail)
        r, s = self._check([z3.Not(zbool(b))], timeout=10000)
        if r == z3.unsat:
            return self._rec(name, 'proved', 'z3', detail)
        if r == z3.sat:
            return self._rec(name, 'refuted', 'z3', detail + ' model: ' + str(s.model())[:600],
                             model=str(s.model()))
        return self._rec(name, 'undecided', 'z3', detail + ' solver unknown')

    def prove_zero(self, name, n, detail='', env_named=None):
        """Obligation: the number n is zero for all values of the unknowns."""
        if isinstance(n, NaNNum):
            return self._rec(name, 'refuted', 'ring', detail + ' value is NaN')
        p = n.p
        if not p:
            return self._rec(name, 'proved', 'ring', detail)
        # equal as functions although the normal forms differ?
        if self.pc:
            b = V.num_eq0(p)
            r, s = self._check([z3.Not(zbool(b))], timeout=3000)
            if r == z3.unsat:
                return self._rec(name, 'proved', 'z3', detail)
            if r != z3.sat:
                return self._rec(name, 'undecided', 'z3', detail + ' solver unknown')
        if P.CHOICE and any(i in P.CHOICE for i in P.p_symbols(p)):
            q = P.p_choices(p)
            if not q:
                return self._rec(name, 'proved', 'ring', detail)
        worst = None
        rng = random.Random(self.seed)
        inds = any(P.sym_by_id(i).kind == 'ind' for i in P.p_symbols(p))
        cand = None
        for t in range(25 if inds else 4):
            env = P.Env(rng)
            env.p1 = (1., .75, .5, .9, .2)[t % 5]
            env.group = t % 10 >= 5
            if t == 24:
                # no difference found: decide over all presence assignments
                cand = self._presence(P.p_choices(p) if P.CHOICE else p)
                if cand is False:
                    return self._rec(name, 'proved', 'z3', detail)
                env.named.update(cand or {})
            if env_named:
                env.named.update(env_named)
            try:
                v = env.ev(p)
                scale = sum(mpmath.fabs(env.ev({m: c})) for m, c in p.items())
            except (ZeroDivisionError, ValueError):
                continue
            if mpmath.fabs(v) > scale * mpmath.mpf(10) ** (-35) and scale > 0:
                worst = (v, env)
                break
        if worst is None:
            return self._rec(name, 'undecided', 'sampling',
                             detail + ' normal forms differ but agree numerically to 35 digits')
        v, env = worst
        asg = {}
        for s in sorted(P.p_symbols(p)):
            S = P.sym_by_id(s)
            if S.kind in ('complex', 'real', 'pos') and not S.name.startswith('conj('):
                asg[S.name] = mpmath.nstr(env.val(s), 12)
            if len(asg) > 12:
                break
        if inds:
            asg['present'] = ' '.join(sorted(k[1:] for k, x in env.named.items() if k[0] == '?' and x))[:600]
        return self._rec(name, 'refuted', 'ring',
                         '%s residual %s at %s; difference = %s' % (
                             detail, mpmath.nstr(v, 8), asg, P.p_str(p, 4)), model=asg)

    def _presence(self, p):
        """Presence assignment for which the coefficient of some monomial does not
        vanish; False if there is none; None if unknown."""
        groups = {}
        for m, c in p.items():
            ind = tuple(s for s, e in m if P.sym_by_id(s).kind == 'ind')
            rest = tuple((s, e) for s, e in m if P.sym_by_id(s).kind != 'ind')
            groups.setdefault(rest, []).append((ind, c))
        if len(groups) > 400:
            return None
        atoms = {}

        def atom(n):
            if n in P.DERIVED:
                return z3.And(*[z3.Or(*[atom(y) for y in x]) if k == 'pos' else z3.Not(z3.Or(*[atom(y) for y in x]))
                                for k, x in P.DERIVED[n]])
            if n not in atoms:
                atoms[n] = z3.Bool('?' + n)
            return atoms[n]

        def ind(s):
            return z3.Or(*[atom(n) for n in sorted(P.sym_by_id(s).info)])
        for terms in groups.values():
            re, im = [], []
            for ii, c in terms:
                b = z3.And(*[ind(s) for s in ii]) if ii else z3.BoolVal(True)
                for part, acc in ((getattr(c, 're', c), re), (getattr(c, 'im', 0), im)):
                    if part:
                        acc.append(z3.If(b, z3.RealVal(str(part)), z3.RealVal(0)))
            t = time.time()
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(z3.Or(z3.Sum(re) != 0 if re else False, z3.Sum(im) != 0 if im else False))
            r = s.check()
            self.solver_time += time.time() - t
            self.solver_calls += 1
            if r == z3.sat:
                m = s.model()
                return {'?' + n: z3.is_true(m.eval(b, model_completion=True)) for n, b in atoms.items()}
            if r != z3.unsat:
                return None
        return False

    def prove_equal(self, name, a, b, detail=''):
        a, b = V.num(a), V.num(b)
        if isinstance(a, NaNNum) or isinstance(b, NaNNum):
            ok = isinstance(a, NaNNum) and isinstance(b, NaNNum)
            return self._rec(name, 'proved' if ok else 'refuted', 'ring', detail + ' NaN')
        if a.p == b.p:
            return self._rec(name, 'proved', 'ring', detail)
        return self.prove_zero(name, Num(P.p_add(a.p, P.p_neg(b.p))), detail)

    def summary(self):
        st = {'proved': 0, 'refuted': 0, 'undecided': 0}
        be = {}
        for o in self.obligations:
            st[o.status] += 1
            if o.status == 'proved':
                be[o.backend] = be.get(o.backend, 0) + 1
        return st, be
