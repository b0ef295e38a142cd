"""Native stage: runs the real code of /repo under CPython."""
import ast
import importlib
import json
import math
import os
import random
import re
import sys
import time
import traceback
import warnings
warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)

REPO = os.environ.get('WCXF_REPO', '/repo')
sys.path.insert(0, REPO)


class Runner:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.rng = random.Random('%s-%s' % (pid, seed))
        self.failures = []
        self.checks = 0
        self.cases = 0
        self.coverage = {}
        self.start = time.time()
        self._hints = None
        self._nk = None
        self.harness_error = None

    @property
    def n(self):
        return 1 if self.tier == 'quick' else 8

    def time_left(self, budget):
        return time.time() - self.start < budget * self.n

    def fail(self, name, detail, **data):
        if len(self.failures) < 50:
            self.failures.append({'name': self.pid + '.native.' + name, 'detail': str(detail)[:1500],
                                  'data': {k: (v if isinstance(v, (int, float, str)) else repr(v)[:3000]) for k, v in data.items()}})

    def check(self, name, ok, detail='', **data):
        self.checks += 1
        if not ok:
            self.fail(name, detail, **data)
        return bool(ok)

    def close(self, name, a, b, detail='', tol=1e-9, floor=0, **data):
        """|a-b| <= tol * max(|a|,|b|,floor)"""
        self.checks += 1
        try:
            d = abs(complex(a) - complex(b))
            m = max(abs(complex(a)), abs(complex(b)), abs(floor))
            ok = d <= tol * m or d == 0
        except (TypeError, ValueError, OverflowError) as ex:
            ok = False
            detail = '%s (%s)' % (detail, ex)
        if not ok:
            self.fail(name, '%s got %r, expected %r' % (detail, a, b), **data)
        return ok

    def guard(self, name, fn, *a, expect=None, **data):
        """Run fn; an unexpected exception is a failure of the property.
        With expect: returns True iff that exception type was raised."""
        try:
            r = fn(*a)
        except BaseException as ex:
            if isinstance(ex, KeyboardInterrupt):
                raise
            if expect is not None:
                self.check(name, isinstance(ex, expect), 'raised %s: %s' % (type(ex).__name__, ex), **data)
                return None
            self.checks += 1
            self.fail(name, 'raised %s: %s' % (type(ex).__name__, ex), tb=traceback.format_exc()[-1200:], **data)
            return _FAILED
        if expect is not None:
            self.check(name, False, 'no exception; expected %s' % (expect,), **data)
            return _FAILED
        return r

    # ---- random material
    def num(self, real=False):
        r = self.rng
        m = 10.0 ** r.uniform(-3, 3) * (1 if r.random() < .5 else -1)
        if real:
            return m
        if r.random() < .08:
            return complex(0, m) if r.random() < .7 else complex(m, 0)
        return complex(m * r.uniform(-1, 1), m * r.uniform(-1, 1))

    def hints(self):
        """Constants appearing in the source of the package: (strings, numbers)."""
        if self._hints is None:
            S, N = source_constants()
            self._hints = (sorted(S), sorted(N))
            self._news = ([], [])
            try:
                with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'constants.json')) as f:
                    base = json.load(f)
                self._news = (sorted(x for x in S if S[x] > base['strings'].get(x, 0)),
                              sorted(x for x in N if N[x] > base['numbers'].get(repr(x), 0) and 1e-15 < abs(x) < 1e9))
            except (OSError, ValueError):
                pass
        return self._hints

    def news(self):
        """The constants that appear more often than when the samplers were
        written: inputs are drawn preferably around them (sampling only; no
        verdict depends on it)."""
        self.hints()
        return self._news

    def news_keys(self, keys):
        """The keys among the new strings, and groups of keys they abbreviate."""
        if self._nk is None or self._nk[0] != len(keys):
            st = [x for x in self.news()[0] if x.strip()]
            ks = set(keys)
            groups = [[x] for x in st if x in ks]
            for x in st:
                if x not in ks and len(x) > 1:
                    g = [k for k in keys if isinstance(k, str) and (k.split('_')[0] == x or k.startswith(x) or k.endswith(x))]
                    if g:
                        groups.append(g)
            self._nk = (len(keys), groups)
        return self._nk[1]


def source_constants():
    from collections import Counter
    S, N = Counter(), Counter()
    for root, _, files in os.walk(os.path.join(REPO, 'wcxf')):
        for f in files:
            if f.endswith('.py') and not f.startswith('test_') and 'smeftsim' not in f.lower():
                try:
                    t = ast.parse(open(os.path.join(root, f), encoding='utf8').read())
                except (SyntaxError, ValueError, OSError):
                    continue
                for x in ast.walk(t):
                    if isinstance(x, ast.Constant):
                        if isinstance(x.value, str) and len(x.value) < 40:
                            S[x.value] += 1
                        elif isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                            N[x.value] += 1
    return S, N


class _Failed:
    def __bool__(self):
        return False


_FAILED = _Failed()


def unusable(ex):
    """Whether the exception that ended the harness comes from a value the code
    under test returned (and not from a changed name or signature, the file
    system, memory, ...)."""
    if not isinstance(ex, (TypeError, AttributeError, KeyError, IndexError, ValueError, ArithmeticError)):
        return False
    return not re.search(r"\bmodule '|type object|partially initialized|keyword argument|positional argument"
                         r"|missing \d+ required|takes no arguments", str(ex))


def main():
    pid, seed, tier, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    R = Runner(pid, seed, tier)
    R.FAILED = _FAILED
    try:
        m = importlib.import_module('native.' + pid.lower())
        m.run(R)
    except BaseException as ex:
        # the harness itself stopped: a result of the code that cannot be used as
        # its contract says (None for a dictionary, say) is a violation; a name or
        # signature of the code that changed leaves the check undecided, unless
        # the package cannot even be imported
        R.harness_error = '%s: %s %s' % (type(ex).__name__, ex, traceback.format_exc()[-2500:])
        try:
            import wcxf
        except BaseException as ex2:
            R.fail('import', 'import wcxf: %s: %s' % (type(ex2).__name__, ex2))
        if unusable(ex):
            R.fail('unusable-result', R.harness_error)
    with open(out, 'w') as f:
        json.dump({'failures': R.failures, 'checks': R.checks, 'cases': R.cases, 'coverage': R.coverage,
                   'harness_error': R.harness_error,
                   'wall': round(time.time() - R.start, 2)}, f)


if __name__ == '__main__':
    main()
