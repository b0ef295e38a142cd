"""WC.validate and Basis.validate over arbitrary registries, bases and values, and
the LaTeX check (_testtex) over a model of the file system and the latex program."""
import os as _os
import posixpath
import types
from .maplib import *
from pyvc.interp import _Stub


def label(n):
    return SStr.fresh('%s%d' % (n, CTX.engine.fresh_id()))


def run(S):
    w = S.mod('wcxf')
    log = []

    def testtex(f, args, kw):
        log.append(args)
        ok = CTX.engine.decide(SBool(z3.Bool('latex-ok')))
        CTX.engine.calls.append(('latex', ok, args[0] if args else kw.get('s')))
        return {'success': ok, 'log': 'log'}
    for reg in [(e, b) for e in (0, 1) for b in (0, 1)]:
        S.explore(lambda: wc(S, w, *reg), 'WC %s' % (reg,))
    S.eng.contracts['wcxf.classes._testtex'] = testtex
    S.eng.text = True
    for e in (0, 1):
        S.explore(lambda: basis(S, w, e), 'Basis %d' % e)
    del S.eng.contracts['wcxf.classes._testtex']
    latex(S)


def outcome(f):
    try:
        f()
        return 'ok'
    except (ValueError, AssertionError) as ex:
        return 'rejected'
    except (PathAbort, Unsupported):
        raise
    except Exception as ex:
        return type(ex).__name__


def regs(w):
    return [(K.instances, list(dict.items(K.instances))) for K in (w.EFT, w.Basis, w.Translator, w.Matcher)]


def same_regs(w, r):
    return all(K.instances is m and list(dict.items(m)) == l
               for K, (m, l) in zip((w.EFT, w.Basis, w.Translator, w.Matcher), r))


def wc(S, w, e, b):
    w.EFT.clear_all()
    w.Basis.clear_all()
    w.Translator.clear_all()
    w.Matcher.clear_all()
    E, B, E2, B2 = label('eft'), label('basis'), label('eft2'), label('basis2')
    CTX.engine.assume(s_not(key_eq(E, E2)))
    CTX.engine.assume(s_not(key_eq(B, B2)))
    # other instances that do not count
    w.EFT(E2, sectors_map('es2'))
    w.Basis(E2, B, sectors_map('other'))
    w.Basis(E, B2, sectors_map('other2'))
    sec = sectors_map('sec')
    if e:
        w.EFT(E, sectors_map('es'))
    if b:
        w.Basis(E, B, sec)
    vals = coeff_map('C')
    fn, sfn = vals.fn, sec.fn
    x = w.WC(E, B, S.scale(), vals)
    r = regs(w)
    got = outcome(x.validate)
    S.prove('WC.rejection-type', got in ('ok', 'rejected'), got)
    if e and b:
        bad = exists(lambda k: s_and(vals.contains(k), not exists(lambda s: sec.member2(s, k), 0, ('b', str(k)))), 0, 'spec')
    else:
        bad = True
    S.prove('WC.accepted-iff-consistent', (got == 'ok') == (not bad))
    S.prove('WC.frame', x.values is vals and vals.fn is fn and sec.fn is sfn and same_regs(w, r)
            and key_eq(x.eft, E) is True and key_eq(x.basis, B) is True)


def basis(S, w, e):
    w.EFT.clear_all()
    w.Basis.clear_all()
    E, B, E2 = label('eft'), label('basis'), label('eft2')
    CTX.engine.assume(s_not(key_eq(E, E2)))
    w.EFT(E2, sectors_map('es2'))
    es = sectors_map('es')
    if e:
        w.EFT(E, es)
    P_ = Props('sec')
    sec = sectors_map('sec', P_)
    fn, efn = sec.fn, es.fn
    x = w.Basis(E, B, sec)
    r = regs(w)
    got = outcome(x.validate)
    S.prove('Basis.rejection-type', got in ('ok', 'rejected'), got)
    if not e:
        bad = True
    else:
        unknown = exists(lambda s: s_and(sec.contains(s), s_not(es.contains(s))), 0, 'unknown-sector')
        bad = unknown or exists(lambda t: s_and(s_not(key_eq(t[0], t[1])), sec.member2(t[0], t[2]), sec.member2(t[1], t[2])),
                                3, 'duplicate')
        lat = [c[1:] for c in CTX.engine.calls if c[0] == 'latex']
        if not bad:
            S.prove('Basis.latex-checked', len(lat) == 1)
            bad = not lat or not lat[0][0]
            for c in lat:
                document(S, sec, P_, c[1])
    S.prove('Basis.accepted-iff-consistent', (got == 'ok') == (not bad))
    S.prove('Basis.frame', x.sectors is sec and sec.fn is fn and es.fn is efn and same_regs(w, r)
            and key_eq(x.eft, E) is True and key_eq(x.basis, B) is True)


def document(S, sec, P_, text):
    """The text handed to LaTeX holds the code of every coefficient, in math mode."""
    ps = pieces(text)
    fs = [p for p in ps if isinstance(p, Fold)]
    S.prove('Basis.latex.has-list', len(fs) >= 1, repr(text))
    if not fs:
        return
    f = fs[0]
    if len(fs) > 1 or len(f.arities) != 2:
        raise Unsupported('list of LaTeX codes of an unknown form')
    i = ps.index(f)
    S.prove('Basis.latex.math-mode', all(isinstance(p, str) for p in ps if p is not f)
            and ''.join(ps[:i]).count('$') % 2 == 1 and ''.join(ps[i + 1:]).count('$') % 2 == 1 and f.sep.count('$') % 2 == 0, repr(f.sep))
    s, k = skey('s'), skey('k')
    live = bool(f.live((s, k)))
    member = bool(sec.member2(s, k))
    tex = P_.tex(s, k) if member else ''
    if not member:
        S.prove('Basis.latex.only-coefficients', not live)
    elif live:
        b = f.body((s, k))
        q = pieces(b)
        S.prove('Basis.latex.code', (not q and tex == '') or (len(q) == 1 and key_eq(q[0], tex) is True))
    else:
        S.prove('Basis.latex.every-code', tex == '')


# ------------------------------------------------------------ _testtex

class TFile:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def write(self, x):
        if 'r' in self.mode or self.closed:
            raise ValueError('not writable')
        self.fs.files[self.path] += format(x)

    def writelines(self, l):
        for x in l:
            self.write(x)

    def flush(self):
        pass

    def read(self):
        x = self.fs.files[self.path]
        return ''.join(x) if isinstance(x, list) else x

    def readlines(self):
        x = self.fs.files[self.path]
        return list(x) if isinstance(x, list) else x.splitlines(True)

    def __iter__(self):
        return iter(self.readlines())


LOGS = [[], ['This is latex\n', 'fine\n'],
        ['This is latex\n', '! Undefined control sequence.\n', 'l.5 \\x\n', '\n', 'more\n'],
        ['! Undefined control sequence.'],
        ['a\n', '\n', '! Emergency stop.\n', 'b\n']]


class Box:
    """File system and latex program of the model."""
    def __init__(self, S):
        self.S, self.files, self.dirs, self.runs, self.missing = S, {}, set(), [], None

    def decide(self, n):
        return CTX.engine.decide(SBool(z3.Bool(n)))

    def is_missing(self):
        if self.missing is None:
            self.missing = self.decide('latex-missing')
        return self.missing

    def mkdtemp(self, *a, **k):
        d = '/model/tmp%d' % CTX.engine.fresh_id()
        self.dirs.add(d)
        return d

    def rmtree(self, d, *a, **k):
        d = posixpath.normpath(d)
        if d not in self.dirs:
            raise FileNotFoundError(d)
        self.dirs.discard(d)
        for f in [f for f in self.files if f.startswith(d + '/')]:
            del self.files[f]

    def open(self, path, mode='r', *a, **k):
        path = posixpath.normpath(path)
        if posixpath.dirname(path) not in self.dirs:
            raise FileNotFoundError(path)
        if 'r' in mode:
            if path not in self.files:
                raise FileNotFoundError(path)
        elif 'a' not in mode or path not in self.files:
            self.files[path] = ''
        return TFile(self, path, mode)

    def remove(self, path):
        if posixpath.normpath(path) not in self.files:
            raise FileNotFoundError(path)
        del self.files[posixpath.normpath(path)]

    def run(self, args, check=False, cwd=None, **k):
        if not isinstance(args, (list, tuple)) or 'shell' in k:
            raise Unsupported('shell command')
        args = [x for x in args]
        if not args[0].endswith('latex'):
            raise Unsupported('program %r' % args[0])
        if self.is_missing():
            raise FileNotFoundError(2, 'No such file or directory', args[0])
        out = cwd
        for i, x in enumerate(args[:-1]):
            if x.lstrip('-') == 'output-directory':
                out = args[i + 1]
        for x in args:
            if x.lstrip('-').startswith('output-directory='):
                out = x.split('=', 1)[1]
        src = args[-1]
        p = posixpath.normpath(posixpath.join(cwd or '/model/cwd', src))
        self.S.prove('latex.input-file', p in self.files, p)
        self.S.prove('latex.output-directory', out is not None and posixpath.normpath(out) in self.dirs, str(out))
        doc = self.files.get(p, '')
        rc = 0 if self.decide('latex-ok') else 1
        self.log = None
        for i in range(len(LOGS)):
            if self.decide('log-%d' % i):
                self.log = LOGS[i]
                if out is not None:
                    self.files[posixpath.join(posixpath.normpath(out), posixpath.basename(p)[:-4] + '.log')] = list(LOGS[i])
                break
        self.runs.append((doc, rc))
        if rc and check:
            raise self.CalledProcessError(rc, args)
        return types.SimpleNamespace(returncode=rc, args=args, stdout=None, stderr=None)

    def install(self, it):
        B = self
        import subprocess as _sp
        B.CalledProcessError = _sp.CalledProcessError

        class TemporaryDirectory:
            def __init__(self, *a, **k):
                self.name = B.mkdtemp()

            def __enter__(self):
                return self.name

            def __exit__(self, *a):
                self.cleanup()

            def cleanup(self):
                if self.name in B.dirs:
                    B.rmtree(self.name)
        it.external['tempfile'] = _Stub('tempfile', {'mkdtemp': B.mkdtemp, 'TemporaryDirectory': TemporaryDirectory})
        it.external['shutil'] = _Stub('shutil', {'rmtree': B.rmtree, 'which': lambda x, *a, **k: None if B.is_missing() else '/usr/bin/' + x})
        it.external['subprocess'] = _Stub('subprocess', {
            'run': B.run, 'call': lambda *a, **k: B.run(*a, **k).returncode,
            'check_call': lambda *a, **k: B.run(*a, check=True, **k).returncode,
            'DEVNULL': -3, 'PIPE': -1, 'STDOUT': -2, 'CalledProcessError': B.CalledProcessError})
        path = _Stub('os.path', {n: getattr(posixpath, n) for n in ('join', 'basename', 'dirname', 'normpath', 'splitext', 'split', 'isabs', 'sep', 'abspath', 'realpath', 'expanduser', 'expandvars', 'relpath')})
        path.__dict__.update(exists=lambda p: p in B.files or p in B.dirs, isfile=lambda p: p in B.files, isdir=lambda p: p in B.dirs)
        it.external['os'] = _Stub('os', {'path': path, 'remove': B.remove, 'unlink': B.remove, 'devnull': '/dev/null', 'sep': '/',
                                         'environ': dict(_os.environ)})
        it.external['os.path'] = path
        it.open_hook = self.open


def latex(S):
    """_testtex(s): success iff latex is missing or compiles the document with s as its body; nothing stays behind."""
    B = Box(S)
    try:
        m = S.fresh(B.install).load('wcxf.classes')
    except Unsupported as ex:
        S.eng.undecided.append(('latex', str(ex)))
        return
    if not hasattr(m, '_testtex'):
        S.eng.undecided.append(('latex', 'no function _testtex'))
        return

    def one(s):
        B.files.clear()
        B.dirs.clear()
        B.runs.clear()
        B.missing = None
        B.log = None
        if s is None:
            s = SStr.fresh('code')
        r = m._testtex(s)
        S.prove('latex.success', bool(r['success']) == (B.missing is True or all(rc == 0 for d, rc in B.runs)))
        S.prove('latex.run', len(B.runs) == (0 if B.missing else 1))
        for d, rc in B.runs:
            ps = pieces(d)
            where = [i for i, p in enumerate(ps) if (key_eq(p, s) is True if isinstance(s, SStr) else False)]
            S.prove('latex.body-once', len(where) == 1)
            if len(where) == 1:
                a, z = ''.join(map(str, ps[:where[0]])), ''.join(map(str, ps[where[0] + 1:]))
                S.prove('latex.document', 0 <= a.find('\\documentclass') < a.find('\\begin{document}') and '\\end{document}' in z
                        and 'amsmath' in a and 'amssymb' in a and '%' not in a[a.rfind('\n') + 1:], d[:80])
        S.prove('latex.nothing-left', not B.dirs and not B.files)
        if not bool(r['success']):
            S.prove('latex.log-is-text', isinstance(r['log'], str))
            mark = [l for l in B.log or [] if l.startswith('!')]
            if mark:
                S.prove('latex.first-error-reported', mark[0].strip() in r['log'], r['log'])
    S.explore(lambda: one(None), 'latex')
    S.assumed.append('subprocess.run returns the exit status of latex or raises FileNotFoundError; tempfile, shutil.rmtree and open as documented')
    S.bounded.append('log files left by latex: %d kinds (they only shape the message)' % (len(LOGS) + 1))
