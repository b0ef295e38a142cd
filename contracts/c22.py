"""The command line tools against the contracts of the library functions.

The tools run with a model of the surroundings: argument parser (the real
argparse), standard streams, files, directories.  Every library function they
use (load, dump, translate, match, validate, the exporters) is replaced by its
contract: an uninterpreted result, or any of the exceptions it may raise."""
from .maplib import *
from .c06 import Doc, freeze, same, setup as docs
import argparse as _argparse
import contextlib
import inspect
import io
import os as _os
import sys as _sys
import types as _types


class File:
    """Text stream of the model."""
    encoding = 'utf-8'

    def __init__(self, name, mode):
        self.name, self.mode, self.out, self.closed = name, mode, [], False

    def write(self, x):
        if 'r' in self.mode:
            raise io.UnsupportedOperation('not writable')
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if x != '':
            self.out.append(x)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def read(self, *a):
        return ('text of', self.name)

    def readable(self):
        return 'r' in self.mode

    def writable(self):
        return 'r' not in self.mode

    def isatty(self):
        return False

    def fileno(self):
        raise Unsupported('fileno')

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Tok:
    """Result of a library function: uninterpreted."""
    def __init__(self, what, *of):
        self.what, self.of = what, of

    def __repr__(self):
        return '%s%r' % (self.what, self.of)


class World:
    def __init__(self, S, it, argv, stdin=True):
        self.S, self.it = S, it
        self.stdin, self.stdout, self.stderr = File('<stdin>', 'r'), File('<stdout>', 'w'), File('<stderr>', 'w')
        self.files = {'in.json': File('in.json', 'r')}
        self.dirs = {'/home/eos/parameters', '/home/eos'}
        self.argv = argv
        self.failed = []          # contracts that raised
        self.log = []             # (name, bound arguments, result)
        self.made = {}
        self.prompts = 0
        self.answer = None

    def decide(self, name):
        return CTX.engine.decide(SBool(z3.Bool(name)))

    def may_fail(self, name):
        if self.decide('fail_%s_%d' % (name, len(self.log))):
            self.failed.append(name)
            for c, e in (('v', ValueError), ('k', KeyError), ('a', AssertionError), ('o', OSError)):
                if self.decide('fail_%s_%d_%s' % (name, len(self.log), c)):
                    raise e('failure of ' + name)
            raise TypeError('failure of ' + name)

    def open(self, path, mode='r', *a, **k):
        if not isinstance(path, str):
            raise TypeError('expected str, bytes or os.PathLike object, not %s' % type(path).__name__)
        if mode in ('r', 'rt'):
            if path not in self.files:
                raise FileNotFoundError(path)
            f = self.files[path]
            return f
        if _os.path.dirname(path) not in self.dirs | {''}:
            raise FileNotFoundError(path)
        if mode not in ('w', 'wt', 'w+', 'a', 'at', 'a+', 'x', 'xt', 'r+', 'r+t'):
            raise Unsupported('open mode %s' % mode)
        f = File(path, 'w')
        if 'w' not in mode and self.exists(path):
            if 'x' in mode:
                raise FileExistsError(path)
            if path in self.files and self.files[path].out:
                raise Unsupported('output file opened again')
            f.out.append('the previous content')
        elif 'r' in mode:
            raise FileNotFoundError(path)
        self.files[path] = f
        return f

    def exists(self, path):
        """Output files may have been there before."""
        return path in self.files or path == _os.path.normpath(path) and _os.path.dirname(path) in self.dirs | {''} \
            and not path.startswith('missing') and self.decide('exists_' + path)

    def filetype(self):
        W = self

        class FileType:
            def __init__(self, mode='r', *a, **k):
                self.mode = mode

            def __call__(self, s):
                if s == '-':
                    return W.stdin if 'r' in self.mode else W.stdout
                try:
                    return W.open(s, self.mode)
                except OSError as e:
                    raise _argparse.ArgumentTypeError("can't open '%s': %s" % (s, e))
        return FileType

    def install(self, mod):
        it = self.it
        W = self

        class Parser(_argparse.ArgumentParser):
            def parse_args(self, args=None, namespace=None):
                return _argparse.ArgumentParser.parse_args(self, list(W.argv) if args is None else args, namespace)
        ap = _types.SimpleNamespace(**{k: getattr(_argparse, k) for k in dir(_argparse) if not k.startswith('__')})
        ap.FileType, ap.ArgumentParser = self.filetype(), Parser

        def leave(code=None):
            raise SystemExit(code)
        sy = _types.SimpleNamespace(argv=['tool'] + list(self.argv), stdin=self.stdin, stdout=self.stdout,
                                    stderr=self.stderr, exit=leave, modules=_sys.modules, path=_sys.path,
                                    version_info=_sys.version_info)
        pa = _types.SimpleNamespace(**{k: getattr(_os.path, k) for k in dir(_os.path) if not k.startswith('__')})
        pa.isdir = lambda p: p in W.dirs
        pa.exists = lambda p: p in W.dirs or W.exists(p)
        pa.isfile = lambda p: p not in W.dirs and W.exists(p)
        osm = _types.SimpleNamespace(path=pa, sep='/', linesep='\n', curdir='.', environ={}, PathLike=_os.PathLike)
        log = _types.SimpleNamespace(**{n: (lambda *a, **k: None) for n in
                                        ('error', 'warning', 'info', 'debug', 'critical', 'basicConfig', 'exception')})
        log.getLogger = lambda *a: log
        it.open_hook = self.open

        def print_(*a, sep=' ', end='\n', file=None, flush=False):
            f = W.stdout if file is None else file
            f.write(a[0] if len(a) == 1 and not isinstance(a[0], str) else sep.join(str(x) for x in a))
            f.write(end)

        def input_(prompt=''):
            W.prompts += 1
            if prompt:
                W.stdout.write(prompt)
            for a in ('i', 'I', 'x', 'ii', ''):
                if W.decide('answer_%s' % (a or 'empty')):
                    W.answer = a
                    return a
            W.answer = 'EOF'
            raise EOFError()
        it.builtins.update(print=print_, input=input_, quit=leave, exit=leave)
        new = {'argparse': ap, 'sys': sy, 'os': osm, 'logging': log}
        for m in [mod]:
            for n, v in list(vars(m).items()):
                if isinstance(v, _types.ModuleType) and v.__name__ in new or v in (_argparse, _sys, _os):
                    setattr(m, n, new[v.__name__])
                elif isinstance(v, _types.SimpleNamespace) and getattr(v, 'model', None):
                    setattr(m, n, new[v.model])
        for k, v in new.items():
            v.model = k
            it.external[k] = v
        it.external['pylha'] = _types.SimpleNamespace(dump=self.lha, load=None)
        if hasattr(mod, 'pylha'):
            mod.pylha = it.external['pylha']

    # -- contracts
    def lha(self, d, fmt=None, stream=None, **kw):
        if fmt not in ('lha', None):
            raise Unsupported('pylha format %s' % fmt)
        doc = Doc('lha', freeze(d) if isinstance(d, dict) else d)
        if stream is None:
            return doc
        stream.write(doc)

    def hook(self, cls, name, h):
        raw = inspect.getattr_static(cls, name)
        f = getattr(raw, '__func__', raw)

        def g(pf, args, kw):
            b = pf.bind(args, kw)
            return h(b, list(b.values()))
        self.S.eng.contracts[f.fullname] = g

    def status(self, run):
        """Exit status of a console script, None: no exit."""
        try:
            with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()):
                r = run()
        except SystemExit as e:
            r = e.code
        except (PathAbort, Unsupported, RecursionError):
            raise
        except Exception as e:
            self.exc = e
            return 1
        self.help = o.getvalue()
        if r is None or r is False or (isinstance(r, int) and r == 0):
            return 0
        return 1


def library(W, w):
    """Contracts of the classes."""
    S = W.S

    def load(b, v):
        cls = v[0]
        src = b.get('stream', v[1])
        key = 'load'
        W.may_fail('load')
        src = W.stream_of(src)
        if cls is w.WC:
            o = w.WC.__new__(w.WC)
            o.eft, o.scale = SStr.fresh('eft'), S.scale()
            o.basis = SStr.fresh('basis')
            o.values = coeff_map('values')
            o._dict = None
        else:
            o = cls.__new__(cls)
            o.eft = SStr.fresh('eft')
        o.tok = Tok('load', cls.__name__, src.name)
        W.log.append(('load', (cls, src), o))
        return o

    def dump(b, v):
        st, fmt = b.get('stream'), b.get('fmt', 'json')
        W.may_fail('dump')
        doc = Doc('file', Tok('dump', v[0].tok, fmt))
        W.log.append(('dump', (v[0], fmt), doc))
        if st is None:
            return doc
        st.write(doc)

    def conv(name, pars):
        def h(b, v):
            W.may_fail(name)
            o = w.WC.__new__(w.WC)
            o.tok = Tok(name, v[0].tok, *[b.get(p) for p in pars])
            W.log.append((name, tuple(v), o))
            return o
        return h

    def validate(b, v):
        W.may_fail('validate')
        W.log.append(('validate', (v[0],), None))
    W.hook(w.WC, 'load', load)
    W.hook(w.EFT, 'load', load)
    W.hook(w.Basis, 'load', load)
    W.hook(w.WC, 'dump', dump)
    W.hook(w.WC, 'translate', conv('translate', ['to_basis', 'parameters']))
    W.hook(w.WC, 'match', conv('match', ['to_eft', 'to_basis', 'parameters']))
    W.hook(w.WC, 'validate', validate)
    W.hook(w.Basis, 'validate', validate)


def stream_of(self, s):
    if isinstance(s, File):
        return s
    if isinstance(s, tuple) and s[:1] == ('text of',):
        return self.stdin if s[1] == '<stdin>' else self.files[s[1]]
    raise Unsupported('load of %r' % (s,))


World.stream_of = stream_of


def tokeq(a, b):
    if isinstance(a, Tok) and isinstance(b, Tok):
        return a.what == b.what and len(a.of) == len(b.of) and all(tokeq(x, y) for x, y in zip(a.of, b.of))
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        return bool(a == b)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(tokeq(a[k], b[k]) for k in a)
    return a is b or (type(a) is type(b) and a == b)


FILES = [([], '<stdin>'), (['-'], '<stdin>'), (['in.json'], 'in.json')]
OUTS = [([], '<stdout>'), (['--output', '-'], '<stdout>'), (['--output', 'out.json'], 'out.json'), (['--output'], '<stdout>')]


def run(S):
    it = docs(S)
    it.load('wcxf.cli')
    w = S.mod('wcxf')
    cli = S.mod('wcxf.cli')
    tasks = []

    def add(f, label):
        tasks.append((f, label))
    for fi, src in FILES:
        for ou, dst in OUTS:
            for fm, fmt in (([], 'json'), (['--format', 'yaml'], 'yaml'), (['--format', 'anything'], 'anything')):
                for order in (0, 1):
                    # the options before or after the positional arguments
                    pos = ['BASIS X'] + fi
                    if order and ou == ['--output']:
                        continue
                    a = ['translate'] + (fm + ou + pos if order else pos + fm + ou)
                    add(lambda a=a, src=src, dst=dst, fmt=fmt: conv(S, it, w, cli, a, src, dst, 'translate', ['BASIS X'], fmt), ' '.join(a))
                    pos = ['EFT X', 'BASIS X'] + fi
                    a = ['match'] + (fm + ou + pos if order else pos + fm + ou)
                    add(lambda a=a, src=src, dst=dst, fmt=fmt: conv(S, it, w, cli, a, src, dst, 'match', ['EFT X', 'BASIS X'], fmt), ' '.join(a))
            for F in ('json', 'yaml', 'JSON', 'Yaml', 'xml', ''):
                a = ['convert', F] + fi + ou
                add(lambda a=a, src=src, dst=dst, F=F: convert(S, it, w, cli, a, src, dst, F), ' '.join(a))
        for T in ('eft', 'basis', 'wc', 'WC', 'other'):
            a = ['validate', T] + fi
            add(lambda a=a, src=src, T=T: validate(S, it, w, cli, a, src, T), ' '.join(a))
    for a in ([], ['nonsense'], ['translate'], ['translate', 'B', 'missing.json'], ['match', 'E'], ['validate', 'wc', 'missing.json'],
              ['convert', 'json', 'missing.json'], ['convert']):
        add(lambda a=a: usage(S, it, w, cli, a), ' '.join(a))
    for fi, src in FILES:
        for ou, dst in OUTS + [(['--eoshome', '/home/eos'], '/home/eos/parameters/wcxf.yaml'),
                               (['--eoshome', '/home/eos', '--output', '-'], '/home/eos/parameters/wcxf.yaml'),
                               (['--eoshome', '/nowhere'], None), (['--eoshome', '/home/eos', '--output', 'out.json'], None)]:
            for pr, prefix in (([], '/usr'), (['--eosprefix', '/opt/eos'], '/opt/eos'), (['--eosprefix', '/opt/eos/'], '/opt/eos')):
                a = fi + pr + ou
                add(lambda a=a, src=src, dst=dst, prefix=prefix: eos(S, it, w, cli, a, src, dst, prefix), 'wcxf2eos ' + ' '.join(a))
    for fi, src in FILES[1:]:
        for ou, dst in (([], 'wcxf2smeftsim_param_card.dat'), (['--output', 'card.dat'], 'card.dat')):
            for sc, scheme in (([], 'alpha'), (['--input-scheme', 'mw'], 'mw'), (['--input-scheme', 'alpha'], 'alpha')):
                for cu, lam in (([], 1000), (['--cutoff-scale', '2500.5'], 2500.5), (['--cutoff-scale', '100'], 100)):
                    for mo, ms in (([], 'A'), (['--model-set', 'B'], 'B'), (['--model-set', 'A'], 'A')):
                        a = fi + ou + sc + cu + mo
                        add(lambda a=a, src=src, dst=dst, o=(scheme, lam, ms): smeftsim(S, it, w, cli, a, src, dst, o),
                            'wcxf2smeftsim ' + ' '.join(a))
    for a in (['in.json', '--model-set', 'C'], ['in.json', '--input-scheme', 'x'], ['in.json', '--cutoff-scale', 'x'], ['missing.json']):
        add(lambda a=a: bad_smeftsim(S, it, w, cli, a), 'wcxf2smeftsim ' + ' '.join(a))

    # a few hundred short tasks: group them
    n = 16
    groups = [tasks[i::n] for i in range(n)]
    run_groups(S, groups)
    S.bounded.append('command lines: %d combinations of subcommand, options, option order and stream kinds (all option '
                     'values that the tools distinguish; names passed through are uninterpreted)' % len(tasks))
    S.assumed += ['argparse (the real module runs), file objects, os.path, print, input, logging as documented',
                  'contracts of load, dump, translate, match, validate, convert_*, get_sm_wcs, wcxf2eos, smeftsim_card_*, '
                  'pylha.dump: uninterpreted results or ValueError/KeyError/AssertionError/TypeError (their meaning: C01-C16)']


def run_groups(S, groups):
    """Each group of tasks in one process."""
    real = S.explore

    def explore(fn, label):
        if isinstance(fn, list):
            for f, l in fn:
                real(f, l)
        else:
            real(fn, label)
    S.explore = explore
    try:
        S.parallel([(g, 'group %d' % i) for i, g in enumerate(groups)])
    finally:
        del S.explore


def start(S, it, w, cli, argv):
    W = World(S, it, argv)
    W.install(cli)
    for k in [k for k in S.eng.contracts if k.startswith('wcxf.')]:
        del S.eng.contracts[k]
    library(W, w)
    return W


def dest(W, name):
    return W.stdout if name == '<stdout>' else W.files.get(name)


def conv(S, it, w, cli, argv, src, dst, op, pars, fmt):
    W = start(S, it, w, cli, argv)
    st = W.status(cli.wcxf_cli)
    if W.failed:
        S.prove(op + '.failure-reported', st != 0, 'failed: %s' % W.failed)
        return
    S.prove(op + '.status', st == 0, '%s: %r' % (argv, getattr(W, 'exc', None)))
    if st:
        return
    if op == 'translate':
        t = Tok('translate', Tok('load', 'WC', src), pars[0], None)
    else:
        t = Tok('match', Tok('load', 'WC', src), pars[0], pars[1], None)
    written(S, W, op, dst, [Tok('dump', t, fmt)])


def written(S, W, op, dst, toks):
    f = dest(W, dst)
    out = [x.content if isinstance(x, Doc) else x for x in (f.out if f is not None else [])]
    if len(out) == len(toks) + 1 and out[-1] == '\n':
        out = out[:-1]      # terminating line break
    S.prove(op + '.output', len(out) == len(toks) and all(tokeq(a, b) for a, b in zip(out, toks)),
            'to %s: %r' % (dst, out))
    for n, g in list(W.files.items()) + [('<stdout>', W.stdout)]:
        if g is not f:
            S.prove(op + '.nothing-else', not any(isinstance(x, Doc) for x in g.out), 'output in %s' % n)


def convert(S, it, w, cli, argv, src, dst, F):
    W = start(S, it, w, cli, argv)
    yj = S.mod('wcxf.converters.yamljson')

    def h(fmt):
        def g(b, v):
            if W.decide('unparsable'):
                W.failed.append('convert')
                return 1
            W.may_fail('convert')
            s = W.stream_of(v[0])
            v[1].write(Doc('file', Tok('convert', s.name, fmt)))
            return None
        return g
    W.hook(yj, 'convert_json', h('json'))
    W.hook(yj, 'convert_yaml', h('yaml'))
    st = W.status(cli.wcxf_cli)
    if F.lower() not in ('json', 'yaml'):
        S.prove('convert.unknown-format', st != 0 and not any(isinstance(x, Doc) for f in W.files.values() for x in f.out))
        return
    if W.failed:
        S.prove('convert.failure-reported', st != 0, str(W.failed))
        return
    S.prove('convert.status', st == 0, '%s: %r' % (argv, getattr(W, 'exc', None)))
    if st == 0:
        written(S, W, 'convert', dst, [Tok('convert', src, F.lower())])


def validate(S, it, w, cli, argv, src, T):
    W = start(S, it, w, cli, argv)
    st = W.status(cli.wcxf_cli)
    text = ''.join(x for x in W.stdout.out if isinstance(x, str))
    if T not in ('eft', 'basis', 'wc'):
        if T.lower() in ('eft', 'basis', 'wc') and st == 0 and not W.failed:
            pass        # capitalisation accepted
        else:
            S.prove('validate.unknown-type', st != 0 and 'successful' not in text)
            return
    elif W.failed:
        S.prove('validate.failure-reported', st != 0 and 'successful' not in text, str(W.failed))
        return
    S.prove('validate.status', st == 0, '%s: %r' % (argv, getattr(W, 'exc', None)))
    if st:
        return
    S.prove('validate.message', text == 'Validation successful.\n', text)
    cls = {'eft': w.EFT, 'basis': w.Basis, 'wc': w.WC}[T.lower()]
    loads = [x for x in W.log if x[0] == 'load']
    S.prove('validate.loads', any(x[1][0] is cls and x[1][1].name == src for x in loads))
    if cls is not w.EFT:
        S.prove('validate.validates', any(x[0] == 'validate' and getattr(x[1][0], 'tok', None) is not None and
                                          tokeq(x[1][0].tok, Tok('load', cls.__name__, src)) for x in W.log))


def usage(S, it, w, cli, argv):
    W = start(S, it, w, cli, argv)
    st = W.status(cli.wcxf_cli)
    if argv:
        S.prove('usage.error', st != 0, str(argv))
    S.prove('usage.no-output', not any(isinstance(x, Doc) for f in list(W.files.values()) + [W.stdout] for x in f.out))


def eos(S, it, w, cli, argv, src, dst, prefix):
    W = start(S, it, w, cli, argv)
    m = S.mod('wcxf.converters.eos')

    def sm(b, v):
        W.may_fail('sm')
        W.log.append(('sm', (v[0],), None))
        return {'sm': Tok('sm', _os.path.normpath(v[0]))}

    def conv(b, v):
        W.may_fail('wcxf2eos')
        wc = [x for x in v if isinstance(x, w.WC)][0]
        s = [x for x in v if isinstance(x, dict)][0]
        return {'eos': Tok('eos', wc.tok, dict(s))}
    W.hook(m, 'get_sm_wcs', sm)
    W.hook(m, 'wcxf2eos', conv)
    st = W.status(cli.eos)
    if dst is None:
        S.prove('eos.bad-destination', st != 0, str(argv))
        return
    if W.failed:
        S.prove('eos.failure-reported', st != 0, str(W.failed))
        return
    S.prove('eos.status', st == 0, '%s: %r' % (argv, getattr(W, 'exc', None)))
    if st:
        return
    S.prove('eos.validated', any(x[0] == 'validate' for x in W.log))
    written(S, W, 'eos', dst, [{'eos': Tok('eos', Tok('load', 'WC', src), {'sm': Tok('sm', prefix + '/share/eos/parameters')})}])
    f = dest(W, dst)
    S.prove('eos.format', f is not None and bool(f.out) and getattr(f.out[0], 'fmt', None) == 'yaml')


def cards(S, W, w):
    m = S.mod('wcxf.converters.smeftsim')

    def init(b, v):
        W.may_fail('init')
        return {'init': Tok('init', v[0])}

    def fill(b, v):
        W.may_fail('fill')
        card, wc, ms, lam, scheme = v
        card['filled'] = Tok('fill', wc.tok, ms, float(lam), scheme)
        return card

    def text(b, v):
        W.may_fail('text')
        return Doc('text', Tok('pre', *v)), Doc('text', Tok('post', *v))
    W.hook(m, 'initialize_smeftsim_card', init)
    W.hook(m, 'smeftsim_card_fill', fill)
    W.hook(m, 'smeftsim_card_text', text)


def smeftsim(S, it, w, cli, argv, src, dst, o):
    scheme, lam, ms = o
    W = start(S, it, w, cli, argv)
    cards(S, W, w)
    st = W.status(cli.smeftsim)
    if W.failed:
        S.prove('smeftsim.failure-reported', st != 0, str(W.failed))
        return
    if W.prompts and W.answer not in ('i', 'I'):
        S.prove('smeftsim.declined', st != 0 and not any(f.out for n, f in W.files.items()), 'answer %r: status %r' % (W.answer, st))
        return
    wc = [x[2] for x in W.log if x[0] == 'load']
    S.prove('smeftsim.one-input', len(wc) == 1)
    warsaw = bool(wc[0].basis == 'Warsaw mass')
    S.prove('smeftsim.prompt', (W.prompts == 0) == warsaw)
    S.prove('smeftsim.status', st == 0, '%s: %r' % (argv, getattr(W, 'exc', None)))
    if st:
        return
    S.prove('smeftsim.validated', any(x[0] == 'validate' for x in W.log))
    written(S, W, 'smeftsim', dst, [
        Tok('pre', ms, scheme),
        {'init': Tok('init', ms), 'filled': Tok('fill', Tok('load', 'WC', src), ms, float(lam), scheme)},
        Tok('post', ms, scheme)])


def bad_smeftsim(S, it, w, cli, argv):
    W = start(S, it, w, cli, argv)
    cards(S, W, w)
    st = W.status(cli.smeftsim)
    S.prove('smeftsim.usage', st != 0 and not any(f.out for f in W.files.values()))
