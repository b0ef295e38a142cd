"""The tools as processes, in a scratch directory, against the library."""
import json
import os
import shutil
import sys
import tempfile
import traceback
import yaml
import io
import pylha
from native.wetlib import *
from native import c15 as E15, c16 as E16
from wcxf import cli
from wcxf.converters import eos as EOS, smeftsim as SS, yamljson
from spec import eos as SPE, smeftsim as SPS


def process(func, argv, text, cwd):
    """(status, stdout) of a console script with these arguments."""
    so, si, se = (os.path.join(cwd, '.' + n) for n in ('stdout', 'stdin', 'stderr'))
    with open(si, 'w') as f:
        f.write(text)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        st = 1
        try:
            os.chdir(cwd)
            for fd, p, m in ((0, si, os.O_RDONLY), (1, so, os.O_WRONLY | os.O_CREAT | os.O_TRUNC),
                             (2, se, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)):
                os.dup2(os.open(p, m, 0o600), fd)
            sys.stdin, sys.stdout, sys.stderr = open(0, 'r', closefd=False), open(1, 'w', closefd=False), open(2, 'w', closefd=False)
            sys.__stdin__, sys.__stdout__ = sys.stdin, sys.stdout
            sys.argv = ['tool'] + argv
            try:
                r = func()
            except SystemExit as e:
                r = e.code
            st = 0 if r is None or r is False else r & 255 if isinstance(r, int) else 1
            try:
                sys.stdout.flush()
            except ValueError:
                pass
            import gc
            gc.collect()
        except BaseException:
            traceback.print_exc()
            st = 1
        finally:
            try:
                sys.stderr.flush()
            except Exception:
                pass
            # files still open are closed (and flushed) when a process ends
            for o in __import__('gc').get_objects():
                try:
                    if isinstance(o, io.TextIOWrapper) and not o.closed and o.writable():
                        o.flush()
                except Exception:
                    pass
            os._exit(st)
    st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    return st, open(so).read(), open(se).read()


class Bad(Exception):
    pass


def lib(f):
    try:
        return f()
    except (Exception, SystemExit) as e:
        return Bad(repr(e))


def parse(t, fmt):
    return json.loads(t) if fmt == 'json' else yaml.load(t)


def content(o):
    return {k: v for k, v in o.__dict__.items() if not k.startswith('_')}


def place(r, cwd, argv, text, name='in.wcxf'):
    """Input by file, '-' or standard input; arguments and standard input."""
    m = r.choice(['file', 'file', '-', 'stdin'])
    if m == 'file':
        with open(os.path.join(cwd, name), 'w') as f:
            f.write(text)
        return argv + [name], ''
    return argv + (['-'] if m == '-' else []), text


def output(r, argv, allow_bare=True):
    m = r.choice(['file', 'file', 'none', '-', 'bare'])
    if m == 'file':
        return argv + ['--output', 'out.dat'], 'out.dat'
    if m == '-':
        return argv + ['--output', '-'], None
    if m == 'bare' and allow_bare:
        return argv + ['--output'], None
    return argv, None


def read(cwd, dst, out):
    if dst is None:
        return out
    p = os.path.join(cwd, dst)
    return open(p).read() if os.path.exists(p) else None


def outcome(R, name, ref, st, got, fmt, data, err):
    """ref: content the library produces, or Bad."""
    if isinstance(ref, Bad):
        R.check(name + ' failure reported', st != 0, 'library: %s; status %s' % (ref, st), **data)
        return
    if not R.check(name + ' status', st == 0, 'status %s: %s' % (st, err[-300:]), **data):
        return
    try:
        d = parse(got, fmt)
    except Exception as e:
        R.check(name + ' output', False, 'not %s: %r: %r' % (fmt, e, (got or '')[:200]), **data)
        return
    R.check(name + ' output', d == ref, 'differs from the library: %s' % str(d)[:300], **data)


def wc_text(R, corrupt=.1, eos=True):
    r = R.rng
    c = r.random() * (1 if eos else .6)
    if c < .4:
        flat = rand_flat(R, jms.keys(), mode=None)
        d = {'eft': 'WET', 'basis': 'JMS', 'scale': rand_scale(R)}
    elif c < .6:
        flat = rand_flat(R, wet.flavio_keys())
        d = {'eft': r.choice(['WET', 'WET-4', 'WET-3']), 'basis': 'flavio', 'scale': rand_scale(R)}
    else:
        flat = E15.coefficients(R, SPE.names())
        d = {'eft': 'WET', 'basis': 'EOS', 'scale': 4.2}
    ks = sorted(flat)[:r.choice([3, 30, 3000])]
    d['values'] = {k: (v.real if complex(v).imag == 0 else {'Re': complex(v).real, 'Im': complex(v).imag})
                   for k, v in ((k, complex(flat[k])) for k in ks)}
    if r.random() < .3:
        d['metadata'] = {'description': 'x'}
    if r.random() < corrupt:
        m = r.random()
        if m < .3:
            d['values']['unknown_name'] = 1.
        elif m < .5:
            d['basis'] = 'nonexistent'
        elif m < .6:
            del d['scale']
        elif m < .7:
            d['eft'] = 'XX'
        else:
            return d, '{"eft": "WET", '
    return d, (json.dumps(d) if r.random() < .6 else yaml.dump(d, default_flow_style=False))


def one(R, tmp, n):
    r = R.rng
    cwd = os.path.join(tmp, str(n))
    os.mkdir(cwd)
    old = r.random() < .4       # output files exist already

    def previous(p):
        if old:
            with open(os.path.join(cwd, p), 'w') as f:
                f.write(OLD)
    previous('out.dat')
    kind = ['translate', 'match', 'validate', 'convert', 'eos', 'smeftsim', 'usage'][n % 7]
    if kind in ('translate', 'match'):
        d, text = wc_text(R, .1, False)
        fmt = r.choice([None, None, 'json', 'yaml', 'yaml', 'YAML', 'xml'])
        good = r.random() < .8
        if kind == 'translate':
            ok = [b for a, b in (('JMS', 'flavio'), ('JMS', 'Bern'), ('JMS', 'EOS'), ('flavio', 'Bern')) if a == d['basis']]
            args = [r.choice(ok if good and ok else ['flavio', 'JMS', 'Bern', 'EOS', 'nonexistent', 'flavor'])]
            f = lambda: wcxf.WC.load(text).translate(*args)
        else:
            args = [r.choice(['WET-4', 'WET-3', 'WET', 'nonexistent']), r.choice(['flavio', 'JMS', 'nonexistent'])]
            if good:
                args = [{'WET': 'WET-4', 'WET-4': 'WET-3'}.get(d['eft'], 'WET-3'), d['basis']]
            f = lambda: wcxf.WC.load(text).match(*args)
        argv, inp = place(r, cwd, [kind] + args, text)
        if fmt:
            argv += ['--format', fmt]
        argv, dst = output(r, argv)
        fm = (fmt or 'json').lower()
        data = dict(argv=argv, input=text[:1500])

        def ref():
            o = f()
            return parse(o.dump(fmt=fmt or 'json'), fm)
        x = lib(ref)
        st, out, err = process(cli.wcxf_cli, argv, inp, cwd)
        outcome(R, kind, x, st, read(cwd, dst, out), fm, data, err)
        R.check(kind + ' standard output', dst is None or out == '', out[:100], **data)
    elif kind == 'validate':
        T = r.choice(['eft', 'basis', 'wc', 'wc', 'basis', 'other'])
        if T == 'wc' or T == 'other':
            d, text = wc_text(R, .5)
        elif T == 'basis':
            d = {'eft': 'WET', 'basis': 'Test', 'sectors': {'all': {'a': {'tex': 'x'}, 'b': {}}}}
            m = r.random()
            if m < .2:
                d['eft'] = 'XX'
            elif m < .4:
                d['sectors'] = {'nosector': {'a': {}}}
            elif m < .5:
                d['sectors']['two'] = {'a': {}}
            elif m < .6:
                del d['basis']
            text = json.dumps(d)
        else:
            d = {'eft': 'Test', 'sectors': {'all': {}}}
            m = r.random()
            if m < .3:
                del d['sectors']
            elif m < .4:
                d = []
            text = json.dumps(d)
        argv, inp = place(r, cwd, ['validate', T], text)
        data = dict(argv=argv, input=text[:1500])
        cls = {'eft': wcxf.EFT, 'basis': wcxf.Basis, 'wc': wcxf.WC}.get(T)

        def ref():
            if cls is None:
                raise ValueError('type')
            o = cls.load(text)
            if T != 'eft':
                o.validate()
            return 'ok'
        pid = os.fork()      # (loading registers the object)
        if pid == 0:
            os._exit(1 if isinstance(lib(ref), Bad) else 0)
        good = os.waitpid(pid, 0)[1] == 0
        st, out, err = process(cli.wcxf_cli, argv, inp, cwd)
        R.check('validate status', (st == 0) == good, 'status %s, valid: %s; %s' % (st, good, err[-200:]), **data)
        R.check('validate message', out == 'Validation successful.\n' if good else 'successful' not in out, out[:100], **data)
    elif kind == 'convert':
        d, text = wc_text(R, .2)
        F = r.choice(['json', 'yaml', 'JSON', 'Yaml', 'xml'])
        argv, inp = place(r, cwd, ['convert', F], text)
        argv, dst = output(r, argv)
        data = dict(argv=argv, input=text[:1500])

        def ref():
            o = io.StringIO()
            if F.lower() == 'json':
                x = yamljson.convert_json(io.StringIO(text), o)
            elif F.lower() == 'yaml':
                x = yamljson.convert_yaml(io.StringIO(text), o)
            else:
                raise ValueError('format')
            if x:
                raise ValueError('parse')
            return parse(o.getvalue(), F.lower())
        st, out, err = process(cli.wcxf_cli, argv, inp, cwd)
        outcome(R, 'convert', lib(ref), st, read(cwd, dst, out), F.lower(), data, err)
    elif kind == 'eos':
        d, text = wc_text(R, .3)
        pre = os.path.join(cwd, 'prefix')
        os.makedirs(os.path.join(pre, 'share/eos/parameters'))
        sm = {k: {'central': R.num(True), 'min': 0., 'max': 1.} for k in SPE.names() if r.random() < .6}
        E15.dump(os.path.join(pre, 'share/eos/parameters/a.yaml'), dict({'@metadata@': {'wcxf-relevant': True}}, **sm))
        argv, inp = place(r, cwd, [], text)
        argv += ['--eosprefix', pre]
        m = r.choice(['out', 'home', 'home', 'nohome', 'both'])
        dst = None
        if m == 'out':
            argv, dst = output(r, argv)
        else:
            home = os.path.join(cwd, 'home')
            argv += ['--eoshome', home]
            if m == 'home':
                os.makedirs(os.path.join(home, 'parameters'))
                dst = os.path.join(home, 'parameters', 'wcxf.yaml')
                previous(dst)
            elif m == 'both':
                os.makedirs(os.path.join(home, 'parameters'))
                argv += ['--output', 'out.dat']
        data = dict(argv=argv, input=text[:1500])

        def ref():
            if m in ('nohome', 'both'):
                raise ValueError('destination')
            wc = wcxf.WC.load(text)
            wc.validate()
            return EOS.wcxf2eos(wc, EOS.get_sm_wcs(os.path.join(pre, 'share/eos/parameters')))
        st, out, err = process(cli.eos, argv, inp, cwd)
        outcome(R, 'eos', lib(ref), st, read(cwd, dst, out), 'yaml', data, err)
    elif kind == 'smeftsim':
        names = SMEFT
        vals = {k: R.num(True) for k in r.sample(names, r.choice([0, 3, 100]))}
        d = {'eft': 'SMEFT', 'basis': r.choice(['Warsaw mass', 'Warsaw mass', 'Warsaw up']), 'scale': 1000., 'values': vals}
        if r.random() < .15:
            d['values']['unknown_name'] = 1.
        text = json.dumps(d)
        with open(os.path.join(cwd, 'in.json'), 'w') as f:
            f.write(text)
        argv, dst = ['in.json'], 'wcxf2smeftsim_param_card.dat'
        if r.random() < .6:
            dst = 'card.dat'
            argv += ['--output', dst]
        previous(dst)
        ms, sch, lam = 'A', 'alpha', 1000.
        if r.random() < .6:
            ms = r.choice('AB')
            argv += ['--model-set', ms]
        if r.random() < .6:
            sch = r.choice(['alpha', 'mw'])
            argv += ['--input-scheme', sch]
        if r.random() < .6:
            lam = r.choice([1., 500., 2345.678, 1e4])
            argv += ['--cutoff-scale', str(lam)]
        ans = r.choice(['i\n', 'I\n', 'x\n', '\n', ''])
        data = dict(argv=argv, input=text[:1500], answer=ans)

        def ref():
            wc = wcxf.WC.load(text)
            wc.validate()
            if wc.basis != 'Warsaw mass' and ans.strip().lower() != 'i':
                raise ValueError('declined')
            f = io.StringIO()
            pre, post = SS.smeftsim_card_text(ms, sch)
            f.write(pre)
            pylha.dump(SS.smeftsim_card_fill(SS.initialize_smeftsim_card(ms), wc, ms, lam, sch), fmt='lha', stream=f)
            f.write(post)
            return f.getvalue()
        x = lib(ref)
        st, out, err = process(cli.smeftsim, argv, ans, cwd)
        got = read(cwd, dst, out)
        if isinstance(x, Bad) and got == OLD and old:
            got = ''
        if isinstance(x, Bad):
            R.check('smeftsim failure reported', st != 0, '%s: status %s' % (x, st), **data)
            R.check('smeftsim no card', not got, 'card written', **data)
        else:
            R.check('smeftsim status', st == 0, 'status %s: %s' % (st, err[-300:]), **data)
            R.check('smeftsim card', got == x, 'differs from the library: %d/%d characters' % (len(got or ''), len(x)), **data)
    else:
        argv = r.choice([['nonsense'], ['translate'], ['translate', 'B', 'missing.json'], ['match', 'E'],
                         ['validate', 'wc', 'missing.json'], ['convert', 'json', 'missing.json'], ['convert']])
        st, out, err = process(cli.wcxf_cli, argv, '', cwd)
        R.check('usage error', st != 0, 'status %s' % st, argv=argv)
    shutil.rmtree(cwd)
    R.cases += 1


SMEFT = []
OLD = ''.join('"previous entry %d": {"central": %d}\n' % (i, i) for i in range(3000))


def run(R):
    global SMEFT
    for e in ('WET', 'WET-4', 'WET-3', 'SMEFT'):
        wcxf.EFT(e, {'all': {}})
    setup()
    reg('WET', 'EOS', sorted({k for n in SPE.names() for k in SPE.meaning(n)[1]}))
    SMEFT = sorted({k for p, k, _ in SPS.rows('A').values() if k})
    reg('SMEFT', 'Warsaw mass', SMEFT)
    reg('SMEFT', 'Warsaw up', SMEFT)
    tmp = tempfile.mkdtemp(prefix='c22')
    try:
        n = 0
        while R.time_left(25) and n < 350 * R.n and not R.failures:
            R.guard('tool', lambda: one(R, tmp, n))
            n += 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
