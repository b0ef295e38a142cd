#!/usr/bin/env python3-vt
"""check.py ID: decide one property on /repo's current tree.

1. contracts/<id>.py states the contracts; the VC generator (pyvc) executes the
   current source of /repo symbolically and discharges every obligation.
2. native/<id>.py replays the same contracts on the real code under CPython with
   generated inputs (replay of counterexamples, conformance of the verifier, and
   bounded stand-in where an obligation is out of reach)."""
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('WCXF_REPO', '/repo')
NATIVE_PY = '/opt/venv/bin/python'


def symbolic(pid, seed, tier, out):
    sys.setrecursionlimit(20000)
    from contracts.common import Session
    S = Session(pid, seed, tier)
    t = time.time()
    crash = None
    try:
        m = importlib.import_module('contracts.' + pid.lower())
        m.run(S)
    except Exception as ex:
        from pyvc.values import Unsupported
        if isinstance(ex, Unsupported):
            S.eng.undecided.append(('load', str(ex)))
        else:
            crash = '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-3000:])
    st, be = S.eng.summary()
    bad = [dict(name=o.name, status=o.status, backend=o.backend, detail=o.detail[:3000])
           for o in S.eng.obligations if o.status != 'proved']
    # several refutations of one obligation family: keep the list readable
    json.dump({
        'summary': st, 'backends': be, 'bad': bad[:400], 'n_bad': len(bad),
        'undecided': S.eng.undecided[:50], 'errors': S.errors[:20], 'vacuous': S.eng.vacuous,
        'paths': S.eng.paths, 'solver_time': S.eng.solver_time, 'solver_calls': S.eng.solver_calls,
        'functions': sorted(S.eng.functions), 'assumed': S.assumed, 'notes': S.notes,
        'bounded': S.bounded, 'denominators': sorted(S.eng.denoms)[:40], 'crash': crash,
        'wall': time.time() - t,
    }, open(out, 'w'))


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, timeout=timeout, capture_output=True, text=True, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b''), (e.stderr or b'')


def main():
    pid = sys.argv[1]
    if '--symbolic' in sys.argv:
        return symbolic(pid, int(sys.argv[3]), sys.argv[4], sys.argv[5])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'work'), exist_ok=True)
    replay = os.path.join(HERE, 'work', pid + '.replay.json')
    for f in (replay,):
        if os.path.exists(f):
            os.remove(f)
    sout = os.path.join(HERE, 'work', '%s.sym.%d.json' % (pid, os.getpid()))
    nout = os.path.join(HERE, 'work', '%s.nat.%d.json' % (pid, os.getpid()))
    ps = subprocess.Popen([sys.executable, os.path.abspath(__file__), pid, '--symbolic', str(seed), tier, sout],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    env = dict(os.environ, PYTHONPATH=HERE + ':' + REPO, PYTHONDONTWRITEBYTECODE='1',
               WCXF_REPO=REPO, PYTHONWARNINGS='ignore', OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2')
    pn = subprocess.Popen([NATIVE_PY, os.path.join(HERE, 'native', 'run.py'), pid, str(seed), tier, nout],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                          cwd=os.path.join(HERE, 'work'), start_new_session=True)
    T = 450 if tier == 'quick' else 3000

    def finish(p, left):
        try:
            o, _ = p.communicate(timeout=max(5, left))
            return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, _ = p.communicate()
            return 'timeout', o
    src, so = finish(ps, T - (time.time() - t0))
    nrc, no = finish(pn, T + 60 - (time.time() - t0))
    sym = json.load(open(sout)) if os.path.exists(sout) else None
    nat = json.load(open(nout)) if os.path.exists(nout) else None
    for f in (sout, nout):
        if os.path.exists(f):
            os.remove(f)

    known = load_known(pid)
    viol = []          # (kind, text, data)
    notes = []
    nat_ok = nat is not None
    if nat is None:
        notes.append('native stage gave no result (%s): %s' % (nrc, (no or '')[-1500:]))
    else:
        if nat['harness_error']:
            notes.append('native harness stopped: ' + nat['harness_error'])
            nat_ok = False
        for f in nat['failures']:
            viol.append(('replayed', f['name'] + ': ' + f['detail'], f))
    refuted = [b for b in sym['bad'] if b['status'] == 'refuted'] if sym else []
    undec = [b for b in sym['bad'] if b['status'] == 'undecided'] if sym else []
    for b in refuted:
        viol.append(('obligation', b['name'] + ': ' + b['detail'], b))
    known_hit = []
    rest = []
    for v in viol:
        k = next((k for k in known if k['match'] in v[1]), None)
        if k is not None:
            known_hit.append(k)
        else:
            rest.append(v)

    n_obl = sum(sym['summary'].values()) if sym else 0
    n_ok = sym['summary']['proved'] if sym else 0
    stage = 'proof'
    problems = []
    if sym is None:
        problems.append('symbolic stage gave no result (%s) %s' % (src, (so or '')[-1500:]))
    else:
        if sym['crash']:
            problems.append('symbolic stage stopped: ' + sym['crash'])
        if sym['undecided']:
            problems.append('out of reach: %s' % sym['undecided'][:5])
        if sym['errors']:
            problems.append('exception on symbolic input: %s' % [e[:2] for e in sym['errors'][:5]])
        if sym['vacuous']:
            problems.append('vacuous harnesses: %s' % sym['vacuous'])
        if undec:
            problems.append('%d obligations undecided, e.g. %s' % (len(undec), undec[0]))
        if n_obl == 0:
            problems.append('no obligations generated')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': level_of(pid),
        'coverage': {
            'obligations': n_obl, 'discharged': n_ok,
            'checker_cmd': 'python3-vt check.py %s' % pid,
            'trusted_base': ['pyvc verification-condition generator (pyvc/*.py)', 'Z3 (python3-vt z3-solver)',
                             'CPython ast module', 'mathematical (exact) arithmetic in place of IEEE doubles'],
            'backends': sym['backends'] if sym else {},
            'functions_under_contract': sym['functions'] if sym else [],
            'paths': sym['paths'] if sym else 0,
            'solver_time_s': round(sym['solver_time'], 3) if sym else 0,
            'solver_calls': sym['solver_calls'] if sym else 0,
            'undecided': len(undec),
            'undecided_because': problems,
            'bounded_stand_ins': sym['bounded'] if sym else [],
            'denominators_assumed_nonzero': sym['denominators'] if sym else [],
            'native_replay': {k: nat[k] for k in ('cases', 'checks', 'wall', 'coverage')} if nat else {},
        },
        'assumptions': list(dict.fromkeys((sym['assumed'] if sym else []) + ['numbers are exact (no rounding, no overflow)'])),
        'violations': len(rest),
        'wall_s': round(time.time() - t0, 2),
        'notes': (sym['notes'] if sym else []) + notes,
    }
    if problems and ev['level'] == 'proof':
        # not (completely) proved on this tree: say so
        ev['level'] = 'other'
        ev['coverage']['explanation'] = ('%d of %d obligations discharged; the rest is covered by the bounded native stage only: '
                                         % (n_ok, n_obl) + '; '.join(problems)[:1500])
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in {k['match']: k for k in known_hit}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d obligations, %d discharged (%s), %d refuted, %d undecided; native: %s; %.1f s' % (
        pid, n_obl, n_ok, sym['backends'] if sym else {}, len(refuted), len(undec),
        '%d checks' % nat['checks'] if nat else 'none', time.time() - t0))
    for p in problems:
        print('  note: ' + p[:1200])
    for p in notes:
        print('  note: ' + p[:1200])
    if rest:
        rep = [v for v in rest if v[0] == 'replayed']
        with open(replay, 'w') as f:
            json.dump({'property': pid,
                       'replayed_on_real_code': [v[2] for v in rep][:20],
                       'failed_obligations': [v[2] for v in rest if v[0] == 'obligation'][:50],
                       'how': '%s native/run.py %s %d %s OUT.json re-runs the failing inputs' % (NATIVE_PY, pid, seed, tier)},
                      f, indent=1, default=str)
        for v in rest[:8]:
            print('  %s: %s' % (v[0], v[1][:700]))
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if rep else ' no-failing-input-found'))
        return 1
    if not nat_ok and (sym is None or problems):
        print('undecided')
        return 3
    if problems:
        print('  undecided obligations are covered by the bounded native stand-in only')
    return 0


def level_of(pid):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        return next(c['level'] for c in m['checks'] if c['property'] == pid)
    except Exception:
        return 'proof'


def load_known(pid):
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


if __name__ == '__main__':
    sys.exit(main())
