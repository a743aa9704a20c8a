"""Runs all harnesses of a property in parallel, writes the evidence file and
prints the verdict."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from . import harness as H

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = os.path.join(HERE, 'run.py')
REPLAYS = os.path.join(HERE, 'replays')
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known_findings(prop):
    """[(harness, check prefix, text)]"""
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                w = dict(x.split('=', 1) for x in line.split()[1:4]
                         if '=' in x)
                if w.get('property') == prop:
                    out.append((w.get('harness'), w.get('check'),
                                line.split(None, 4)[-1]))
    except FileNotFoundError:
        pass
    return out


def replay(path, as_json=False):
    import run
    with open(path) as f:
        r = json.load(f)
    run.load_checks(r['property'])
    fn, opts = H.HARNESSES[r['property']][r['harness']]
    real = os.dup(1)
    os.dup2(2, 1)
    try:
        kept = None
        for env in r.get('before', ()):
            try:
                h, exc = H.run_concrete(fn, env, r['tier'], None,
                                        opts.get('tol', 1e-7))
                kept = h.made if r.get('keep') else None
            except H.Assumption:
                pass
        h, exc = H.run_concrete(fn, r['env'], r['tier'], None,
                                opts.get('tol', 1e-7), kept)
        failed = list(h.failed)
        if exc is not None and not (opts.get('allow') and
                                    isinstance(exc, opts['allow'])):
            from .worker import _where
            failed.append(('exception:' + type(exc).__name__,
                           '%s%s' % (exc, _where(exc))))
        detail = '; '.join('%s: %s' % x for x in failed[:6])
    except H.Assumption:
        failed, detail = [], 'input violates an assumption'
    sys.stdout.flush()
    os.dup2(real, 1)
    out = {'reproduced': bool(failed), 'failed': [x[0] for x in failed],
           'detail': detail}
    with os.fdopen(os.dup(real), 'w') as o:
        if as_json:
            o.write(json.dumps(out) + '\n')
        else:
            o.write('property %s harness %s\n' % (r['property'],
                                                  r['harness']))
            for env in r.get('before', ()):
                o.write('earlier run with inputs %s\n' % json.dumps(env))
            o.write('inputs %s\n' % json.dumps(r['env']))
            o.write(('REPRODUCED: ' if failed else 'not reproduced: ') +
                    detail + '\n')
    return 1 if failed else 0


def unlisted(r, kf):
    """violations of a harness the known findings do not cover, and those
    they cover"""
    viol, known = [], []
    for v in r['violations']:
        rest = []
        hit = None
        for c in v['failed'] or [v['check']]:
            m = [k for k in kf if k[0] == r['harness'] and
                 c.startswith(k[1])]
            if m:
                hit = m[0]
            else:
                rest.append(c)
        if rest or hit is None:
            viol.append((r['harness'], v))
        else:
            known.append((r['harness'], v, hit))
    return viol, known


class Stop:
    """After a replayed violation the remaining jobs get a short grace
    period: the verdict is settled."""
    GRACE = 20

    def __init__(self):
        self.at = None

    def found(self):
        if self.at is None:
            self.at = time.time() + self.GRACE

    def over(self):
        return self.at is not None and time.time() > self.at


def one(prop, name, shard, tier, seed, rdir, scratch, stop, kf):
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed),
               VERIF_REPLAY_DIR=rdir, MPLCONFIGDIR=scratch,
               VERIF_SHARD='%d/%d' % shard,
               TMPDIR=scratch)
    opts = H.HARNESSES[prop][name][1]
    lim = opts.get('budget', 300 if tier == 'quick' else 800) * 1.5 + 120
    r = None
    if stop.over():
        r = {'harness': name, 'unknown': ['not run: violation found']}
    else:
        p = subprocess.Popen([sys.executable, RUN, '--harness', prop, name],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, env=env, cwd=scratch)
        end = time.time() + lim
        while True:
            try:
                out, err = p.communicate(timeout=1)
                break
            except subprocess.TimeoutExpired:
                if time.time() > end or stop.over():
                    p.kill()
                    p.communicate()
                    r = {'harness': name, 'unknown': [
                        'worker time limit' if time.time() > end else
                        'stopped: violation found']}
                    break
    if r is None:
        try:
            r = json.loads(out.strip().splitlines()[-1])
        except Exception:
            r = {'harness': name, 'errors': ['worker died: rc=%s %s' % (
                p.returncode, err[-1500:])]}
        r['stderr'] = err[-2000:] if os.environ.get('VERIF_DEBUG') else ''
    for k in ('violations', 'unreproduced', 'unknown', 'errors',
              'functions', 'samples'):
        r.setdefault(k, [])
    if unlisted(r, kf)[0]:
        stop.found()
    return r


def check(prop, tier, seed):
    import run
    run.load_checks(prop)
    hs = H.HARNESSES.get(prop)
    if not hs:
        print('no harness for', prop)
        return 2
    t0 = time.time()
    rdir = os.path.join(REPLAYS, prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    scratch = tempfile.mkdtemp(prefix='bpverif-%s' % prop)
    names = [n for n in hs if tier == 'thorough' or
             not hs[n][1].get('thorough_only')]
    kf = known_findings(prop)
    stop = Stop()
    try:
        with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
            jobs = [(n, (i, hs[n][1].get('shards', 1))) for n in names
                    for i in range(hs[n][1].get('shards', 1))]
            res = list(ex.map(lambda j: one(prop, j[0], j[1], tier, seed,
                                            rdir, scratch, stop, kf), jobs))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    viol, bad, known = [], [], []
    for r in res:
        v, k = unlisted(r, kf)
        viol += v
        known += k
        if not r['violations']:
            for e in r['errors']:
                bad.append('%s: %s' % (r['harness'], e))
            for e in r['unknown']:
                bad.append('%s: inconclusive %s' % (r['harness'], e))
            for u in r['unreproduced']:
                bad.append('%s: counterexample to %s did not replay (%s) %s'
                           % (r['harness'], u['check'], u['detail'],
                              json.dumps(u['env'])[:600]))
            if not r.get('reached') and not hs[r['harness']][1].get(
                    'noreach'):
                bad.append('%s: no reachability witness' % r['harness'])
    for hname, v, hit in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, hit[2]))
    for hname, v in viol:
        print('counterexample in %s: %s' % (hname, v['detail'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    for b in bad if not viol else ():
        print('INCONCLUSIVE %s %s' % (prop, b))
    evidence(prop, tier, seed, res, viol, known, time.time() - t0)
    tot = sum(r.get('obligations', 0) for r in res)
    print('%s %s: %d harnesses, %d paths, %d obligations, %d queries, '
          '%.1f s' % (prop, tier, len(res), sum(r.get('paths', 0)
                                               for r in res), tot,
                      sum(r.get('stats', {}).get('queries', 0)
                          for r in res), time.time() - t0))
    if viol:
        return 1
    return 2 if bad else 0


def evidence(prop, tier, seed, res, viol, known, wall):
    st = {}
    for r in res:
        for k, v in r.get('stats', {}).items():
            st[k] = st.get(k, 0) + v
    fns = sorted({f for r in res for f in r['functions']})
    cov = {
        'states': sum(r.get('paths', 0) for r in res),
        'transitions': st.get('queries', 0),
        'traces_validated_against_impl': sum(r.get('validated', 0)
                                             for r in res),
        'samples': [{'harness': r['harness'], 'path': s}
                    for r in res for s in r['samples'][:1]][:20],
        'obligations': sum(r.get('obligations', 0) for r in res),
        'discharged': sum(r.get('discharged', 0) for r in res),
        'solver': st,
        'functions_encoded': fns,
        'harnesses': [{k: r.get(k) for k in (
            'harness', 'paths', 'complete', 'obligations', 'discharged',
            'checks', 'confirmed', 'validated', 'reached', 'dead', 'bounds', 'stubs', 'wall_s',
            'errors', 'unknown')} for r in res],
        'explanation': 'states = symbolic execution paths of the real '
                       'functions; transitions = solver queries; an '
                       'obligation counts as discharged when the negated '
                       'claim is unsatisfiable (directly, or after '
                       'normalisation to false in the polynomial ring)',
    }
    e = {'property': prop, 'tier': tier, 'seed': seed,
         'level': 'model_checking', 'coverage': cov,
         'assumptions': ASSUME + sorted({
             r.get('stubs') for r in res if r.get('stubs')}),
         'wall_s': round(wall, 2),
         'violations': [{'harness': h, 'check': v['check'],
                         'replay': v['replay'], 'detail': v['detail'][:500]}
                        for h, v in viol] +
                       [{'harness': h, 'check': v['check'], 'known': k[2]}
                        for h, v, k in known]}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1)


ASSUME = [
    'Floating-point numbers are treated as exact reals: rounding, overflow '
    'and cancellation are outside the claim.',
    'Every denominator the code divides by is assumed nonzero and every '
    'square-root argument nonnegative, unless a harness says otherwise.',
    'numpy, math, uncertainties and dtk.bicycle are represented by the '
    'algebraic stand-ins in engine/shims.py; they are compared with the '
    'real libraries on concrete inputs in every run '
    '(traces_validated_against_impl).',
]
