"""Runs one harness: symbolic exploration, solver queries, replays,
validation of the encoding.  Prints one JSON object."""
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

from . import harness as H
from . import loader, shims
from . import poly as P
from . import sym as S

z3 = S.z3
PY = sys.executable
RUN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), 'run.py')


def short(e):
    return '%s: %s' % (type(e).__name__, str(e)[:300])


class Worker:
    def __init__(self, prop, name, tier, seed):
        self.prop, self.name, self.tier = prop, name, tier
        self.fn, self.opts = H.HARNESSES[prop][name]
        self.seed = seed
        self.rng = random.Random('%s/%s/%s' % (prop, name, seed))
        self.tol = self.opts.get('tol', 1e-7)
        self.viol = []          # confirmed
        self.unrep = []         # unreproduced counterexamples
        self.unknown = []
        self.errors = []
        self.tried = {}
        self.vacuous_paths = 0
        self.nobl = 0
        self.ndis = 0
        self.checknames = set()
        self.samples = []
        self.validated = 0
        self.excpaths = 0
        self.nconf = 0
        self.seen = []
        self.history = False
        self.alias = frozenset()
        self.again = 0
        self.ntold = 0
        self.conf_s = 0.0
        self.confirmed = 0
        self.t0 = time.time()
        self.budget = self.opts.get(
            'budget', 300 if tier == 'quick' else 800)
        self.deadline = self.t0 + self.budget

    # ----------------------------------------------------------------
    def models(self, fs, gens, neg, hvars, choices, n_pin=6, full_ms=4000):
        """Yield candidate concrete inputs satisfying fs and neg.
        The last element yielded is ('end', status)."""
        allg = {g.idx: g for g in gens}
        for v in hvars.values():
            for g in v.gens():
                allg[g.idx] = g
        glist = list(allg.values())
        _, seen = S.closure(glist)
        glist = list(seen.values())
        base = {'choice:' + k: v for k, v in choices.items()}

        def full(e):
            for name, v in hvars.items():    # inputs equal to others
                for g in v.gens():
                    if name not in e and g.kind == 'var' and g.name in e:
                        e[name] = e[g.name]
            e.update(base)
            return e
        n = 0
        found = 0
        for i in range(n_pin):
            env, cs = H.pins_for(glist, self.rng)
            if i >= n_pin // 2 and i % 2:
                # free a random half of the variables
                cs2 = []
                free = set()
                names = [g.name for g in glist if g.kind == 'var']
                for nm in names:
                    if self.rng.random() < 0.5:
                        free.add(nm)
                known = {k: v for k, v in env.items() if k not in free}
                g2 = []
                for g in glist:
                    if g.kind == 'var' and g.name in free:
                        continue
                    if g.kind in ('cos', 'exp') and any(
                            x.name in free for x in g.data['arg'].gens()):
                        continue
                    g2.append(g)
                _, cs = H.pins_for(g2, self.rng, known)
                env = known
            r, m, _ = S.solve(fs + neg, glist, 1500, extra=cs,
                              want_model=True)
            if r == 'sat':
                e = H.model_env(m, glist, env)
                found += 1
                yield ('model', full(e))
            n += 1
        r, m, _ = S.solve(fs + neg, glist, full_ms, want_model=True)
        if r == 'sat':
            e = H.model_env(m, glist, {})
            yield ('model', full(e))
        yield ('end', r)

    def feasible_now(self, fs, gens):
        r, _, _ = S.solve(fs, gens, 2000)
        return r

    def replay(self, env, origin, before=None, keep=False):
        d = os.environ['VERIF_REPLAY_DIR']
        path = os.path.join(d, '%s-%s-%d-%d.json' % (
            self.prop, self.name, os.getpid(), len(os.listdir(d))))
        with open(path, 'w') as f:
            r = {'property': self.prop, 'harness': self.name,
                 'env': env, 'tier': self.tier, 'origin': origin}
            if before:
                r['before'], r['keep'] = before, keep
            json.dump(r, f, indent=1)
        try:
            r = subprocess.run([PY, RUN, '--replay', path, '--json'],
                               capture_output=True, text=True, timeout=120)
            out = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception as e:
            out = {'reproduced': False, 'detail': 'replay error ' + short(e)}
        if not out.get('reproduced'):
            os.unlink(path)
        return out, path

    def earlier(self, env):
        """inputs of runs that come first in a history: any, and other
        values with the same choices"""
        out = []
        choices = {k: v for k, v in env.items() if k.startswith('choice:')}
        for i, base in enumerate((choices, {}, {})):
            h, exc = H.sample(self.fn, self.tier, '%s/%s/past%d/%s' % (
                self.prop, self.name, i, self.seed), self.tol, base=base)
            if h is not None:
                out.append(h.env)
        return out + self.seen

    def candidate(self, nm, env, origin, first=None):
        """Replay; True when confirmed."""
        self.tried[nm] = self.tried.get(nm, 0) + 1
        if self.history:
            # the values of the first and of the second use
            first = [{k: v for k, v in env.items()
                      if not k.endswith(H.AGAIN)}]
            env = {k[:-len(H.AGAIN)]: v for k, v in env.items()
                   if k.endswith(H.AGAIN)}
            env.update((k, v) for k, v in first[0].items()
                       if k.startswith('choice:') or k in self.alias)
        out, path = self.replay(env, origin)
        if not out.get('reproduced') and first:
            out, path = self.replay(env, origin + ', second use', first, True)
        if not out.get('reproduced') and self.ntold < 4:
            # what the code keeps from one use to the next: the same input
            # after other inputs, in one process
            self.ntold += 1
            out, path = self.replay(env, origin + ', after earlier runs',
                                    self.earlier(env))
        if out.get('reproduced'):
            self.viol.append({'check': nm, 'failed': out['failed'],
                              'replay': path, 'detail': out['detail']})
            return True
        self.unrep.append({'check': nm, 'env': env,
                           'detail': out.get('detail', '')})
        return False

    def attack(self, nm, fs, gens, neg, ngens, h, origin):
        """Search for a reproducible counterexample of one obligation.
        Returns 'unsat' | 'viol' | 'unrep' | 'unknown'."""
        if self.tried.get(nm, 0) > 8:
            return 'skipped'
        end = 'unknown'
        any_model = False
        ms = 3000
        if self.opts.get('full_first', True):
            for some in (self.fewer, fs):
                if some is None or some is self.fewer and not neg:
                    continue
                r, _, _ = S.solve(some + neg, gens + ngens, ms)
                if r == 'unsat':
                    return 'unsat'
        for kind, val in self.models(
                fs, gens + ngens, neg, h.vars, h.choices,
                n_pin=self.opts.get('pins', 6),
                full_ms=self.opts.get('solver_ms', 10000 if self.tier ==
                                      'quick' else 60000)):
            if kind == 'end':
                end = val
                break
            any_model = True
            if self.candidate(nm, val, origin):
                return 'viol'
            if self.tried.get(nm, 0) > 8:
                break
            if time.time() > self.deadline:
                return 'unknown'
        if any_model:
            return 'unrep'
        return end

    # ----------------------------------------------------------------
    def judge(self, path, h, out):
        fs, gens = path.formulas()
        self.fewer = path.formulas(keys=False)[0] if path.keyfacts else None
        if isinstance(out, (S.Unsupported, P.TooBig, RecursionError)):
            self.errors.append(short(out) + _where(out))
            return
        if out is not None:
            if self.opts.get('allow') and isinstance(out,
                                                     self.opts['allow']):
                return
            nm = 'exception:' + type(out).__name__
            r = self.attack(nm, fs, gens, [], [], h,
                            'exception %s%s' % (short(out), _where(out)))
            if r == 'unsat':
                self.vacuous_paths += 1
                return
            self.excpaths += 1
            if r in ('unknown', 'unrep'):
                self.errors.append('unexplained exception %s%s' % (
                    short(out), _where(out)))
            return
        pend = []
        for kind, nm, pay in h.obl:
            self.nobl += 1
            self.checknames.add(nm)
            if kind == 'eq':
                a, b = pay
                d = a - b
                if not d.n:
                    S.STATS.trivial += 1
                    self.ndis += 1
                    continue
                pend.append((nm, [S.rel_z3(d.n, S.SIGNS['!='])],
                             P.gens_of(d.n)))
            else:
                if isinstance(pay, S.BoolSym):
                    gs = []
                    for p in pay.polys():
                        gs += P.gens_of(p)
                    pend.append((nm, [z3.Not(pay.z3())], gs))
                elif bool(pay):
                    S.STATS.trivial += 1
                    self.ndis += 1
                else:
                    pend.append((nm, [], []))
        self.confirm(h)
        for nm, neg, gs in pend:
            if self.viol and not self.opts.get('all'):
                return
            if time.time() > self.deadline:
                self.unknown.append(nm + ' (time budget)')
                return
            r = self.attack(nm, fs, gens, neg, gs, h, 'obligation ' + nm)
            if r == 'unsat':
                self.ndis += 1
            elif r == 'unknown':
                self.unknown.append(nm)

    def confirm(self, h):
        """Hand the solver the cross-multiplied, unsubtracted equations of
        this path (those whose difference already cancelled in the ring)."""
        lim = 5 if self.tier == 'quick' else 60
        if self.conf_s > lim or time.time() - self.t0 > self.budget / 3:
            return
        t0 = time.time()
        neg, gens, size = [], [], 0
        seen = set()
        for kind, nm, pay in h.obl:
            if kind != 'eq':
                continue
            a, b = pay
            if (a - b).n or (a.is_const() and b.is_const()):
                continue
            t = len(a.n) + len(b.n)
            k = (a.key(), b.key())
            if t > 600 or size > 4000 or k in seen:
                continue
            seen.add(k)
            size += t
            da, db = S.poly_z3(a.denpoly()), S.poly_z3(b.denpoly())
            na, nb = S.poly_z3(a.n), S.poly_z3(b.n)
            if a.d == b.d and a.k == b.k:
                da = db = z3.RealVal(1)
            neg.append(na * db != nb * da)
            gens += list(a.gens() | b.gens())
        if not neg:
            return
        self.nconf += 1
        r, _, _ = S.solve([z3.Or(neg)], gens, 3000)
        self.conf_s += time.time() - t0
        if r == 'unsat':
            self.confirmed += len(neg)
        elif r == 'sat':
            self.errors.append('solver disagrees with the normaliser')

    def run(self):
        loader.start_trace()
        P.reset()
        S.FACT.clear()
        S.ANG.clear()
        hs = {}

        def body(path):
            shims.EXT.clear()
            h = H.SymH(path, self.tier)
            hs['h'] = h
            try:
                self.fn(h)
            finally:
                h.cleanup()
        mp = self.opts.get('max_paths', 3000)
        fm = self.opts.get('feas_ms', 1500)
        if self.tier == 'thorough':
            mp *= 10
        ex = S.Explorer(body, mp, fm, self.deadline)

        def late(*a):
            raise S.Budget('time budget')
        signal.signal(signal.SIGALRM, late)
        # one evaluation that never comes back must not keep the validation
        # of the encoding from running
        signal.setitimer(signal.ITIMER_REAL, self.budget + 10, 3)
        complete = False
        used, most = [], (0, {})
        try:
            loader.load('bicycleparameters')
        except Exception as e:
            if not isinstance(e, S.Unsupported):
                pass
            self.errors.append('load: ' + short(e) + _where(e))
        try:
            for path, out in ex.run():
                S.CTX = path
                self.judge(path, hs['h'], out)
                S.CTX = None
                if out is None and hs['h'].obl and hs['h'].vars:
                    c, k = dict(hs['h'].choices), len(hs['h'].obl)
                    used[1:] = [c]
                    if k > most[0]:
                        most = (k, c)
                if len(self.samples) < 4 and out is None:
                    self.samples.append(
                        [str(x) for x in path.taken[:20]] +
                        ['checks=%d' % len(hs['h'].obl)])
                if self.viol and not self.opts.get('all'):
                    break
            complete = not ex.stack
            if complete and not self.viol:
                self.repeat(used[:1] + [most[1]] + used[1:], hs, fm)
        except S.Budget as e:
            self.unknown.append(short(e))
        except Exception as e:
            self.errors.append('engine ' + short(e) + _where(e))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            S.CTX = None
        self.ex = ex
        if not self.viol:
            self.validate(ex, hs)
        return self.result(ex, complete)

    def repeat(self, used, hs, fm):
        """Decide the obligations once more for the first, the largest and
        the last path when the code has been used before: with the same
        choices and other values, on the same objects where the harness
        keeps them, after everything else that was run in this process."""
        if time.time() - self.t0 > self.budget / 2:
            return

        def body(path):
            kept = None
            for turn in range(2):
                shims.EXT.clear()
                h = H.SymH(path, self.tier, choices, kept, self.alias)
                hs['h'] = h
                try:
                    self.fn(h)
                finally:
                    h.cleanup()
                kept = h.made
        for choices in _uniq(used):
            alias = frozenset()
            compared = self.twice(body, hs, fm, alias, 3)
            # again with the same values wherever the code compares the
            # values of the two uses or uses them as keys
            while compared != alias and not self.viol and \
                    time.time() - self.t0 < self.budget / 2:
                alias = compared
                compared = alias | self.twice(body, hs, fm, alias, 1)
            if self.viol:
                return

    def twice(self, body, hs, fm, alias, most):
        """One pair of uses; the inputs named in alias have the same values
        in both.  Returns the inputs whose values the code compared."""
        self.history, self.alias = True, alias
        ex = S.Explorer(body, most, fm, self.deadline)
        ex.pairs = set()
        names = set()
        try:
            for path, out in ex.run():
                S.CTX = path
                for x, _ in path.hashed:
                    for y in ((x.re, x.im) if isinstance(x, S.CSym) else (x,)):
                        names |= {g.name for g in y.gens() if g.kind == 'var'}
                self.judge(path, hs['h'], out)
                S.CTX = None
                self.again += 1
                if self.viol or ex.npaths >= most:
                    break
        finally:
            self.history = False
        return frozenset(n for n in names | ex.pairs
                         if not n.endswith(H.AGAIN))

    def validate(self, ex, hs):
        """Push concrete inputs through the real code and the encoding."""
        n = self.opts.get('validate', 2)
        if self.tier == 'thorough':
            n *= 4
        self.reached = 0
        for i in range(n + 1):
            base, kept = {}, None
            if i == n:      # other values with choices used before
                if not self.seen:
                    break
                try:
                    kept = H.run_concrete(
                        self.fn, self.seen[0], self.tier, None,
                        self.tol)[0].made
                except H.Assumption:
                    break
                base = {k: v for k, v in self.seen[0].items()
                        if k.startswith('choice:')}
            ch, exc = H.sample(self.fn, self.tier, '%s/%s/%d/%s' % (
                self.prop, self.name, i, self.seed), self.tol, base=base,
                kept=kept)
            if ch is None and i == n:
                break
            if ch is None:
                self.errors.append('vacuous: no sampled input satisfies the '
                                   'assumptions')
                return
            if exc is not None or ch.failed:
                if self.opts.get('allow') and exc is not None and \
                        isinstance(exc, self.opts['allow']):
                    self.reached += 1
                    continue
                # the unmodified code fails the property on this input
                nm = ch.failed[0][0] if ch.failed else \
                    'exception:' + type(exc).__name__
                if self.candidate(nm, ch.env, 'validation input',
                                  self.seen[:1] if i == n else None):
                    return
                self.errors.append('validation input failed once but not on '
                                   'replay: %s %s' % (nm, exc))
                continue
            if i == n:
                break
            self.seen.append(ch.env)
            self.reached += 1
            if self.opts.get('concolic', True) is False or \
                    time.time() > self.deadline:
                continue
            try:
                ex.run_env(ch.env)
            except (S.PathAbort, KeyError) as e:
                continue
            except (S.Unsupported, P.TooBig) as e:
                self.errors.append('validation: ' + short(e) + _where(e))
                continue
            except Exception as e:
                self.errors.append('validation: symbolic run raised '
                                   + short(e) + _where(e))
                continue
            finally:
                S.CTX = None
            h = hs['h']
            con = {}
            for nm, x, y in ch.observed:
                con.setdefault(nm, []).append((x, y))
            bad = None
            cmpd = 0
            count = {}
            for nm, x, y in h.observed:
                base = nm[:-5] if nm.endswith(('.real', '.imag')) else nm
                lst = con.get(nm) or con.get(base)
                if not lst:
                    continue
                seen = count.get(nm, 0)
                count[nm] = seen + 1
                if seen >= len(lst):
                    continue
                cx, cy = lst[seen]
                if nm not in con:
                    cx = getattr(complex(cx), nm[-4:])
                    cy = getattr(complex(cy), nm[-4:])
                try:
                    sx, sy = x.evalf(ch.env), y.evalf(ch.env)
                except (KeyError, ValueError, ZeroDivisionError,
                        OverflowError):
                    continue
                if isinstance(cx, complex) or isinstance(cy, complex):
                    continue
                for a, b in ((sx, cx), (sy, cy)):
                    if b != b:
                        continue
                    if not abs(a - b) <= max(self.tol * 10, 1e-6) * (
                            1e-1 + max(abs(a), abs(b))):
                        bad = (nm, a, b)
                cmpd += 1
            if bad:
                self.errors.append('encoding mismatch at %s: symbolic %r, '
                                   'real code %r' % bad)
            elif cmpd:
                self.validated += 1

    def result(self, ex, complete):
        # inconclusive obligations whose only candidates did not replay
        bad_unrep = [u for u in self.unrep
                     if not any(v['check'] == u['check'] for v in self.viol)]
        return {
            'property': self.prop, 'harness': self.name,
            'paths': ex.npaths, 'aborted': ex.aborted,
            'complete': complete, 'obligations': self.nobl,
            'discharged': self.ndis, 'checks': len(self.checknames),
            'stats': S.STATS.asdict(), 'violations': self.viol,
            'unreproduced': bad_unrep[:5], 'unknown': self.unknown[:10],
            'errors': _uniq(self.errors)[:10],
            'validated': self.validated, 'confirmed': self.confirmed,
            'again': self.again,
            'reached': getattr(self, 'reached', 0),
            'functions': sorted(loader.ENTERED),
            'bounds': self.opts.get('bounds', ''),
            'stubs': self.opts.get('stubs', ''),
            'dead': [list(map(list, d)) for d in ex.dead() if d][:50],
            'samples': self.samples, 'vacuous_paths': self.vacuous_paths,
            'wall_s': round(time.time() - self.t0, 2)}


def _uniq(l):
    out = []
    for x in l:
        if x not in out:
            out.append(x)
    return out


def _where(e):
    tb = e.__traceback__
    last = ''
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/bicycleparameters/' in fn or '/checks/' in fn:
            last = ' at %s:%d' % (os.path.basename(fn), tb.tb_lineno)
        tb = tb.tb_next
    return last
