"""Harness interface.  A harness is written once against `h`; it runs
 * symbolically: the package source executed with symbolic inputs, every
   check becoming a proof obligation for the solver,
 * concretely: the unmodified package with float inputs (replay of a solver
   counterexample, validation of the encoding)."""
import contextlib
import math
import os
import random
import shutil
import tempfile
import zlib
from fractions import Fraction

import numpy as np

from . import loader, shims
from . import poly as P
from . import sym as S
from .sym import Sym, CSym, BoolSym, lift

HARNESSES = {}
# (index, count): the share of the first choice's options this worker takes
SHARD = tuple(int(x) for x in os.environ.get('VERIF_SHARD', '0/1').split('/'))

# ending of the names of the variables of a second use
AGAIN = S.AGAIN


class Assumption(Exception):
    pass


class CheckFailed(Exception):
    pass


def harness(prop, name, **opts):
    def deco(f):
        HARNESSES.setdefault(prop, {})[name] = (f, opts)
        return f
    return deco


def leaves(x, path=''):
    """Flatten nested containers to [(path, leaf)]."""
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            yield from leaves(x[k], '%s[%s]' % (path, k))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, '%s[%d]' % (path, i))
    elif isinstance(x, np.ndarray):
        a = np.asarray(x)
        for i in np.ndindex(a.shape):
            yield from leaves(a[i], path + (str(list(i)) if a.shape else ''))
    else:
        yield path, x


def shape_of(x):
    if isinstance(x, dict):
        return {k: shape_of(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return tuple(shape_of(v) for v in x) if any(
            isinstance(v, (list, tuple, dict, np.ndarray)) for v in x) \
            else (len(x),)
    if isinstance(x, np.ndarray):
        return x.shape
    return ()


class Common:
    def __init__(self):
        self._undo = []
        self._tmp = []

    def patch(self, obj, attr, value):
        """Replace an attribute for the duration of this run."""
        had = attr in vars(obj) if hasattr(obj, '__dict__') else \
            hasattr(obj, attr)
        old = getattr(obj, attr, None)
        self._undo.append((obj, attr, had, old))
        setattr(obj, attr, value)

    def scratch(self):
        d = tempfile.mkdtemp(prefix='bpverif')
        self._tmp.append(d)
        return d

    def cleanup(self):
        for obj, attr, had, old in reversed(self._undo):
            if had:
                setattr(obj, attr, old)
            else:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
        self._undo = []
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)
        self._tmp = []

    def keep(self, key, make):
        """An object that a second use of the same code meets again (the
        n-th of that name)."""
        n = self.nth[key] = self.nth.get(key, 0) + 1
        key = key, n
        if self.kept and key in self.kept:
            return self.kept[key]
        self.made[key] = make()
        return self.made[key]

    # conveniences ---------------------------------------------------------
    def reals(self, names, lo=None, hi=None):
        return [self.real(n, lo, hi) for n in names]

    def same(self, name, a, b):
        """python-level equality of structure-like data"""
        self.true(name, a == b)

    def noraise(self, name, fn, *a, **k):
        return fn(*a, **k)


class SymH(Common):
    symbolic = True

    def __init__(self, path, tier, forced=None, kept=None, alias=()):
        Common.__init__(self)
        self.path = path
        self.alias = alias
        self.tier = tier
        # a second use of the same code: choices as before (forced), other
        # variables and the objects of the first use (kept)
        self.forced = forced
        self.kept, self.made, self.nth = kept, {}, {}
        self.np = shims.NPS
        self.pi = S.lift_pi()
        self.obl = []           # (kind, name, payload)
        self.vars = {}
        self.choices = {}
        self.observed = []

    # inputs
    def real(self, name, lo=None, hi=None, pos=False):
        if self.kept is not None and name not in self.alias:
            name += AGAIN
        v = S.var(self.path.alias.get(name, name), lo, hi, pos)
        self.vars[name] = v
        return v

    def pos(self, name, lo=None, hi=None):
        return self.real(name, lo, hi, pos=True) if lo is None else \
            self.real(name, lo, hi)

    def angle(self, name, lo, hi):
        v = self.real(name, lo, hi)
        S.trig(v)
        return v

    def complex(self, name):
        return CSym(self.real(name + '_re'), self.real(name + '_im'))

    def choice(self, label, options):
        if isinstance(options, int):
            options = list(range(options))
        options = list(options)
        if label in self.choices:
            return options[self.choices[label]]
        if self.forced is not None and label in self.forced:
            self.choices[label] = self.forced[label]
            return options[self.forced[label]]
        start, step = 0, 1
        if not self.choices and SHARD[1] > 1:
            start, step = SHARD
        i = self.path.choose(len(options), label, start, step)
        self.choices[label] = i
        return options[i]

    def assume(self, b):
        self.path.assume(b)

    def ufloat(self, n, s):
        return shims.ufloat(n, s)

    # modules
    def mod(self, name):
        return loader.sym_module(name)

    def ext(self, name, fn):
        shims.EXT[name] = fn

    def plt(self):
        return shims.Plt()

    def ax(self):
        return shims.Ax(shims.Fig())

    # functions
    def sin(self, x):
        return shims.apply('sin', x)

    def cos(self, x):
        return shims.apply('cos', x)

    def tan(self, x):
        return shims.apply('tan', x)

    def sqrt(self, x):
        return shims.apply('sqrt', x)

    def exp(self, x):
        return shims.apply('exp', x)

    def arr(self, x):
        return shims.array(x, dtype=float)

    def parse(self, text):
        """number written as text"""
        return shims.FloatShim(text)

    def decimals(self, text):
        """number of decimals with which a number is written"""
        spec = S.CTX.tokens.spec(text)
        if spec is None:
            return len(text.partition('.')[2])
        import re
        m = re.search(r'\.(\d+)[fF]$', spec)
        if m is None:
            raise S.Unsupported('decimals of a number written with %r' % spec)
        return int(m.group(1))

    def num(self, x):
        """plain number (nominal part)"""
        if isinstance(x, shims.U):
            return x.nominal_value
        return x

    def const(self, x):
        return lift(x)

    def diff(self, a, x):
        return S.diff(lift(a), x)

    # checks
    def eq(self, name, a, b, tol=None, scale=None):
        la, lb = list(leaves(a)), list(leaves(b))
        if len(la) != len(lb):
            self.obl.append(('bool', name + ':shape', False))
            return
        for (p, x), (q, y) in zip(la, lb):
            nm = name + p
            if isinstance(x, shims.U):
                x = x.nominal_value
            if isinstance(y, shims.U):
                y = y.nominal_value
            if isinstance(x, CSym) or isinstance(y, CSym) or \
                    isinstance(x, complex) or isinstance(y, complex):
                x, y = S._co(x), S._co(y)
                for part in ('real', 'imag'):
                    self._eq(nm + '.' + part, getattr(x, part),
                             getattr(y, part))
            else:
                self._eq(nm, x, y)

    def _eq(self, nm, x, y):
        lx, ly = lift(x), lift(y)
        if lx is None or ly is None:
            ok = (x == y) or (x != x and y != y)
            self.obl.append(('bool', nm, bool(ok)))
            return
        self.observed.append((nm, lx, ly))
        self.obl.append(('eq', nm, (lx, ly)))

    def true(self, name, cond):
        self.obl.append(('bool', name, cond))

    def le(self, name, a, b, tol=None):
        self.obl.append(('bool', name, a <= b))

    def angle_eq(self, name, a, b, tol=None):
        """equal angles modulo a full turn"""
        sa, ca = S.trig(lift(self.num(a)))
        sb, cb = S.trig(lift(self.num(b)))
        self._eq(name + ':sin', sa, sb)
        self._eq(name + ':cos', ca, cb)

    def note(self, name, value):
        self.observed.append((name, value, value))

    @contextlib.contextmanager
    def raises(self, name, *exc):
        try:
            yield
        except (S.PathAbort, S.Unsupported, S.Budget, P.TooBig):
            raise
        except exc:
            self.true(name, True)
        else:
            self.true(name, False)


class ConH(Common):
    """Concrete run on the unmodified package."""
    symbolic = False

    def __init__(self, env, tier, seed=None, tol=1e-7, kept=None):
        Common.__init__(self)
        self.kept, self.made, self.nth = kept, {}, {}
        self.env = dict(env)
        self.rng = random.Random(seed) if seed is not None else None
        self.tier = tier
        self.np = np
        self.pi = math.pi
        self.tol = tol
        self.failed = []
        self.observed = []
        self.nchecks = 0

    def _val(self, name, lo, hi, pos=False):
        if name in self.env:
            return float(self.env[name])
        if lo is None:
            lo = 0.2 if pos else (-2.0 if hi is None else hi - 4.0)
        if hi is None:
            hi = max(3.0, float(lo) * 2 + 1.0)
        rng = self.rng or random.Random(zlib.crc32(name.encode()))
        lo, hi = float(lo), float(hi)
        w = hi - lo
        v = round(rng.uniform(lo + 0.02 * w, hi - 0.02 * w), 4)
        if not lo <= v <= hi:
            v = lo + w / 2
        self.env[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False):
        return self._val(name, lo, hi, pos)

    def pos(self, name, lo=None, hi=None):
        return self._val(name, lo, hi, True)

    def angle(self, name, lo, hi):
        return self._val(name, lo, hi)

    def complex(self, name):
        return complex(self.real(name + '_re'), self.real(name + '_im'))

    def choice(self, label, options):
        if isinstance(options, int):
            options = list(range(options))
        options = list(options)
        k = 'choice:' + label
        if k not in self.env:
            rng = self.rng or random.Random(zlib.crc32(label.encode()))
            self.env[k] = rng.randrange(len(options))
        return options[int(self.env[k]) % len(options)]

    def assume(self, b):
        if not bool(b):
            raise Assumption()

    def ufloat(self, n, s):
        from uncertainties import ufloat
        return ufloat(n, s)

    def mod(self, name):
        return loader.real_module(name)

    def ext(self, name, fn):
        pass

    def plt(self):
        return shims.Plt()

    def ax(self):
        return shims.Ax(shims.Fig())

    def sin(self, x):
        return np.sin(x)

    def cos(self, x):
        return np.cos(x)

    def tan(self, x):
        return np.tan(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def exp(self, x):
        return np.exp(x)

    def arr(self, x):
        a = np.array(x)
        return a if a.dtype.kind in 'cO' else a.astype(float)

    def parse(self, text):
        return float(text)

    def decimals(self, text):
        return len(text.partition('.')[2])

    def num(self, x):
        return getattr(x, 'nominal_value', x)

    def const(self, x):
        return float(x)

    def diff(self, a, x):
        raise S.Unsupported('derivative in a concrete run')

    def _fail(self, name, msg):
        self.failed.append((name, msg))

    def eq(self, name, a, b, tol=None, scale=None):
        la, lb = list(leaves(a)), list(leaves(b))
        if len(la) != len(lb):
            self.nchecks += 1
            self._fail(name + ':shape', '%d values instead of %d' % (
                len(la), len(lb)))
            return
        for (p, x), (q, y) in zip(la, lb):
            self.nchecks += 1
            x, y = self.num(x), self.num(y)
            nm = name + p
            try:
                if isinstance(x, complex) or isinstance(y, complex):
                    cx, cy = complex(x), complex(y)
                else:
                    cx, cy = float(x), float(y)
            except (TypeError, ValueError):
                if not (x == y):
                    self._fail(nm, '%r instead of %r' % (x, y))
                continue
            self.observed.append((nm, cx, cy))
            t = tol if tol is not None else self.tol
            sc = scale if scale is not None else 0.0
            if cx != cx or cy != cy:
                if not (cx != cx and cy != cy):
                    self._fail(nm, '%r instead of %r' % (cx, cy))
                continue
            if not abs(cx - cy) <= t * (1e-2 + max(abs(cx), abs(cy), sc)):
                self._fail(nm, '%r instead of %r' % (cx, cy))

    def true(self, name, cond):
        self.nchecks += 1
        if not bool(cond):
            self._fail(name, 'does not hold')

    def le(self, name, a, b, tol=None):
        self.nchecks += 1
        t = tol if tol is not None else self.tol
        a, b = float(self.num(a)), float(self.num(b))
        if not a <= b + t * (1e-2 + max(abs(a), abs(b))):
            self._fail(name, '%r > %r' % (a, b))

    def angle_eq(self, name, a, b, tol=None):
        a, b = float(self.num(a)), float(self.num(b))
        self.eq(name + ':sin', math.sin(a), math.sin(b), tol)
        self.eq(name + ':cos', math.cos(a), math.cos(b), tol)

    def note(self, name, value):
        self.observed.append((name, value, value))

    @contextlib.contextmanager
    def raises(self, name, *exc):
        try:
            yield
        except Assumption:
            raise
        except exc:
            self.true(name, True)
        else:
            self.true(name, False)


def run_concrete(fn, env, tier, seed=None, tol=1e-7, kept=None):
    """-> (h, exception or None)"""
    h = ConH(env, tier, seed, tol, kept)
    try:
        fn(h)
        return h, None
    except Assumption:
        raise
    except Exception as e:
        return h, e
    finally:
        h.cleanup()


def sample(fn, tier, seed, tol=1e-7, tries=300, base=(), kept=None):
    """A random concrete run satisfying the harness's assumptions."""
    for i in range(tries):
        try:
            return run_concrete(fn, dict(base), tier, '%s/%d' % (seed, i),
                                tol, kept)
        except Assumption:
            continue
    return None, None


# --------------------------------------------------------------------------
# solving
# --------------------------------------------------------------------------
class Model:
    """Concrete inputs extracted from a solver model."""

    def __init__(self, env):
        self.env = env


def rng_pin(g, rng):
    lo = float(g.lo) if g.lo is not None else None
    hi = float(g.hi) if g.hi is not None else None
    if lo is None:
        lo = 0.2 if g.nonneg else (-2.0 if hi is None else hi - 4)
    if hi is None:
        hi = max(3.0, lo * 2 + 1)
    w = hi - lo
    v = round(rng.uniform(lo + 0.02 * w, hi - 0.02 * w), 4)
    return v if lo <= v <= hi else lo + w / 2


def pins_for(gens, rng, known=None):
    """Random rational values for variables and, consistently to ~1e-9, for
    the sines/cosines of angles; other generators are left to the solver."""
    env = dict(known or {})
    cs = []
    vals = {}
    for g in gens:
        if g.kind == 'var' and g.name not in env:
            env[g.name] = rng_pin(g, rng)
    for g in gens:
        if g.kind == 'var':
            cs.append(S.gz(g) == S.z3.RealVal(repr(env[g.name])))
        elif g.kind == 'cos':
            try:
                a = g.data['arg'].evalf(env)
            except KeyError:
                continue
            t = Fraction(math.tan(a / 2)).limit_denominator(10**6)
            c = (1 - t * t) / (1 + t * t)
            s = 2 * t / (1 + t * t)
            cs.append(S.gz(g) == S.z3.RealVal(str(c)))
            sg = P.T.get(('sin', g.data['arg'].key()))
            cs.append(S.gz(sg) == S.z3.RealVal(str(s)))
        elif g.kind == 'exp':
            try:
                v = math.exp(g.data['arg'].evalf(env))
            except KeyError:
                continue
            cs.append(S.gz(g) == S.z3.RealVal(repr(v)))
        elif g.kind == 'pi':
            cs.append(S.gz(g) == S.z3.RealVal('3.14159265358979'))
    return env, cs


def model_env(model, gens, base):
    env = dict(base)
    for g in gens:
        if g.kind == 'var' and g.name not in env:
            v = model.eval(S.gz(g), model_completion=True)
            env[g.name] = zval(v)
    # angles: prefer the angle implied by the pinned cos / sin
    for g in gens:
        if g.kind == 'cos':
            a = g.data['arg']
            if len(a.n) == 1 and not a.d:
                (m, co), = a.n.items()
                ms = P.monos(m)
                if len(ms) == 1 and ms[0][1] == 1 and \
                        ms[0][0].kind == 'var' and \
                        ms[0][0].name not in base:
                    sg = P.T.get(('sin', a.key()))
                    c = zval(model.eval(S.gz(g), model_completion=True))
                    s = zval(model.eval(S.gz(sg), model_completion=True))
                    env[ms[0][0].name] = math.atan2(s, c) * a.k / co
    return env


def zval(v):
    z3 = S.z3
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(),
                              a.denominator_as_long()))
    return 0.0
