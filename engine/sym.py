"""Symbolic reals (rational functions over the generators of poly.py),
symbolic booleans that fork the execution path, and the path context."""
import itertools
import math
import numbers
import time
from fractions import Fraction
from math import gcd, isqrt

import z3

from . import poly as P


class Unsupported(Exception):
    """The engine cannot execute this operation symbolically."""


class PathAbort(Exception):
    """The current path is infeasible / excluded by an assumption."""


class Budget(Exception):
    """Path or time budget exhausted: the result is inconclusive."""


SIGNS = {'<': frozenset((-1,)), '<=': frozenset((-1, 0)),
         '>': frozenset((1,)), '>=': frozenset((1, 0)),
         '==': frozenset((0,)), '!=': frozenset((-1, 1))}
ALL = frozenset((-1, 0, 1))

CTX = None          # current path context


FORKS = 1     # decisions about equal keys on one path
ALIASES = 2   # pairs of inputs that are equal keys, per exploration


def _hash(x):
    """Hash of a number used as a key by the code under test: equal numbers
    hash equally, so whether it equals a number hashed before on this path
    is decided here (a fork when both are possible).  Two inputs count as
    different; up to two pairs of equal ones are explored by themselves.
    Once a path has forked here, numbers count as different unless they are
    equal by what is known."""
    path = ctx()
    mine = hash(x.const()) if isinstance(x, Sym) and x.is_const() else \
        hash((path.serial, len(path.hashed)))
    for other, value in path.hashed:
        if other is x:
            return value
        same = x == other
        if isinstance(same, BoolSym):
            known = path.holds(same)
            if known is None and same.t[0] == 'rel' and \
                    same.t[1] not in path.known:
                path.keyfacts.add(same.t[1])
            if known is None and path.env is None:
                pair = _inputs(x, other)
                if pair and pair[2]:
                    path.ex.alias(path, pair[:2])
                if pair or path.keyforks >= FORKS:
                    path.assume(x != other)
                    known = False
                else:
                    path.keyforks += 1
            same = bool(same) if known is None else known
        if same:
            return value
    path.hashed.append((x, mine))
    return mine


def _inputs(x, y):
    """the names (earlier, later) if x and y are inputs, and whether their
    ranges are the same"""
    gs = []
    for s in (x, y):
        if not isinstance(s, Sym) or s.d or s.k != 1 or len(s.n) != 1:
            return None
        (m, c), = s.n.items()
        g = P.monos(m)
        if c != 1 or len(g) != 1 or g[0][1] != 1 or g[0][0].kind != 'var':
            return None
        gs.append(g[0][0])
    a, b = sorted(gs, key=lambda g: g.idx)
    return a.name, b.name, (a.lo, a.hi, a.data) == (b.lo, b.hi, b.data)


def twin(p):
    """name of the input if p is the difference of its values in the first
    and in the second use of the code"""
    if len(p) != 2:
        return None
    gs = P.gens_of(p)
    if len(gs) != 2 or any(g.kind != 'var' for g in gs) or sum(p.values()):
        return None
    a, b = sorted((g.name for g in gs), key=len)
    return a if b == a + AGAIN else None


AGAIN = ' (again)'


def ctx():
    if CTX is None:
        raise Unsupported('no symbolic context')
    return CTX


# --------------------------------------------------------------------------
# constants
# --------------------------------------------------------------------------
_FCACHE = {}


def float_to_fraction(x):
    """(rational, multiple-of-pi?)"""
    r = _FCACHE.get(x)
    if r is not None:
        return r
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported('non-finite constant')
    if x == int(x) and abs(x) < 1e15:
        r = (Fraction(int(x)), False)
    else:
        f = Fraction(x).limit_denominator(10**6)
        if float(f) == x:
            r = (f, False)
        else:
            q = Fraction(x / math.pi).limit_denominator(720)
            if q != 0 and abs(float(q) * math.pi - x) <= 2e-16 * abs(x):
                r = (q, True)
            else:
                r = (Fraction(repr(float(x))), False)
    _FCACHE[x] = r
    return r


def pi_gen():
    return P.T.gens[0]


def lift(x):
    """Anything numeric -> Sym (or None)."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, bool):
        return Sym(P.pconst(int(x)), 1, {})
    if isinstance(x, int):
        return Sym(P.pconst(x), 1, {})
    if isinstance(x, BoolSym):
        return Sym(P.pconst(int(bool(x))), 1, {})
    if isinstance(x, Fraction):
        return Sym(P.pconst(x.numerator), x.denominator, {})
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return None
        f, ispi = float_to_fraction(x)
        if ispi:
            return Sym({pi_gen().one: f.numerator}, f.denominator, {})
        return Sym(P.pconst(f.numerator), f.denominator, {})
    if isinstance(x, numbers.Integral):
        return Sym(P.pconst(int(x)), 1, {})
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        v = x.item()
        return lift(v) if v is not x else None
    if type(x).__name__ in ('float64', 'float32'):
        return lift(float(x))
    return None


# --------------------------------------------------------------------------
# denominators
# --------------------------------------------------------------------------
# a denominator is a dict {factor key: exponent}; factor polynomials live here
FACT = {}


def factorize(p):
    """p != 0 -> (sign*const, [(key, exp)]) with primitive factors."""
    c = P.content(p)
    mc = P.mono_content(p)
    fs = []
    for g, e in P.monos(mc):
        k = ((g.one, 1),)
        FACT.setdefault(k, {g.one: 1})
        fs.append((k, e))
    q = {m - mc: v // c for m, v in p.items()}
    if q[max(q)] < 0:
        q = P.pneg(q)
        c = -c
    if not (len(q) == 1 and 0 in q):
        # perfect powers / known factors
        k = P.key(q)
        if k not in FACT and len(q) <= 400:
            for fk, fp in list(FACT.items()):
                if len(fp) > 1 and 1 < len(fp) <= len(q):
                    e = 0
                    while len(q) >= len(fp):
                        d = P.exact_div(q, fp)
                        if d is None:
                            break
                        q = d
                        e += 1
                    if e:
                        fs.append((fk, e))
                        c2 = P.content(q)
                        if c2 != 1:
                            q = {m: v // c2 for m, v in q.items()}
                            c *= c2
                        if q[max(q)] < 0:
                            q = P.pneg(q)
                            c = -c
                        if P.is_const(q):
                            break
            k = P.key(q)
        if not P.is_const(q):
            FACT.setdefault(k, q)
            fs.append((k, 1))
    return c, fs


def static_sign(p):
    """Sign set known from coefficients and declared generator signs."""
    if not p:
        return frozenset((0,))
    if P.is_const(p):
        return frozenset((1,)) if p[0] > 0 else frozenset((-1,))
    sgn = None
    strict = False
    for m, c in p.items():
        st = True
        for g, e in P.monos(m):
            if not g.nonneg and e % 2:
                return ALL
            if not (g.lo is not None and g.lo > 0) and not g.data_pos():
                st = False
        s = 1 if c > 0 else -1
        if sgn is None:
            sgn = s
        elif sgn != s:
            return ALL
        strict = strict or st
    return frozenset((sgn,)) if strict else frozenset((sgn, 0))


def _data_pos(self):
    return self.kind in ('exp', 'pi') or (isinstance(self.data, dict) and
                                          self.data.get('pos', False))


P.Gen.data_pos = _data_pos


class Sym:
    """n / (k * prod(factor**e))"""
    __slots__ = ('n', 'k', 'd')

    def __init__(self, n, k, d):
        self.n, self.k, self.d = n, k, d

    # -- construction helpers
    @staticmethod
    def make(n, k, d):
        if not n:
            return Sym({}, 1, {})
        if k < 0:
            k = -k
            n = P.pneg(n)
        if k != 1:
            g = gcd(P.content(n), k)
            if g > 1:
                n = {m: c // g for m, c in n.items()}
                k //= g
        if d:
            d = dict(d)
            mc = P.mono_content(n)
            sub = 0
            for g, e in P.monos(mc):
                fk = ((g.one, 1),)
                de = d.get(fk, 0)
                if de:
                    x = min(e, de)
                    sub += x * g.one
                    if de == x:
                        del d[fk]
                    else:
                        d[fk] = de - x
            if sub:
                n = {m - sub: c for m, c in n.items()}
            if len(n) <= 3000:
                for fk in list(d):
                    f = FACT[fk]
                    if len(f) == 1:
                        # algebraic generator in the denominator: rationalise
                        continue
                    while len(n) >= len(f) and fk in d:
                        q = P.exact_div(n, f)
                        if q is None:
                            break
                        n = q
                        if d[fk] == 1:
                            del d[fk]
                        else:
                            d[fk] -= 1
            # rationalise square roots / sines:  1/r = r / r**2
            for fk in list(d):
                if fk in d and len(fk) == 1:
                    g = P.monos(fk[0][0])[0][0]
                    if g.rel is not None:
                        e = d.pop(fk)
                        h = (e + 1) // 2
                        if e % 2:
                            n = P.pmul(n, {g.one: 1})
                        c, fs = factorize(g.rel)
                        r = Sym.make(n, k * c**h,
                                     _dmul(d, [(a, b * h) for a, b in fs]))
                        return r
        return Sym(n, k, d)

    # -- predicates
    def is_const(self):
        return not self.d and P.is_const(self.n)

    def const(self):
        return Fraction(self.n.get(0, 0), self.k)

    def denpoly(self):
        r = {0: self.k}
        for fk, e in self.d.items():
            r = P.pmul(r, P.ppow(FACT[fk], e))
        return r

    def key(self):
        return (P.key(self.n), self.k, tuple(sorted(self.d.items())))

    def gens(self):
        s = set(P.gens_of(self.n))
        for fk in self.d:
            s.update(P.gens_of(FACT[fk]))
        return s

    # -- arithmetic
    def __add__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        if isinstance(o, CSym):
            return CSym(self + o.re, o.im)
        if not o.n:
            return self
        if not self.n:
            return o
        n1, n2 = self.n, o.n
        k = self.k * o.k // gcd(self.k, o.k)
        n1 = P.pscale(n1, k // self.k)
        n2 = P.pscale(n2, k // o.k)
        if self.d == o.d:
            return Sym.make(P.padd(n1, n2), k, self.d)
        d = dict(self.d)
        for fk, e in o.d.items():
            d[fk] = max(d.get(fk, 0), e)
        for fk, e in d.items():
            x = e - self.d.get(fk, 0)
            if x:
                n1 = P.pmul(n1, P.ppow(FACT[fk], x))
            x = e - o.d.get(fk, 0)
            if x:
                n2 = P.pmul(n2, P.ppow(FACT[fk], x))
        return Sym.make(P.padd(n1, n2), k, d)

    __radd__ = __add__

    def __neg__(self):
        return Sym(P.pneg(self.n), self.k, self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        if isinstance(o, CSym):
            return CSym(self * o.re, self * o.im)
        if not o.n or not self.n:
            return Sym({}, 1, {})
        a, b = self, o
        n1, n2 = a.n, b.n
        # cancel big factors before multiplying
        d1, d2 = a.d, b.d
        if d1 or d2:
            n1, d2 = _cancel(n1, d2)
            n2, d1 = _cancel(n2, d1)
        d = _dmul(d1, d2.items())
        k = a.k * b.k
        if d:
            # r * r = radicand: cancel it whole, before it is expanded
            m1, m2 = P.mono_content(n1), P.mono_content(n2)
            for g, e in (P.monos(m1) if m1 and m2 else ()):
                if g.kind != 'sqrt' or e != 1 or \
                        (m2 >> (P.BITS * g.idx)) & 0xFF != 1:
                    continue
                c, fs = factorize(g.rel)
                if not any(fk in d for fk, _ in fs):
                    continue
                n1 = {m - g.one: v * c for m, v in n1.items()}
                n2 = {m - g.one: v for m, v in n2.items()}
                for fk, x in fs:
                    y = min(x, d.get(fk, 0))
                    if y:
                        d[fk] -= y
                        if not d[fk]:
                            del d[fk]
                    if x > y:
                        n1 = P.pmul(n1, P.ppow(FACT[fk], x - y))
        return Sym.make(P.pmul(n1, n2), k, d)

    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise ZeroDivisionError('float division by zero')
        if CTX is not None:
            CTX.nonzero(self.n)
        elif 0 in static_sign(self.n):
            raise Unsupported('no symbolic context')
        c, fs = factorize(self.n)
        n = {0: self.k}
        for fk, e in self.d.items():
            n = P.pmul(n, P.ppow(FACT[fk], e))
        return Sym.make(n, c, dict(fs))

    def __truediv__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        if isinstance(o, CSym):
            return CSym(self, lift(0)) / o
        return self * o.inv()

    def __rtruediv__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return o * self.inv()

    def __pow__(self, e):
        if isinstance(e, Sym):
            if not e.is_const():
                if self.is_const() and self.const() == 0:
                    raise Unsupported('0**symbolic')
                if self.is_const() and self.const() > 0 or \
                        self > 0:
                    return (e * self.log()).exp()
                raise Unsupported('symbolic exponent')
            e = e.const()
        elif isinstance(e, numbers.Integral):
            e = Fraction(int(e))
        else:
            e = Fraction(float(e)).limit_denominator(1000)
        if e.denominator == 1:
            n = int(e)
            if n < 0:
                return self.inv() ** (-n)
            r = lift(1)
            for _ in range(n):
                r = r * self
            return r
        if e.denominator == 2:
            return self.sqrt() ** int(e.numerator)
        raise Unsupported('power %s' % e)

    def __rpow__(self, b):
        return lift(b) ** self

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return lift(o) // self, lift(o) % self

    def __trunc__(self):
        return int(self)

    def sinh(self):
        e = self.exp()
        return (e - 1 / e) / 2

    def cosh(self):
        e = self.exp()
        return (e + 1 / e) / 2

    def tanh(self):
        e = (2 * self).exp()
        return (e - 1) / (e + 1)

    def expm1(self):
        return self.exp() - 1

    def log1p(self):
        return (self + 1).log()

    def log10(self):
        return self.log() / lift(10).log()

    def log2(self):
        return self.log() / lift(2).log()

    def exp2(self):
        return lift(2) ** self

    def trunc(self):
        return lift(Fraction(int(self)))

    fix = trunc

    def __abs__(self):
        if self.is_const():
            return lift(abs(self.const()))
        c = ctx()
        if c.absforks >= 6 and not self.d:
            # many signs already split on this path: keep |x| opaque
            return abs_atom(self)
        n = len(c.taken)
        pos = self >= 0
        pos = bool(pos)
        c.absforks += len(c.taken) - n
        return self if pos else -self

    def __mod__(self, o):
        o = _co(o)
        q = self / o
        if q.is_const():
            return self - o * lift(Fraction(math.floor(q.const())))
        return self - o * lift(Fraction(floor_int(q)))

    def __floordiv__(self, o):
        q = self / _co(o)
        if q.is_const():
            return lift(Fraction(math.floor(q.const())))
        return lift(Fraction(floor_int(q)))

    # -- comparison
    def _cmp(self, o, op):
        if _isnan(o):
            return op == '!='
        o = _co(o)
        if o is NotImplemented:
            if op == '==':
                return False
            if op == '!=':
                return True
            return o
        if isinstance(o, CSym):
            if op == '==':
                return (self == o.re) & (o.im == 0)
            if op == '!=':
                return ~((self == o.re) & (o.im == 0))
            return NotImplemented
        df = self - o
        n = df.n
        if op not in ('==', '!='):
            for fk, e in df.d.items():
                if e % 2:
                    f = FACT[fk]
                    s = static_sign(f)
                    if not s <= frozenset((1, 0)):
                        if s <= frozenset((-1, 0)):
                            n = P.pneg(n)
                        else:
                            n = P.pmul(n, f)
        return mkrel(n, SIGNS[op])

    def __lt__(self, o):
        if _isinf(o):
            return o > 0
        return self._cmp(o, '<')

    def __le__(self, o):
        if _isinf(o):
            return o > 0
        return self._cmp(o, '<=')

    def __gt__(self, o):
        if _isinf(o):
            return o < 0
        return self._cmp(o, '>')

    def __ge__(self, o):
        if _isinf(o):
            return o < 0
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        return _hash(self)

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __float__(self):
        if self.is_const():
            return float(self.const())
        if not [g for g in self.gens() if g.kind != 'pi']:
            return self.evalf({})
        raise Unsupported('float() of a symbolic value at C level')

    def __int__(self):
        if self.is_const():
            return int(self.const())
        return floor_int(self) if self >= 0 else -floor_int(-self)

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        raise Unsupported('symbolic index')

    def __complex__(self):
        return complex(float(self))

    def __round__(self, nd=None):
        if self.is_const():
            return lift(round(self.const(), nd) if nd is not None
                        else Fraction(round(self.const())))
        return ctx().rounded(self, nd)

    def __repr__(self):
        if CTX is not None and CTX.tokens_on:
            return CTX.token(self, '')
        return 'Sym(%s%s)' % (P.show(self.n), ' / ...' if self.d or
                              self.k != 1 else '')

    def __str__(self):
        if CTX is not None:
            return CTX.token(self, '')
        return repr(self)

    def __format__(self, spec):
        if CTX is not None:
            return CTX.token(self, spec)
        return repr(self)

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    real = property(lambda self: self)
    imag = property(lambda self: lift(0))
    shape = property(lambda self: ())
    ndim = property(lambda self: 0)
    size = property(lambda self: 1)

    @property
    def nominal_value(self):
        # a float has no nominal_value
        raise AttributeError('nominal_value')

    def tolist(self):
        return self

    def is_integer(self):
        if self.is_const():
            return self.const().denominator == 1
        raise Unsupported('is_integer')

    # -- functions
    def sqrt(self):
        return sym_sqrt(self)

    def sin(self):
        return trig(self)[0]

    def cos(self):
        return trig(self)[1]

    def tan(self):
        s, c = trig(self)
        return s / c

    def exp(self):
        return sym_exp(self)

    def log(self):
        return atom('log', self)

    def arctan(self):
        return sym_atan(self)

    def arcsin(self):
        return sym_asin(self)

    def arccos(self):
        return sym_acos(self)

    def rad2deg(self):
        return self * 180 / lift_pi()

    def deg2rad(self):
        return self * lift_pi() / 180

    degrees, radians = rad2deg, deg2rad

    def square(self):
        return self * self

    def sign(self):
        if self > 0:
            return lift(1)
        if self < 0:
            return lift(-1)
        return lift(0)

    def isnan(self):
        return False

    def fabs(self):
        return abs(self)

    # -- evaluation
    def evalf(self, env):
        vals = {}

        def gv(g):
            v = vals.get(g.idx)
            if v is None:
                v = vals[g.idx] = gen_value(g, env)
            return v
        for g in self.gens():
            gv(g)
        den = float(self.k)
        for fk, e in self.d.items():
            den *= P.evalf(FACT[fk], vals) ** e
        return P.evalf(self.n, vals) / den


numbers.Real.register(Sym)


def _isnan(o):
    return isinstance(o, float) and o != o


def _isinf(o):
    return isinstance(o, float) and o in (math.inf, -math.inf)


def _co(o):
    if isinstance(o, (Sym, CSym)):
        return o
    if isinstance(o, complex):
        return CSym(lift(o.real), lift(o.imag))
    if type(o).__name__ in ('complex128', 'complex64'):
        return CSym(lift(float(o.real)), lift(float(o.imag)))
    r = lift(o) if not hasattr(o, '__array__') or getattr(
        o, 'shape', None) == () else None
    return NotImplemented if r is None else r


def _dmul(d1, items):
    d = dict(d1)
    for fk, e in items:
        d[fk] = d.get(fk, 0) + e
    return d


def _cancel(n, d):
    if not d or len(n) == 1 and 0 in n:
        return n, d
    out = None
    for fk in d:
        f = FACT[fk]
        if len(f) > 1 and len(n) >= len(f) and len(n) <= 3000:
            while True:
                cur = out if out is not None else d
                if fk not in cur:
                    break
                q = P.exact_div(n, f)
                if q is None:
                    break
                n = q
                if out is None:
                    out = dict(d)
                if out[fk] == 1:
                    del out[fk]
                else:
                    out[fk] -= 1
    return n, (out if out is not None else d)


def lift_pi():
    return Sym({pi_gen().one: 1}, 1, {})


# --------------------------------------------------------------------------
# generators with meaning
# --------------------------------------------------------------------------
def var(name, lo=None, hi=None, pos=False):
    k = ('var', name)
    g = P.T.get(k)
    if g is None:
        g = P.T.new(name, k, 'var', data={'pos': pos},
                    lo=None if lo is None else Fraction(str(lo)),
                    hi=None if hi is None else Fraction(str(hi)))
        if pos:
            g.nonneg = True
    return Sym({g.one: 1}, 1, {})


def atom(fn, *args, pos=False, nonneg=False, name=None):
    """Uninterpreted application."""
    k = ('app', fn) + tuple(a.key() if isinstance(a, Sym) else a
                            for a in args)
    g = P.T.get(k)
    if g is None:
        g = P.T.new(name or '%s_%d' % (fn, len(P.T.gens)), k, 'app',
                    data={'fn': fn, 'args': args, 'pos': pos})
        if pos or nonneg:
            g.nonneg = True
    return Sym({g.one: 1}, 1, {})


def gensym(g):
    return Sym({g.one: 1}, 1, {})


def trig_atom(arg):
    """(sin, cos) generators of an opaque angle `arg` (a Sym)."""
    kc = ('cos', arg.key())
    c = P.T.get(kc)
    if c is None:
        nm = P.show(arg.n, 2) if len(arg.n) == 1 and not arg.d else \
            'ang%d' % len(P.T.gens)
        c = P.T.new('cos(%s)' % nm, kc, 'cos', data={'arg': arg})
        s = P.T.new('sin(%s)' % nm, ('sin', arg.key()), 'sin',
                    data={'arg': arg, 'cos': c},
                    rel={0: 1, 2 * c.one: -1})
        # signs from a declared range of a plain angle variable
        if len(arg.n) == 1 and not arg.d:
            (m, co), = arg.n.items()
            ms = P.monos(m)
            if len(ms) == 1 and ms[0][1] == 1 and ms[0][0].lo is not None \
                    and ms[0][0].hi is not None:
                f = Fraction(co, arg.k)
                lo, hi = sorted((float(ms[0][0].lo * f),
                                 float(ms[0][0].hi * f)))
                if lo > -math.pi / 2 and hi < math.pi / 2:
                    c.nonneg = True
                    c.data['pos'] = True
                if lo >= 0 and hi <= math.pi - 1e-9:
                    s.nonneg = True
                    if lo > 0:
                        s.data['pos'] = True
    s = P.T.get(('sin', arg.key()))
    return gensym(s), gensym(c)


ANG = {}      # mono -> list of unit factors


def unit_of(m, f, most):
    """a unit of which f is a small multiple, so that sines, cosines and
    exponentials of commensurable arguments are powers of the same ones"""
    units = ANG.setdefault(m, [])
    for u in units:
        n = f / u
        if n.denominator == 1 and abs(n) <= most:
            return u
    u = Fraction(1, f.denominator)
    if abs(f.numerator) > most:
        u = abs(f)
    units.append(u)
    return u


def _mult(s, c, n):
    """sin, cos of n times the angle."""
    if n < 0:
        S, C = _mult(s, c, -n)
        return -S, C
    S, C = lift(0), lift(1)
    for _ in range(n):
        S, C = S * c + C * s, C * c - S * s
    return S, C


def trig(a):
    """(sin a, cos a)"""
    if a.d:
        if len(a.d) == 1 and all(len(FACT[k]) == 1 for k in a.d) and \
                len(a.n) == 1:
            s = 1
            (m, c), = a.n.items()
            if c < 0:
                a = -a
                s = -1
            S, C = trig_atom(a)
            return (S if s > 0 else -S), C
        # several terms over a common denominator: opaque angle
        s = 1
        if a.n[max(a.n)] < 0:
            a = -a
            s = -1
        S, C = trig_atom(a)
        return (S if s > 0 else -S), C
    S, C = lift(0), lift(1)
    pg = P.T.get('pi')
    for m, co in a.n.items():
        f = Fraction(co, a.k)
        if m == 0:
            if f == 0:
                continue
            t = lift(abs(f))
            s1, c1 = trig_atom(t)
            if f < 0:
                s1 = -s1
        elif pg is not None and m == pg.one:
            s1, c1 = trig_pi(f)
        else:
            g1 = P.monos(m)
            spec = None
            if len(g1) == 1 and g1[0][1] == 1 and g1[0][0].kind == 'ang':
                spec = g1[0][0]
            if spec is not None and f.denominator == 1:
                s0, c0 = spec.data['sc']
                n = int(f)
            else:
                unit = unit_of(m, f, 24)
                s0, c0 = trig_atom(Sym({m: unit.numerator},
                                       unit.denominator, {}))
                n = int(f / unit)
            s1, c1 = _mult(s0, c0, n)
        S, C = S * c1 + C * s1, C * c1 - S * s1
    return S, C


def trig_pi(f):
    f = f % 2
    q = f * 12
    if q.denominator == 1:
        q = int(q)
        if q % 6 == 0:
            return [(0, 1), (1, 0), (0, -1), (-1, 0)][q // 6][0] * lift(1), \
                [(0, 1), (1, 0), (0, -1), (-1, 0)][q // 6][1] * lift(1)
        tab = {2: (Fraction(1, 2), ('3',)), 3: ('2', '2'),
               4: (('3',), Fraction(1, 2))}

        def val(x):
            if isinstance(x, Fraction):
                return lift(x)
            if x == '2':
                return sym_sqrt(lift(2)) / 2
            return sym_sqrt(lift(3)) / 2
        quad, r = divmod(q, 6)
        if r in tab:
            s, c = val(tab[r][0]), val(tab[r][1])
            for _ in range(quad):
                s, c = c, -s
            return s, c
    s, c = trig_atom(lift_pi() * lift(f))
    return s, c


def sym_exp(a):
    if a.d:
        s = 1
        if a.n[max(a.n)] < 0:
            a, s = -a, -1
        k = ('exp', a.key())
        g = P.T.get(k)
        if g is None:
            g = P.T.new('exp%d' % len(P.T.gens), k, 'exp', data={'arg': a})
            g.nonneg = True
        r = gensym(g)
        return r if s > 0 else r.inv()
    r = lift(1)
    for m, co in a.n.items():
        f = Fraction(co, a.k)
        if m == 0 and f == 0:
            continue
        unit = unit_of(('e', m), f, 40)
        arg = Sym({m: unit.numerator}, unit.denominator, {})
        k = ('exp', arg.key())
        g = P.T.get(k)
        if g is None:
            g = P.T.new('exp%d' % len(P.T.gens), k, 'exp', data={'arg': arg})
            g.nonneg = True
        n = int(f / unit)
        r = r * (gensym(g) ** n if n >= 0 else gensym(g).inv() ** (-n))
    return r


def poly_sqrt(p):
    """q with q*q == p as plain polynomials, else None (p small)."""
    if len(p) > 200:
        return None
    lm = max(p)
    lc = p[lm]
    if lc < 0:
        return None
    r = isqrt(lc)
    if r * r != lc:
        return None
    qm = 0
    for g, e in P.monos(lm):
        if e % 2:
            return None
        qm += (e // 2) * g.one
    q = {qm: r}
    rem = dict(p)
    rem.pop(lm)
    for _ in range(60):
        if not rem:
            break
        m = max(rem)
        c = rem[m]
        if c % (2 * r):
            return None
        for g, e in P.monos(qm):
            if ((m >> (P.BITS * g.idx)) & 0xFF) < e:
                return None
        tm, tc = m - qm, c // (2 * r)
        if tm in q:
            return None
        # rem -= 2*t*q + t*t
        for a, b in list(q.items()):
            mm = a + tm
            v = rem.get(mm, 0) - 2 * b * tc
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
        mm = 2 * tm
        v = rem.get(mm, 0) - tc * tc
        if v:
            rem[mm] = v
        else:
            rem.pop(mm, None)
        q[tm] = tc
    return q if not rem else None


def floor_int(x):
    """exact floor: forks over the integers the value can lie between"""
    lo, hi = -1, 1
    while x < lo:
        lo *= 4
        if lo < -10**7:
            raise Unsupported('floor of a large value')
    while x >= hi:
        hi *= 4
        if hi > 10**7:
            raise Unsupported('floor of a large value')
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if x >= mid:
            lo = mid
        else:
            hi = mid
    return lo


def round_atom(a, nd):
    """a number within half a unit of the last decimal kept"""
    r = atom('round', a, nd or 0)
    (g,) = r.gens()
    if not g.data.get('axioms'):
        half = lift(Fraction(1, 2) / Fraction(10)**(nd or 0))
        g.data['axioms'] = [r - a <= half, a - r <= half]
    return r


def abs_atom(a):
    st = static_sign(a.n)
    if st <= frozenset((0, 1)):
        return a
    if st <= frozenset((0, -1)):
        return -a
    q = a.n if a.n[max(a.n)] > 0 else P.pneg(a.n)
    n = P.pmul(q, q)
    k = ('sqrt', P.key(n))
    g = P.T.get(k)
    if g is None:
        g = P.T.new('abs%d' % len(P.T.gens), k, 'sqrt',
                    data={'rad': n, 'pos': False}, rel=n)
        g.nonneg = True
    return gensym(g) / a.k


def sym_sqrt(a):
    if not a.n:
        return lift(0)
    n = P.pscale(a.n, a.k)
    den = lift(a.k)
    for fk, e in a.d.items():
        f = FACT[fk]
        if e % 2:
            n = P.pmul(n, f)
        h = (e + 1) // 2
        den = den * (abs(Sym(f, 1, {})) ** h if h % 2
                     else Sym(f, 1, {}) ** h)
    out = lift(1)
    c = P.content(n)
    # square part of the content
    sq = 1
    i = 2
    cc = c
    while i * i <= cc and i < 2000:
        while cc % (i * i) == 0:
            cc //= i * i
            sq *= i
        i += 1
    r = isqrt(cc)
    if r * r == cc:
        sq *= r
        cc = 1
    if sq > 1:
        n = {m: v // (sq * sq) for m, v in n.items()}
        out = out * sq
    mc = P.mono_content(n)
    sub = 0
    for g, e in P.monos(mc):
        if e >= 2:
            h = e // 2
            sub += 2 * h * g.one
            gg = gensym(g)
            out = out * (abs(gg) ** h if h % 2 else gg ** h)
    if sub:
        n = {m - sub: v for m, v in n.items()}
    # (1 - cos**2) factors
    for g in list(P.gens_of(n)):
        if g.kind == 'cos':
            s = P.T.get(('sin', g.data['arg'].key()))
            f = {0: 1, 2 * g.one: -1}
            q = P.exact_div(n, f)
            if q is not None:
                n = q
                out = out * abs(gensym(s))
    if P.is_const(n):
        v = n[0]
        if v < 0:
            raise ValueError('math domain error')
        r = isqrt(v)
        if r * r == v:
            return out * r / den
    else:
        q = poly_sqrt(n)
        if q is not None:
            return out * abs(Sym(q, 1, {})) / den
        sg = static_sign(n)
        if not sg <= frozenset((0, 1)):
            ctx().domain(n)
    k = ('sqrt', P.key(n))
    g = P.T.get(k)
    if g is None:
        g = P.T.new('sqrt%d' % len(P.T.gens), k, 'sqrt',
                    data={'rad': n, 'pos': static_sign(n) ==
                          frozenset((1,))}, rel=n)
        g.nonneg = True
    return out * gensym(g) / den


def _angle_gen(kind, key, s, c, lo, hi):
    k = ('ang', kind, key)
    g = P.T.get(k)
    if g is None:
        g = P.T.new('%s%d' % (kind, len(P.T.gens)), k, 'ang',
                    data={'sc': (s, c), 'kind': kind, 'lo': lo, 'hi': hi})
    else:
        g.data['sc'] = (s, c)
    return gensym(g)


def sym_atan(x):
    if x.is_const() and x.const() == 0:
        return lift(0)
    if x.n[max(x.n)] < 0:
        return -sym_atan(-x)
    c = 1 / sym_sqrt(1 + x * x)
    return _angle_gen('atan', x.key(), x * c, c, -math.pi / 2, math.pi / 2)


def sym_asin(x):
    if x.is_const() and x.const() in (0, 1, -1):
        return lift_pi() * lift(Fraction(x.const(), 2))
    c = sym_sqrt(1 - x * x)
    return _angle_gen('asin', x.key(), x, c, -math.pi / 2, math.pi / 2)


def sym_acos(x):
    if x.is_const() and x.const() in (0, 1, -1):
        return lift_pi() * lift(Fraction(1 - x.const(), 2))
    s = sym_sqrt(1 - x * x)
    return _angle_gen('acos', x.key(), s, x, 0, math.pi)


def sym_atan2(y, x):
    y, x = lift(y), lift(x)
    if not y.n and x > 0:
        return lift(0)
    r = sym_sqrt(x * x + y * y)
    return _angle_gen('atan2', (y.key(), x.key()), y / r, x / r,
                      -math.pi, math.pi)


# --------------------------------------------------------------------------
# evaluation of generators at concrete inputs
# --------------------------------------------------------------------------
def gen_value(g, env):
    if g.kind == 'var':
        return float(env[g.name])
    if g.kind == 'pi':
        return math.pi
    if g.kind == 'cos':
        return math.cos(g.data['arg'].evalf(env))
    if g.kind == 'sin':
        return math.sin(g.data['arg'].evalf(env))
    if g.kind == 'exp':
        return math.exp(g.data['arg'].evalf(env))
    if g.kind == 'sqrt':
        v = Sym(g.data['rad'], 1, {}).evalf(env)
        return math.sqrt(v) if v > 0 else 0.0
    if g.kind == 'ang':
        s, c = g.data['sc']
        v = math.atan2(s.evalf(env), c.evalf(env))
        return v
    if g.kind == 'app':
        if g.data['fn'] == 'log':
            return math.log(g.data['args'][0].evalf(env))
        if g.data['fn'] == 'round':
            a, nd = g.data['args']
            return round(a.evalf(env), nd)
    raise KeyError('no concrete value for %s' % g.name)


# --------------------------------------------------------------------------
# differentiation
# --------------------------------------------------------------------------
def diff(a, x):
    """d a / d x for x a plain variable Sym."""
    (m, _), = x.n.items()
    vg = P.monos(m)[0][0]
    memo = {}

    def dg(g):
        if g.idx in memo:
            return memo[g.idx]
        if g is vg:
            r = lift(1)
        elif g.kind in ('var', 'pi'):
            r = lift(0)
        elif g.kind == 'cos':
            arg = g.data['arg']
            s = gensym(P.T.get(('sin', arg.key())))
            r = -s * ds(arg)
        elif g.kind == 'sin':
            r = gensym(g.data['cos']) * ds(g.data['arg'])
        elif g.kind == 'exp':
            r = gensym(g) * ds(g.data['arg'])
        elif g.kind == 'sqrt':
            dr = dp(g.data['rad'])
            r = dr / (2 * gensym(g)) if dr.n else lift(0)
        else:
            r = lift(0)
            if g.kind == 'ang':
                s, c = g.data['sc']
                r = ds(s) * c - ds(c) * s
        memo[g.idx] = r
        return r

    def dp(p):
        r = lift(0)
        for g in P.gens_of(p):
            d1 = dg(g)
            if d1.n:
                r = r + Sym(P.pdiff(p, g), 1, {}) * d1
        return r

    def ds(s):
        num = Sym(s.n, 1, {})
        den = Sym(s.denpoly(), 1, {})
        dn, dd = dp(s.n), dp(den.n)
        if not dd.n:
            return dn / den
        return (dn * den - num * dd) / (den * den)
    return ds(a)


# --------------------------------------------------------------------------
# complex
# --------------------------------------------------------------------------
class CSym:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        # a part may be NaN, written through a view of the parts
        self.re = re if _isnan(re) else lift(re)
        self.im = im if _isnan(im) else lift(im)

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def __add__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return CSym(self.re + o.real, self.im + o.imag)
    __radd__ = __add__

    def __neg__(self):
        return CSym(-self.re, -self.im)

    def __sub__(self, o):
        o = _co(o)
        return o if o is NotImplemented else self + (-o)

    def __rsub__(self, o):
        o = _co(o)
        return o if o is NotImplemented else (-self) + o

    def __mul__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        a, b, c, d = self.re, self.im, o.real, o.imag
        return CSym(a * c - b * d, a * d + b * c)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Sym):
            return CSym(self.re / o, self.im / o)
        m = o.re * o.re + o.im * o.im
        return self * CSym(o.re / m, -o.im / m)

    def __rtruediv__(self, o):
        o = _co(o)
        if isinstance(o, Sym):
            o = CSym(o, 0)
        return o / self

    def __pow__(self, n):
        if isinstance(n, Sym):
            n = n.const()
        if n == Fraction(1, 2):
            return self.sqrt()
        if int(n) != n:
            raise Unsupported('complex power')
        if n < 0:
            return 1 / self ** -n
        r = CSym(1, 0)
        for _ in range(int(n)):
            r = r * self
        return r

    def exp(self):
        e = self.re.exp()
        return CSym(e * self.im.cos(), e * self.im.sin())

    def sqrt(self):
        m = abs(self)
        re = ((m + self.re) / 2).sqrt()
        im = ((m - self.re) / 2).sqrt()
        return CSym(re, im if self.im >= 0 else -im)

    def __abs__(self):
        return sym_sqrt(self.re * self.re + self.im * self.im)

    def conjugate(self):
        return CSym(self.re, -self.im)
    conj = conjugate

    def __eq__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return False
        return (self.re == o.real) & (self.im == o.imag)

    def __ne__(self, o):
        return ~_b(self == o)

    def _lex(self, o, strict_op, op):
        # numpy orders complex numbers lexicographically
        o = _co(o)
        if o is NotImplemented:
            return o
        return _b(getattr(self.re, strict_op)(o.real)) | (
            _b(self.re == o.real) & _b(getattr(self.im, op)(o.imag)))

    def __lt__(self, o):
        return self._lex(o, '__lt__', '__lt__')

    def __gt__(self, o):
        return self._lex(o, '__gt__', '__gt__')

    def __le__(self, o):
        return self._lex(o, '__lt__', '__le__')

    def __ge__(self, o):
        return self._lex(o, '__gt__', '__ge__')

    def __hash__(self):
        return _hash(self)

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return 'CSym(%r, %r)' % (self.re, self.im)

    def __str__(self):
        return '(%s+%sj)' % (self.re, self.im)

    def __format__(self, spec):
        return '%s+%sj' % (format(self.re, spec), format(self.im, spec))

    def item(self):
        return self

    def evalf(self, env):
        return complex(self.re.evalf(env), self.im.evalf(env))

    def angle(self):
        return sym_atan2(self.im, self.re)


numbers.Complex.register(CSym)


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
class BoolSym:
    """('rel', polykey, poly, signs) | ('and'|'or', a, b) | ('not', a)"""
    __slots__ = ('t',)

    def __init__(self, *t):
        self.t = t

    def __bool__(self):
        t = self.t
        if t[0] == 'rel':
            return ctx().decide(t[1], t[2], t[3])
        if t[0] == 'and':
            return bool(t[1]) and bool(t[2])
        if t[0] == 'or':
            return bool(t[1]) or bool(t[2])
        return not bool(t[1])

    def __and__(self, o):
        if isinstance(o, BoolSym):
            return BoolSym('and', self, o)
        return self if o else False
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, BoolSym):
            return BoolSym('or', self, o)
        return True if o else self
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def __invert__(self):
        t = self.t
        if t[0] == 'rel':
            return BoolSym('rel', t[1], t[2], ALL - t[3])
        return BoolSym('not', self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def all(self):
        return bool(self)
    any = all

    def item(self):
        return bool(self)

    def z3(self):
        t = self.t
        if t[0] == 'rel':
            return rel_z3(t[2], t[3])
        if t[0] == 'and':
            return z3.And(_bz(t[1]), _bz(t[2]))
        if t[0] == 'or':
            return z3.Or(_bz(t[1]), _bz(t[2]))
        return z3.Not(_bz(t[1]))

    def polys(self):
        t = self.t
        if t[0] == 'rel':
            return [t[2]]
        return [p for x in t[1:] for p in
                (x.polys() if isinstance(x, BoolSym) else [])]

    def evalb(self, env, tol=0.0):
        t = self.t
        if t[0] == 'rel':
            v = Sym(t[2], 1, {}).evalf(env)
            s = 0 if abs(v) <= tol else (1 if v > 0 else -1)
            return s in t[3]
        if t[0] == 'and':
            return _be(t[1], env, tol) and _be(t[2], env, tol)
        if t[0] == 'or':
            return _be(t[1], env, tol) or _be(t[2], env, tol)
        return not _be(t[1], env, tol)


def _be(x, env, tol):
    return x.evalb(env, tol) if isinstance(x, BoolSym) else bool(x)


def _b(x):
    return x if isinstance(x, BoolSym) else (
        BoolSym('rel', (), {}, ALL) if x else BoolSym('rel', (), {},
                                                      frozenset()))


def _bz(x):
    return x.z3() if isinstance(x, BoolSym) else z3.BoolVal(bool(x))


def mkrel(n, signs):
    """Boolean for sign(n) in signs."""
    if not n:
        return 0 in signs
    st = static_sign(n)
    if st <= signs:
        return True
    if not (st & signs):
        return False
    c = P.content(n)
    q = n if c == 1 else {m: v // c for m, v in n.items()}
    # drop monomial factors of known positive sign
    mc = P.mono_content(q)
    if mc:
        sub = 0
        for g, e in P.monos(mc):
            if g.nonneg and (g.lo is not None and g.lo > 0 or g.data_pos()):
                sub += e * g.one
        if sub:
            q = {m - sub: v for m, v in q.items()}
    if q[max(q)] < 0:
        q = P.pneg(q)
        signs = frozenset(-s for s in signs)
    # sqrt(a) < sqrt(b)  <=>  a < b
    if len(q) == 2:
        (m1, c1), (m2, c2) = q.items()
        if (c1 > 0) != (c2 > 0):
            g1, g2 = P.monos(m1), P.monos(m2)
            if len(g1) == 1 and len(g2) == 1 and g1[0][1] == 1 == g2[0][1] \
                    and g1[0][0].kind == 'sqrt' and g2[0][0].kind == 'sqrt':
                a = P.pscale(g1[0][0].rel, c1 * c1 * (1 if c1 > 0 else -1))
                b = P.pscale(g2[0][0].rel, c2 * c2 * (1 if c2 > 0 else -1))
                return mkrel(P.padd(a, b), signs)
    return BoolSym('rel', P.key(q), q, signs)


# --------------------------------------------------------------------------
# z3 translation
# --------------------------------------------------------------------------
def gz(g):
    if g.z is None:
        g.z = z3.Real('%s#%d' % (g.name, g.idx))
    return g.z


def poly_z3(p):
    terms = []
    for m, c in p.items():
        fs = []
        for g, e in P.monos(m):
            fs.extend([gz(g)] * e)
        if not fs:
            terms.append(z3.RealVal(c))
        else:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t if c == 1 else z3.RealVal(c) * t)
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def rel_z3(p, signs):
    e = poly_z3(p)
    s = frozenset(signs)
    for op, f in (('<', lambda: e < 0), ('<=', lambda: e <= 0),
                  ('>', lambda: e > 0), ('>=', lambda: e >= 0),
                  ('==', lambda: e == 0), ('!=', lambda: e != 0)):
        if s == SIGNS[op]:
            return f()
    return z3.BoolVal(s == ALL)


def squared(p, positive=lambda r: False):
    """A polynomial A + T of the same sign as p, T a constant times a product
    of square roots: (A, A**2 - T**2, sign of T), or None.  p may itself be
    such a sum, or its product with those square roots where the radicands
    are known to be positive."""
    if len(p) > 200:
        return None
    A, B, roots = {}, {}, None
    for m, c in p.items():
        gs = [(g, e) for g, e in P.monos(m) if g.kind == 'sqrt']
        if not gs:
            A[m] = c
            continue
        r = sum(g.one for g, _ in gs)
        if roots is None:
            roots, gens = r, [g for g, _ in gs]
        if r != roots or any(e != 1 for _, e in gs):
            return None
        B[m - r] = c
    if roots is None:
        return None
    t2 = {0: 1}
    for g in gens:
        t2 = P.pmul(t2, g.rel)
    if len(t2) > 2000:
        return None
    if not P.is_const(B):
        # p = B s + A with A = k s**2: the sign of B + k s
        k = P.exact_div(A, t2) if A else None
        if k is None or not P.is_const(k) or not all(
                g.data_pos() or positive({g.one: 1}) or positive(g.rel)
                for g in gens):
            return None
        A, B = B, k
    c = B[0]
    t2 = P.pscale(t2, c * c)
    if len(A) * len(A) + len(t2) > 5000:
        return None
    return A, P.psub(P.pmul(A, A), t2), 1 if c > 0 else -1


def normal_sign(q):
    """(primitive polynomial with positive leading term, was it negated)"""
    if not q:
        return q, False
    c = P.content(q)
    if c != 1:
        q = {m: v // c for m, v in q.items()}
    if q[max(q)] < 0:
        return P.pneg(q), True
    return q, False


def gen_constraints(g, defs=True):
    """(list of z3 constraints, list of generators they mention)"""
    z = gz(g)
    cs = []
    deps = []
    if g.lo is not None:
        cs.append(z >= z3.RealVal(str(g.lo)))
    if g.hi is not None:
        cs.append(z <= z3.RealVal(str(g.hi)))
    if g.data_pos():
        cs.append(z > 0)
    elif g.nonneg:
        cs.append(z >= 0)
    if g.kind in ('cos', 'sin'):
        cs += [z <= 1, z >= -1]
    if defs:
        if g.rel is not None:
            cs.append(z * z == poly_z3(g.rel))
            deps += P.gens_of(g.rel)
        if g.kind == 'app' and g.data.get('axioms'):
            for b in g.data['axioms']:
                cs.append(_bz(b))
                for p in b.polys():
                    deps += P.gens_of(p)
    return cs, deps


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.sat = 0
        self.unsat = 0
        self.trivial = 0

    def asdict(self):
        return dict(queries=self.queries, solver_s=round(self.time, 3),
                    unknown=self.unknown, sat=self.sat, unsat=self.unsat,
                    normalised_to_false=self.trivial)


STATS = Stats()


def closure(gens):
    seen = {}
    work = list(gens)
    cs = []
    while work:
        g = work.pop()
        if g.idx in seen:
            continue
        seen[g.idx] = g
        c, deps = gen_constraints(g)
        cs += c
        work += deps
    return cs, seen


def solve(formulas, gens, timeout_ms, extra=(), want_model=False):
    """Check formulas together with the constraints of all generators in
    their closure."""
    cs, seen = closure(gens)
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.set('random_seed', 0)
    for c in cs:
        s.add(c)
    for f in formulas:
        s.add(f)
    for f in extra:
        s.add(f)
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t
    if r == z3.sat:
        STATS.sat += 1
        return ('sat', s.model() if want_model else None, seen)
    if r == z3.unsat:
        STATS.unsat += 1
        return ('unsat', None, seen)
    STATS.unknown += 1
    return ('unknown', None, seen)


# --------------------------------------------------------------------------
# path context
# --------------------------------------------------------------------------
SERIAL = itertools.count(1)
EQUALITY = frozenset((0,)), frozenset((-1, 1))


class Path:
    def __init__(self, prefix, explorer):
        self.prefix = prefix
        self.pos = 0
        self.ex = explorer
        self.known = {}         # polykey -> (poly, sign set)
        self.taken = []         # decisions made
        self.domains = []       # domain assumptions (poly >= 0)
        self.nz = {}            # nonzero assumptions
        self.tokens_on = True
        self.tokens = explorer.tokens
        self.results = []
        self.extra = []         # compound conditions decided as a whole
        self.absforks = 0
        self.env = explorer.env  # concolic evaluation or None
        self.notes = []
        self.picked = ()        # options of the harness on this path
        self.hashed = []        # numbers used as keys, with their hashes
        self.serial = next(SERIAL)
        self.keyforks = 0
        self.keyfacts = set()
        self.alias = explorer.renamed   # later input -> equal earlier input

    # -- assumptions
    def nonzero(self, p):
        if P.is_const(p):
            return
        c, fs = factorize(p)
        for fk, _ in fs:
            f = FACT[fk]
            st = static_sign(f)
            if 0 not in st:
                continue
            kn = self.known.get(fk, (f, ALL))[1]
            if kn == frozenset((0,)):
                raise ZeroDivisionError('float division by zero')
            if 0 in kn:
                self.known[fk] = (f, kn - {0})
                self.nz[fk] = f
                if self.env is not None:
                    if abs(Sym(f, 1, {}).evalf(self.env)) == 0:
                        raise PathAbort('zero denominator')

    def domain(self, p):
        r = mkrel(p, SIGNS['>='])
        if r is True:
            return
        if r is False:
            raise ValueError('math domain error')
        self.assume(r, 'domain of sqrt')
        self.domains.append(p)

    def assume(self, b, note=None):
        """Restrict to inputs where b holds."""
        if not isinstance(b, BoolSym):
            if not b:
                raise PathAbort('assumption false')
            return
        t = b.t
        if t[0] == 'and':
            self.assume(t[1])
            self.assume(t[2])
            return
        if t[0] != 'rel':
            if not bool(b):
                raise PathAbort('assumption false')
            return
        if self.env is not None:
            if not b.evalb(self.env):
                raise PathAbort('assumption false under concrete input')
        kn = self.known.get(t[1], (t[2], ALL))[1] & t[3]
        if not kn:
            raise PathAbort('assumption contradicts path')
        self.known[t[1]] = (t[2], kn)

    # -- forking
    def decide(self, key, poly, signs):
        kn = self.known.get(key, (poly, ALL))[1]
        kn = kn & static_sign(poly)
        if self.ex.pairs is not None and signs in EQUALITY:
            name = twin(poly)
            if name:        # equal values are another run's business
                self.ex.pairs.add(name)
                kn = kn - {0}
                self.known[key] = (poly, kn)
        if not kn:
            raise PathAbort('contradiction')
        if kn <= signs:
            return True
        if not (kn & signs):
            return False
        if self.env is not None:
            v = Sym(poly, 1, {}).evalf(self.env)
            s = 0 if v == 0 else (1 if v > 0 else -1)
            r = s in signs
            self.known[key] = (poly, kn & (signs if r else ALL - signs))
            return r
        yes, no = kn & signs, kn - signs
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
        else:
            fy = self.feasible(key, poly, yes)
            fn = self.feasible(key, poly, no)
            if not fy and not fn:
                raise PathAbort('infeasible path')
            if fy and fn:
                self.ex.push(self.taken + [False])
                r = True
            else:
                r = fy
        self.pos += 1
        self.taken.append(r)
        self.known[key] = (poly, yes if r else no)
        return r

    def holds(self, b):
        """True / False if settled by what is known, else None."""
        if not isinstance(b, BoolSym):
            return bool(b)
        t = b.t
        if t[0] == 'rel':
            kn = self.known.get(t[1], (t[2], ALL))[1] & static_sign(t[2]) \
                if t[2] else t[3]
            if kn <= t[3] and kn:
                return True
            return None if kn & t[3] else False
        a = self.holds(t[1])
        if t[0] == 'not':
            return None if a is None else not a
        c = self.holds(t[2])
        if t[0] == 'and':
            return False if a is False or c is False else \
                (True if a and c else None)
        return True if a or c else (False if a is False and c is False
                                    else None)

    def decide_whole(self, b):
        """Fork once on a compound condition."""
        r = self.holds(b)
        if r is not None:
            return r
        if self.env is not None:
            return b.evalb(self.env)
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
        else:
            gens = [g for p in b.polys() for g in P.gens_of(p)]
            gs = {g.idx for g in gens}
            fs = [rel_z3(p, s) for p, s in self.known.values()
                  if s != ALL and {g.idx for g in P.gens_of(p)} & gs]
            can = [True, True]
            if self.ex.feas_ms:
                for i, f in enumerate((b.z3(), z3.Not(b.z3()))):
                    can[i] = solve(fs + [f], gens, self.ex.feas_ms)[0] \
                        != 'unsat'
            if not any(can):
                raise PathAbort('infeasible path')
            if all(can):
                self.ex.push(self.taken + [False])
            r = can[0]
        self.pos += 1
        self.taken.append(r)
        self.extra.append((b, r))
        return r

    def choose(self, n, label='', start=0, step=1):
        """Fork over range(start, n, step)."""
        if self.env is not None:
            return int(self.env.get('choice:' + label, 0)) % n
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
        else:
            opts = list(range(start, n, step))
            if not opts:
                raise PathAbort('empty shard')
            for i in reversed(opts[1:]):
                self.ex.push(self.taken + [i])
            r = opts[0]
        self.pos += 1
        self.taken.append(r)
        self.picked += (label, r),
        return r

    def formulas(self, keys=True):
        """What is known; without what was decided about keys only if
        keys is False."""
        fs, gens = [], []
        for k, (p, s) in self.known.items():
            if s == ALL or not keys and k in self.keyfacts:
                continue
            fs.append(rel_z3(p, s))
            gens += P.gens_of(p)
        for b, r in self.extra:
            fs.append(b.z3() if r else z3.Not(b.z3()))
            gens += [g for p in b.polys() for g in P.gens_of(p)]
        return fs, gens

    def feasible(self, key, poly, signs):
        if self.ex.feas_ms == 0:
            return True
        extra = []
        sq = squared(poly, self.nonzero_known)
        if sq is not None:
            A, Q, c = sq
            kA, kQ = self.sign_known(A), self.sign_known(Q)
            possible = {c}
            if -c in kA and 1 in kQ:
                possible.add(-c)
            if 0 in kQ and (0 in kA or -c in kA):
                possible.add(0)
            if not possible & signs:
                return False
            a, q = poly_z3(A), poly_z3(Q)
            opp = z3.And(a < 0 if c > 0 else a > 0, q > 0)
            nil = z3.And(a <= 0 if c > 0 else a >= 0, q == 0)
            opts = {-c: opp, 0: nil, c: z3.And(z3.Not(opp), z3.Not(nil))}
            extra = [z3.Or([opts[k] for k in sorted(signs)])]
        # cone of influence of the new constraint
        rel = [(p, s) for k, (p, s) in self.known.items()
               if s != ALL and k != key]
        gs = {g.idx for g in P.gens_of(poly)}
        cs0, seen = closure(P.gens_of(poly))
        gs |= set(seen)
        chosen = []
        pend = [(p, s, {g.idx for g in P.gens_of(p)}) for p, s in rel]
        changed = True
        while changed and len(chosen) < 60:
            changed = False
            for it in list(pend):
                if it[2] & gs:
                    chosen.append(it)
                    pend.remove(it)
                    gs |= it[2]
                    changed = True
        gens = list(P.gens_of(poly))
        fs = [rel_z3(poly, signs)]
        for p, s, _ in chosen:
            fs.append(rel_z3(p, s))
            gens += P.gens_of(p)
        r, _, _ = solve(fs, gens, self.ex.feas_ms, extra)
        return r != 'unsat'

    def nonzero_known(self, p):
        if 0 not in self.sign_known(p):
            return True
        return all(0 not in self.known.get(k, (None, ALL))[1] &
                   static_sign(FACT[k]) for k, _ in factorize(p)[1])

    def sign_known(self, p):
        q, neg = normal_sign(p)
        s = self.known.get(P.key(q), (q, ALL))[1] & static_sign(q)
        return frozenset(-x for x in s) if neg else s

    # -- text tokens
    def token(self, sym, spec):
        return self.tokens.put(sym, spec)

    def rounded(self, sym, nd):
        return round_atom(sym, nd)


class Tokens:
    """Numeric-looking strings that stand for symbolic numbers."""

    def __init__(self):
        self.items = []
        self.index = {}

    def put(self, sym, spec):
        k = (sym.key(), spec)
        i = self.index.get(k)
        if i is None:
            i = len(self.items)
            self.items.append((sym, spec))
            self.index[k] = i
        return '4%05d3.0625' % i

    def spec(self, s):
        """format with which a token was written, None for other text"""
        s = s.strip().lstrip('+-')
        if len(s) == 12 and s[0] == '4' and s.endswith('3.0625') and \
                s[1:6].isdigit() and int(s[1:6]) < len(self.items):
            return self.items[int(s[1:6])][1]
        return None

    def get(self, s):
        s = s.strip()
        sgn = 1
        if s[:1] in ('-', '+'):
            sgn, s = -1 if s[0] == '-' else 1, s[1:]
        if len(s) == 12 and s[0] == '4' and s.endswith('3.0625') and \
                s[1:6].isdigit():
            i = int(s[1:6])
            if i < len(self.items):
                sym = self.items[i][0]
                return sym if sgn > 0 else -sym
        return None

    def getf(self, x):
        if x >= 4e6 and x < 5e6 and (x * 16) % 16 == 1:
            return self.get(repr(float(x)))
        return None


class Explorer:
    """Depth-first exploration by re-execution."""

    def __init__(self, fn, max_paths=4000, feas_ms=2000, deadline=None):
        self.fn = fn
        self.stack = [([], {})]
        self.max_paths = max_paths
        self.feas_ms = feas_ms
        self.deadline = deadline
        self.tokens = Tokens()
        self.env = None
        self.npaths = 0
        self.aborted = 0
        self.reached, self.excluded = set(), set()
        # inputs whose first and second values the code compares
        self.pairs = None
        self.renamed, self.aliases = {}, set()

    def dead(self):
        """combinations of options every path of which was excluded"""
        return sorted(self.excluded - self.reached)

    def alias(self, path, pair):
        """Explore by itself the case that two inputs are equal."""
        if not path.alias and pair not in self.aliases and \
                len(self.aliases) < ALIASES:
            self.aliases.add(pair)
            self.stack.insert(0, ([], {pair[1]: pair[0]}))

    def push(self, prefix):
        self.stack.append((prefix, self.renamed))

    def run(self):
        """Yields (path, outcome) where outcome is None or an exception."""
        global CTX
        while self.stack:
            prefix, self.renamed = self.stack.pop()
            if self.npaths >= self.max_paths:
                raise Budget('more than %d paths' % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Budget('exploration deadline')
            p = Path(prefix, self)
            CTX = p
            try:
                self.fn(p)
                out = None
            except PathAbort:
                self.aborted += 1
                self.excluded.add(p.picked)
                continue
            except Budget:
                raise
            except Exception as e:      # outcome, judged by the caller
                out = e
            self.npaths += 1
            for i in range(len(p.picked) + 1):
                self.reached.add(p.picked[:i])
            try:
                yield p, out
            finally:
                CTX = None

    def run_env(self, env):
        """One concolic run, forks decided by evaluating under env."""
        global CTX
        self.env, self.renamed = env, {}
        p = Path([], self)
        CTX = p
        try:
            self.fn(p)
        finally:
            self.env = None
        return p
