"""Multivariate polynomials with integer coefficients over a table of
generators, some of which are algebraic (g**2 = polynomial in other
generators: the sine of an angle, a square root).

A polynomial is a dict {packed monomial: int}.  A packed monomial stores the
exponent of generator i in bits [8*i, 8*i+8).  Every polynomial handed out is
reduced, i.e. no algebraic generator occurs with an exponent above one, so
that two polynomials that are equal modulo the defining relations of the
(independent) generators have the same dict.
"""
from fractions import Fraction
from math import gcd

BITS = 8
MAXEXP = 120


class TooBig(Exception):
    pass


class Gen:
    __slots__ = ('idx', 'name', 'key', 'kind', 'data', 'lo', 'hi', 'nonneg',
                 'rel', 'one', 'z', 'inp')

    def __init__(self, idx, name, key, kind, data=None, lo=None, hi=None):
        self.idx, self.name, self.key, self.kind = idx, name, key, kind
        self.data = data
        self.lo, self.hi = lo, hi
        self.nonneg = lo is not None and lo >= 0
        self.rel = None
        self.one = 1 << (BITS * idx)
        self.z = None
        self.inp = kind in ('var',)


class Table:
    """Generator table; one per harness run."""

    def __init__(self):
        self.gens = []
        self.bykey = {}
        self.algmask = 0
        self.ovmask = 0
        # generator 0 is always pi, so that module level constants survive
        self.new('pi', 'pi', 'pi', lo=Fraction(314159, 100000),
                 hi=Fraction(314160, 100000))

    def get(self, key):
        return self.bykey.get(key)

    def new(self, name, key, kind, data=None, lo=None, hi=None, rel=None):
        g = Gen(len(self.gens), name, key, kind, data, lo, hi)
        self.gens.append(g)
        self.bykey[key] = g
        self.ovmask |= 0x80 << (BITS * g.idx)
        if rel is not None:
            self.setrel(g, rel)
        return g

    def setrel(self, g, rel):
        g.rel = rel
        self.algmask |= 0xFE << (BITS * g.idx)


T = Table()


def reset():
    global T
    T = Table()
    return T


def monos(m):
    """[(gen, exp)] of a packed monomial."""
    out = []
    i = 0
    while m:
        e = m & 0xFF
        if e:
            out.append((T.gens[i], e))
        m >>= BITS
        i += 1
    return out


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v += c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pneg(p):
    return {m: -c for m, c in p.items()}


def psub(p, q):
    return padd(p, pneg(q))


def pscale(p, k):
    if k == 0:
        return {}
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()}


def _reduce(p):
    am = T.algmask
    if not am:
        return p
    bad = [m for m in p if m & am]
    if not bad:
        return p
    out = {m: c for m, c in p.items() if not (m & am)}
    work = {m: p[m] for m in bad}
    while work:
        m, c = work.popitem()
        if c == 0:
            continue
        hit = m & am
        if not hit:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        # highest index algebraic generator first: its relation only involves
        # generators created earlier
        i = (hit.bit_length() - 1) // BITS
        g = T.gens[i]
        base = m - 2 * g.one
        for rm, rc in g.rel.items():
            mm = base + rm
            if mm & T.ovmask:
                raise TooBig('exponent overflow')
            v = work.get(mm, 0) + c * rc
            if v:
                work[mm] = v
            else:
                work.pop(mm, None)
    return out


LIMIT = 400000


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1:
        (m1, c1), = p.items()
        if m1 == 0:
            return pscale(q, c1)
        r = {m + m1: c * c1 for m, c in q.items()}
    else:
        r = {}
        get = r.get
        qi = list(q.items())
        for m1, c1 in p.items():
            for m2, c2 in qi:
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
            if len(r) > LIMIT:
                raise TooBig('polynomial with more than %d terms' % LIMIT)
        r = {m: c for m, c in r.items() if c}
    ov = T.ovmask
    for m in r:
        if m & ov:
            raise TooBig('exponent overflow')
    return _reduce(r)


def ppow(p, n):
    r = {0: 1}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def pconst(c):
    return {0: c} if c else {}


def is_const(p):
    return not p or (len(p) == 1 and 0 in p)


def content(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g or 1


def mono_content(p):
    """Largest monomial dividing every term."""
    it = iter(p)
    try:
        m = next(it)
    except StopIteration:
        return 0
    exps = {g.idx: e for g, e in monos(m)}
    for m in it:
        if not exps:
            return 0
        for i in list(exps):
            e = (m >> (BITS * i)) & 0xFF
            if e < exps[i]:
                if e == 0:
                    del exps[i]
                else:
                    exps[i] = e
    r = 0
    for i, e in exps.items():
        r += e << (BITS * i)
    return r


def key(p):
    return tuple(sorted(p.items()))


def gens_of(p):
    acc = 0
    for m in p:
        acc |= m
    return [g for g, _ in monos(acc)]


def pdiff(p, g):
    """Partial derivative with respect to the generator g (others constant)."""
    r = {}
    sh = BITS * g.idx
    for m, c in p.items():
        e = (m >> sh) & 0xFF
        if e:
            mm = m - g.one
            v = r.get(mm, 0) + c * e
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return r


def exact_div(p, q):
    """p / q if the division is exact as plain polynomials (lexicographic
    order on the packed representation), else None."""
    if not q:
        return None
    lm = max(q)
    lc = q[lm]
    lme = monos(lm)
    rem = dict(p)
    quo = {}
    n = 0
    while rem:
        m = max(rem)
        c = rem[m]
        if c % lc:
            return None
        for g, e in lme:
            if ((m >> (BITS * g.idx)) & 0xFF) < e:
                return None
        qm = m - lm
        qc = c // lc
        quo[qm] = qc
        for m2, c2 in q.items():
            mm = m2 + qm
            v = rem.get(mm, 0) - c2 * qc
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
        n += 1
        if n > 3000:
            return None
    return quo


def evalf(p, vals):
    """Float value given {gen idx: float}."""
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for g, e in monos(m):
            t *= vals[g.idx] ** e
        s += t
    return s


def show(p, limit=8):
    if not p:
        return '0'
    out = []
    for i, (m, c) in enumerate(p.items()):
        if i == limit:
            out.append('... (%d terms)' % len(p))
            break
        t = str(c)
        for g, e in monos(m):
            t += '*' + g.name + ('^%d' % e if e > 1 else '')
        out.append(t)
    return ' + '.join(out)
