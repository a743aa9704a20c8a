"""Rider lean model: the benchmark bicycle plus an upper body hinged about a
fore-aft axis.  The reference is an independent derivation: lean-locked
Whipple matrices (C01's reference) of the combined bodies plus the hinge
dynamics from d'Alembert's principle."""
from fractions import Fraction

from engine.harness import harness
from .common import canonical_reference, met

# fixed rational points used for the parameters that are not symbolic
POINTS = [
    dict(c9=7, d1=Fraction(61, 64), d2=Fraction(17, 64), d3=Fraction(2, 64),
         d4=Fraction(-12, 64), g=Fraction(981, 100), ic11=Fraction(41, 8),
         ic22=Fraction(61, 8), ic31=Fraction(-9, 8), ic33=Fraction(19, 8),
         id11=Fraction(5, 64), id22=Fraction(9, 64), ie11=Fraction(17, 64),
         ie22=Fraction(16, 64), ie31=Fraction(-3, 64), ie33=Fraction(5, 64),
         if11=Fraction(6, 64), if22=Fraction(10, 64), ig11=Fraction(13, 8),
         ig22=Fraction(11, 8), ig31=Fraction(3, 8), ig33=Fraction(5, 8),
         k9=128, l1=Fraction(24, 64), l2=Fraction(-15, 64),
         l3=Fraction(-1, 64), l4=Fraction(-20, 64), l5=Fraction(21, 64),
         l6=Fraction(-19, 64), mc=Fraction(61, 2), md=Fraction(25, 8),
         me=Fraction(27, 8), mf=Fraction(13, 8), mg=Fraction(81, 2),
         rf=Fraction(22, 64), v=5, lam=Fraction(5, 13)),
    dict(c9=0, d1=Fraction(13, 16), d2=Fraction(5, 16), d3=Fraction(1, 16),
         d4=Fraction(3, 16), g=Fraction(16, 10), ic11=Fraction(9, 2),
         ic22=Fraction(7, 2), ic31=Fraction(5, 4), ic33=Fraction(11, 4),
         id11=Fraction(3, 16), id22=Fraction(5, 16), ie11=Fraction(7, 16),
         ie22=Fraction(3, 16), ie31=Fraction(1, 16), ie33=Fraction(2, 16),
         if11=Fraction(1, 16), if22=Fraction(3, 16), ig11=Fraction(7, 2),
         ig22=Fraction(5, 2), ig31=Fraction(-3, 4), ig33=Fraction(5, 4),
         k9=Fraction(7, 2), l1=Fraction(7, 16), l2=Fraction(-5, 16),
         l3=Fraction(2, 16), l4=Fraction(-5, 16), l5=Fraction(3, 16),
         l6=Fraction(-7, 16), mc=19, md=2, me=5, mf=3, mg=53,
         rf=Fraction(5, 16), v=Fraction(-7, 2), lam=Fraction(8, 17)),
]
RANGES = {
    'c9': (0, 20), 'd1': (0.6, 1.2), 'd2': (0.1, 0.5), 'd3': (-0.05, 0.1),
    'd4': (-0.4, 0.2), 'g': (1, 20), 'k9': (0, 200), 'l1': (0.1, 0.8),
    'l2': (-0.5, 0.1), 'l3': (-0.1, 0.1), 'l4': (-0.5, 0), 'l5': (0, 0.6),
    'l6': (-0.8, -0.1), 'ic31': (-1, 1), 'ie31': (-0.02, 0.02),
    'ig31': (-0.3, 0.3), 'v': (-9, 9), 'lam': (-0.4, 0.9),
    'rf': (0.2, 0.5), 'ic11': (3, 9), 'ic22': (3, 9), 'ic33': (2, 6),
    'id11': (0.05, 0.3), 'id22': (0.05, 0.4), 'ie11': (0.1, 0.5),
    'ie22': (0.1, 0.5), 'ie33': (0.05, 0.2), 'if11': (0.05, 0.3),
    'if22': (0.05, 0.4), 'ig11': (1, 4), 'ig22': (1, 4), 'ig33': (1, 3),
    'mc': (5, 40), 'md': (1, 5), 'me': (1, 6), 'mf': (1, 5), 'mg': (10, 60),
}
ORDER = ['c9', 'd1', 'd2', 'd3', 'd4', 'g', 'ic11', 'ic22', 'ic31', 'ic33',
         'id11', 'id22', 'ie11', 'ie22', 'ie31', 'ie33', 'if11', 'if22',
         'ig11', 'ig22', 'ig31', 'ig33', 'k9', 'l1', 'l2', 'l3', 'l4', 'l5',
         'l6', 'mc', 'md', 'me', 'mf', 'mg', 'rf', 'rr', 'v']
GEO = ('d1', 'd2', 'd3', 'rf', 'rr')


def asin(h, s):
    """the angle whose sine is the rational s"""
    import math
    if h.symbolic:
        from engine import shims
        return shims.apply('arcsin', h.const(s))
    return math.asin(s)


def point(h, which, symbolic, suffix=''):
    """a parameter dictionary on the upright geometry, and its steer axis
    tilt; the rear wheel radius follows from the tilt"""
    p = {}
    for k, val in POINTS[which].items():
        if k in symbolic:
            lo, hi = RANGES[k]
            p[k] = h.angle(k + suffix, lo, hi) if k == 'lam' else \
                h.real(k + suffix, lo, hi)
        elif k == 'lam':
            p[k] = asin(h, val)
        else:
            p[k] = h.const(val) * h.const(1)
    lam = p.pop('lam')
    close(h, p, lam)
    return p, lam


def close(h, p, lam):
    p['rr'] = p['d2'] * h.cos(lam) + p['rf'] - (p['d1'] + p['d3']) * \
        h.sin(lam)
    if not h.symbolic:
        for k in p:
            p[k] = float(p[k])
    else:
        h.assume(p['rr'] > h.const(Fraction(1, 20)))


class Root:
    """Stand-in for the scalar root finder: the harness supplies the pitch
    angles of the geometries in play and the stub returns the one that
    satisfies the equation the code asks to solve."""

    def __init__(self, h):
        self.h = h
        self.cands = []
        h.ext('scipy.optimize.newton', self)

    def __call__(self, f, x0, args=(), **k):
        from engine import sym as S
        for c in self.cands:
            r = S.lift(f(c, *args))
            if r is not None and not r.n:
                return c
        raise S.Unsupported('no candidate root')


def reference(h, p, lam):
    """3x3 mass, damping and stiffness for (roll, steer, lean)"""
    s, c = h.sin(lam), h.cos(lam)
    w = (p['d1'] + p['d3']) * c + p['d2'] * s
    trail = (p['rf'] * s - p['d3']) / c

    def place(x0, z0, a, b):
        # a along the pitched frame's first axis, b along its third
        return x0 + a * c + b * s, z0 - a * s + b * c

    def rot(i11, i31, i33):
        # tensor components from the pitched frame to the upright one
        ixx = i11 * c * c + 2 * i31 * s * c + i33 * s * s
        izz = i11 * s * s - 2 * i31 * s * c + i33 * c * c
        ixz = (i33 - i11) * s * c + i31 * (c * c - s * s)
        return ixx, ixz, izz

    xC, zC = place(0, -p['rr'], p['l1'], p['l2'])
    xE, zE = place(w, -p['rf'], p['l3'], p['l4'])
    Cxx, Cxz, Czz = rot(p['ic11'], p['ic31'], p['ic33'])
    Exx, Exz, Ezz = rot(p['ie11'], p['ie31'], p['ie33'])
    zh = -p['rr'] + p['d4']
    xG, zG, mG = p['l5'], zh + p['l6'], p['mg']
    mB = p['mc'] + mG
    xB = (p['mc'] * xC + mG * xG) / mB
    zB = (p['mc'] * zC + mG * zG) / mB
    b = {'mB': mB, 'xB': xB, 'zB': zB,
         'IBxx': Cxx + p['mc'] * (zC - zB)**2 + p['ig11'] +
         mG * (zG - zB)**2,
         'IBzz': Czz + p['mc'] * (xC - xB)**2 + p['ig33'] +
         mG * (xG - xB)**2,
         'IBxz': Cxz - p['mc'] * (xC - xB) * (zC - zB) + p['ig31'] -
         mG * (xG - xB) * (zG - zB),
         'mH': p['me'], 'xH': xE, 'zH': zE, 'IHxx': Exx, 'IHzz': Ezz,
         'IHxz': Exz, 'mR': p['md'], 'mF': p['mf'], 'rR': p['rr'],
         'rF': p['rf'], 'IRxx': p['id11'], 'IRyy': p['id22'],
         'IFxx': p['if11'], 'IFyy': p['if22'], 'w': w, 'c': trail,
         'lam': lam}
    M2, C2, K02, K22 = canonical_reference(h, b)
    a = p['l6']             # mass centre below the hinge (z down)
    mu = trail * c / w
    Mpt = p['ig11'] + mG * zG * a
    yaw = p['ig31'] - mG * xG * a
    Mtt = p['ig11'] + mG * a * a
    M = [[M2[0][0], M2[0][1], Mpt], [M2[1][0], M2[1][1], mu * yaw],
         [Mpt, mu * yaw, Mtt]]
    v, g = p['v'], p['g']
    C = [[v * C2[0][0], v * C2[0][1], 0], [v * C2[1][0], v * C2[1][1], 0],
         [0, v * (yaw * c / w - mG * a * mu), p['c9']]]
    K = [[g * K02[0][0] + v * v * K22[0][0],
          g * K02[0][1] + v * v * K22[0][1], g * mG * a],
         [g * K02[1][0] + v * v * K22[1][0],
          g * K02[1][1] + v * v * K22[1][1], 0],
         [g * mG * a, -v * v * mG * a * c / w, g * mG * a + p['k9']]]
    # lean displaces the mass sideways; the frame's steer-induced pitch
    # does not involve it, but yawing the leaned mass does no work either
    return M, C, K, w, trail, c


def check(h, A, B, p, lam):
    M, C, K, w, trail, c = reference(h, p, lam)
    v = p['v']
    h.true('shape', A.shape == (12, 12) and B.shape == (12, 3))
    zero = [[0] * 12 for _ in range(8)]
    zero[0][9] = -p['rr']
    zero[1][2] = v
    zero[2][5] = v * c / w
    zero[2][10] = trail * c / w
    for i, j in ((3, 8), (4, 9), (5, 10), (7, 11)):
        zero[i][j] = 1
    zero[6][9] = p['rr'] / p['rf']
    for i in range(8):
        h.eq('A kinematic row %d' % i, list(A[i]), zero[i])
        h.eq('B kinematic row %d' % i, list(B[i]), [0, 0, 0])
    h.eq('wheel rate row', list(A[9]), [0] * 12)
    h.eq('wheel rate input', list(B[9]), [0] * 3)
    dyn = (8, 10, 11)
    for i in dyn:
        for j in (0, 1, 2, 4, 6, 9):
            h.eq('A[%d,%d] vanishes' % (i, j), A[i, j], 0)
    for r in range(3):
        for k in range(3):
            h.eq('stiffness[%d,%d]' % (r, k), sum(
                M[r][i] * A[dyn[i], (3, 5, 7)[k]] for i in range(3)),
                -K[r][k])
            h.eq('damping[%d,%d]' % (r, k), sum(
                M[r][i] * A[dyn[i], dyn[k]] for i in range(3)), -C[r][k])
            h.eq('input[%d,%d]' % (r, k), sum(
                M[r][i] * B[dyn[i], k] for i in range(3)),
                1 if r == k else 0)


def build(h, p):
    return met(h, 'model', lambda: h.mod('models').MooreRiderLean2012Model(
        h.mod('parameter_sets').MooreRiderLean2012ParameterSet(dict(p))), p)


SUBSETS = [
    ('v', 'g', 'c9', 'k9', 'mg', 'mc'), ('v', 'md', 'me', 'mf'),
    ('ic11', 'ic31', 'ic33', 'v', 'ic22'), ('ig11', 'ig31', 'ig33', 'g'),
    ('ie11', 'ie31', 'ie33', 'ie22', 'v'), ('id11', 'id22', 'v'),
    ('if11', 'if22', 'v', 'ig22'), ('l1', 'l2', 'v'), ('l3', 'l4', 'v'),
    ('l5', 'l6', 'v', 'k9'), ('d4', 'l6', 'mg', 'g'), ('lam', 'v', 'g'),
    ('d1', 'v'), ('d2', 'g'), ('d3', 'v'), ('rf', 'v'),
]


@harness('C05', 'dynamics', bounds='16 groups of 2-6 symbolic parameters '
         '(every parameter is in at least one), the others at two fixed '
         'rational points', tol=1e-6, shards=4,
         stubs='root finder: returns the pitch angle that satisfies the '
         'requested equation (checked)')
def dynamics(h):
    i = h.choice('subset', len(SUBSETS))
    w = h.choice('point', 2)
    root = Root(h)
    p, lam = point(h, w, SUBSETS[i])
    root.cands = [lam]
    A, B = build(h, p).form_state_space_matrices()
    check(h, A, B, p, lam)


def kwarg(h, vals, kind='array'):
    return h.arr(vals) if kind == 'array' else list(vals)


@harness('C05', 'override', bounds='each of the 37 parameters overridden '
         'by a symbolic scalar, and by an array of length 2, alone and with '
         'speed before or after it; other parameters at a fixed rational point', tol=1e-6,
         shards=4, stubs='root finder as above')
def override(h):
    root = Root(h)
    k = h.choice('key', ORDER)
    mode = h.choice('mode', ['scalar', 'array', 'list', 'both', 'first'])
    p, lam = point(h, 0, ())
    m = build(h, p)
    root.cands = [lam]
    vals, exp = [], []
    for i in range(1 if mode == 'scalar' else 2):
        q = dict(p)
        if k in GEO:
            # a new tilt, with the overridden dimension closing the loop
            s = [Fraction(3, 5), Fraction(20, 29)][i]
            la = asin(h, s)
            sa, ca = h.sin(la), h.cos(la)
            if k == 'rr':
                q['rr'] = q['d2'] * ca + q['rf'] - (q['d1'] + q['d3']) * sa
            elif k == 'rf':
                q['rf'] = q['rr'] - q['d2'] * ca + (q['d1'] + q['d3']) * sa
            elif k == 'd2':
                q['d2'] = (q['rr'] - q['rf'] + (q['d1'] + q['d3']) * sa) / ca
            else:
                o = 'd3' if k == 'd1' else 'd1'
                q[k] = (q['d2'] * ca + q['rf'] - q['rr']) / sa - q[o]
            vals.append(q[k])
            root.cands.append(la)
            exp.append((q, la))
        else:
            lo, hi = RANGES[k]
            x = h.real('n%d' % i, lo, hi)
            q[k] = x
            vals.append(x)
            exp.append((q, lam))
    if mode == 'scalar':
        A, B = m.form_state_space_matrices(**{k: vals[0]})
        check(h, A, B, *exp[0])
    else:
        kw = {k: kwarg(h, vals, 'list' if mode == 'list' else 'array')}
        if mode in ('both', 'first') and k != 'v':
            kw['v'] = kwarg(h, [3.0, -1.5])
            if mode == 'first':
                kw = {'v': kw['v'], k: kw[k]}
            for (q, la), v in zip(exp, (3.0, -1.5)):
                q['v'] = h.const(v)
        A, B = m.form_state_space_matrices(**kw)
        h.true('leading dimension', A.shape == (2, 12, 12) and
               B.shape == (2, 12, 3))
        for i in range(2):
            check(h, A[i], B[i], *exp[i])
    for x in ORDER:
        h.eq('stored ' + x, m.parameter_set.parameters[x], p[x])


@harness('C05', 'long', bounds='speed, hinge stiffness, rider mass or a '
         'moment of inertia, alone or in pairs, as arrays of length 5; one '
         'rear wheel radius array of length 4', tol=1e-6,
         stubs='root finder as above')
def long(h):
    root = Root(h)
    keys = h.choice('keys', [('v',), ('k9',), ('mg', 'v'), ('v', 'ig11'),
                             ('rr',), ('rr', 'v')])
    p, lam = point(h, 0, ())
    m = build(h, p)
    root.cands = [lam]
    n = 4 if 'rr' in keys else 5
    vals, exp = {k: [] for k in keys}, []
    for i in range(n):
        q, la = dict(p), lam
        for k in keys:
            if k == 'rr':
                s = [Fraction(3, 5), Fraction(20, 29), Fraction(7, 25),
                     Fraction(5, 13)][i]
                la = asin(h, s)
                q['rr'] = q['d2'] * h.cos(la) + q['rf'] - \
                    (q['d1'] + q['d3']) * h.sin(la)
                root.cands.append(la)
            else:
                q[k] = h.real('%s%d' % (k, i), *RANGES[k])
            vals[k].append(q[k])
        exp.append((q, la))
    kind = h.choice('kind', ['array', 'list'])
    A, B = m.form_state_space_matrices(**{k: kwarg(h, vals[k], kind)
                                          for k in keys})
    h.true('leading dimension', A.shape == (n, 12, 12) and
           B.shape == (n, 12, 3))
    for i in range(n):
        check(h, A[i], B[i], *exp[i])
