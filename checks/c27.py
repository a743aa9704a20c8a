"""Figures of bicycle objects: geometry, eigenvalues, frequency responses."""
import itertools
from fractions import Fraction

from engine.harness import harness
from .c08 import Eig
from .c10 import Given, cnum, ysets
from .c13 import of, segment
from .c22 import object_with
from .c25 import dimensions, seat
from .common import BENCH, HOW, bench, pyplot, shapes, stub, uncertain


class Traced:
    """stand-in for a plotly figure: keeps the traces"""

    def __init__(self, *a, **k):
        self.traces, self.notes, self.regions, self.shown = [], [], [], 0

    def add_trace(self, t, *a, **k):
        self.traces.append(t)
        return self

    def add_traces(self, ts, *a, **k):
        self.traces += list(ts)
        return self

    def add_scatter(self, *a, **k):
        self.traces.append(dict(k))
        return self

    def add_annotation(self, *a, **k):
        self.notes.append(k)
        return self

    def add_vrect(self, x0, x1, **k):
        self.regions.append((x0, x1))
        return self

    def show(self, *a, **k):
        self.shown += 1

    def update_layout(self, *a, **k):
        return self
    update_xaxes = update_yaxes = update_traces = update_layout

    def named(self, name):
        return [t for t in self.traces if t.get('name') == name]


class Go:
    Figure = Traced

    @staticmethod
    def Scatter(*a, **k):
        return dict(k)


class Px:
    class colors:
        class qualitative:
            Pastel = ['c%d' % i for i in range(11)]


def plotly(h):
    m = h.mod('main')
    h.patch(m, 'go', Go)
    h.patch(m, 'px', Px)


def bike(h, p, unc=False):
    how = {False: 'none', True: 'all'}.get(unc, unc)
    return object_with(h, uncertain(h, {k: p[k] for k in p if k != 'v'},
                                    how))


def draw(h, b, how, **kw):
    """('mpl', axes) or ('plotly', figure)"""
    if how == 'plotly':
        plotly(h)
        return b._plot_bicycle_geometry_plotly(show=False, **kw)
    plt = pyplot(h, 'main', 'plot')
    fig = b.plot_bicycle_geometry(show=False, **kw)
    h.true('one axes', len(fig.axes) == 1 and fig in plt.figs)
    return fig.axes[0]


def earlier(h, b, how, **kw):
    """draw the figure while the bicycle has other parameters"""
    now = b.parameters['Benchmark']
    b.parameters['Benchmark'] = old = dict(now)
    for i, k in enumerate(sorted(now)):
        old[k] = h.const(0.0 if k in ('c', 'lam') else
                         (-1 if k[0] == 'z' else 1) * (0.5 + i / 100))
    draw(h, b, how, **kw)
    if h.choice('how changed', ['replaced', 'in place']) == 'in place':
        old.update(now)
    else:
        b.parameters['Benchmark'] = now


NOTHING = dict(pendulum=False, centerOfMass=False, inertiaEllipse=False)
# a bicycle whose frame lies between its wheels and whose front wheel is the
# larger one, so that the limits of the axes are the same in all cases
LOW = {'rR': (0.3, 0.35), 'rF': (0.36, 0.45), 'w': (0.9, 1.2)}


def sized(h, skip=()):
    p = {}
    for k, (lo, hi) in BENCH.items():
        lo, hi = LOW.get(k, (lo, hi))
        if k in skip:
            continue
        p[k] = h.const(0) if k in ('c', 'lam') else h.real(k, lo, hi)
    return p


def curves(h, how, out):
    """drawn polylines as (x, y)"""
    if how == 'mpl':
        return ysets(out)
    return [(list(t['x']), list(t['y'])) for t in out.traces]


@harness('C27', 'frame', bounds='any parameters of a bicycle; plain numbers '
         'or numbers with uncertainties; both drawing libraries; drawn first '
         'or after the parameters changed',
         stubs='matplotlib and plotly recorders')
def frame(h):
    how = h.choice('library', ['mpl', 'plotly'])
    unc = h.choice('uncertain', HOW)
    p = bench(h)
    b = bike(h, p, unc)
    if unc == 'none':
        earlier(h, b, how, **NOTHING)
    out = draw(h, b, how, **NOTHING)
    ls = curves(h, how, out)
    if how == 'mpl':
        cs = of(out, 'Circle')
        h.true('two wheels', len(cs) == 2 and len(shapes(out)) == 2)
        for d, x, r, n in zip(cs, (0, p['w']), (p['rR'], p['rF']),
                              ('rear', 'front')):
            h.eq(n + ' wheel center', list(d['xy']), [x, r])
            h.eq(n + ' wheel radius', d['radius'], r)
        h.true('equal scales', any('equal' in a for a, k in
                                   out.named('set_aspect')))
        ground, frame, steer = ls
    else:
        ground, rear, front, frame, steer = ls
        for (x, y), x0, r, n in zip((rear, front), (0, p['w']),
                                    (p['rR'], p['rF']), ('rear', 'front')):
            N = len(x)
            h.true('closed curve', N > 20)
            h.eq(n + ' closed', [x[-1], y[-1]], [x[0], y[0]])
            for i in range(0, N, 7):
                h.eq(n + ' wheel', (x[i] - x0)**2 + (y[i] - r)**2, r * r)
    h.eq('ground level', list(ground[1]), [0, 0])
    h.eq('ground from wheel to wheel', list(ground[0]),
         [-p['rR'], p['w'] + p['rF']])
    x, y = frame
    h.true('three links', len(x) == 4)
    s, c = h.sin(p['lam']), h.cos(p['lam'])
    h.eq('starts at the rear center', [x[0], y[0]], [0, p['rR']])
    h.eq('ends at the front center', [x[3], y[3]], [p['w'], p['rF']])
    for i, j, nm in ((0, 1, 'rear'), (3, 2, 'front')):
        h.eq(nm + ' offset perpendicular', (x[j] - x[i]) * s -
             (y[j] - y[i]) * c, 0)
        h.eq(nm + ' offset ends on the steer axis',
             (x[j] - p['w'] - p['c']) * c + y[j] * s, 0)
    # dashed line to the ground
    segment(h, 'steer axis', steer, (x[2], y[2]), (p['w'] + p['c'], 0))


@harness('C27', 'limits', bounds='any bicycle of ordinary proportions, '
         'without a rider', stubs='matplotlib recorder', feas_ms=200)
def limits(h):
    p = bench(h)
    b = bike(h, p)
    out = draw(h, b, 'mpl', **NOTHING)
    (lo, hi), = [a[0] if len(a) == 1 else a for a, k in
                 out.named('set_ylim')]
    h.le('ground shown', lo, 0)
    for n, y in (('rear wheel', 2 * p['rR']), ('front wheel', 2 * p['rF'])):
        h.le(n + ' shown', y, hi)
    for y in ysets(out)[1][1]:
        h.le('frame below the top', y, hi)
        h.le('frame above the bottom', lo, y)


ORDERS = list(itertools.permutations('xyz'))


class Principal:
    """eigen decomposition of a tensor known by construction; diagonal
    tensors of plain numbers are decomposed here"""

    def __init__(self, h, T, moments, axes, sign, order):
        self.h, self.T = h, T
        self.moments, self.axes, self.sign = moments, axes, sign
        self.order, self.seen = order, 0

    def __call__(self, a):
        h = self.h
        h.true('3x3 tensor', a.shape == (3, 3))
        mine = self.equal(a)
        if mine:
            self.seen += 1
            h.eq('tensor', a, self.T)
            vals = [self.moments[k] for k in self.order]
            vecs = [[self.sign * v for v in self.axes[k]]
                    for k in self.order]
        else:
            d = [h.np.real(a[i, i]) for i in range(3)]
            idx = sorted(range(3), key=lambda i: float(d[i]))
            vals = [d[i] for i in idx]
            vecs = [[h.const(int(i == j)) for j in range(3)] for i in idx]
        return h.arr(vals), h.arr([[vecs[j][i] for j in range(3)]
                                   for i in range(3)])

    def equal(self, a):
        d = [a[i, j] - self.T[i][j] for i in range(3) for j in range(3)]
        if self.h.symbolic:
            from engine import sym as S
            return not any(S.lift(x).n for x in d)
        return all(abs(x) < 1e-9 for x in d)


@harness('C27', 'ellipses', bounds='frame or front assembly of any principal '
         'moments and tilt, in any order of the three moments, eigenvectors '
         'of either sign; both drawing libraries; other bodies fixed',
         concolic=False, stubs='numpy.linalg.eig/eigh return the known '
         'decomposition; matplotlib and plotly recorders', shards=4)
def ellipses(h):
    how = h.choice('library', ['mpl', 'plotly'])
    body = h.choice('body', ['B', 'H'])
    order = h.choice('order', [o for o in ORDERS
                               if o.index('x') < o.index('z')])
    sign = h.choice('sign', [1, -1])
    p = sized(h, ['w', 'rR', 'rF', 'lam', 'c'])
    p.update({k: h.const(v) for k, v in (('w', 1), ('rR', 0.3), ('rF', 0.35),
                                         ('lam', 0.25), ('c', 0.07))})
    for k in p:
        if k[0] == 'I':
            p[k] = h.const({'xx': 1.5, 'yy': 2.5, 'zz': 0.75,
                            'xz': 0}[k[2:]])
    # moments in ascending order
    m0 = h.real('I1', 0.1, 3)
    m1 = m0 + h.real('d1', 0.1, 3)
    m2 = m1 + h.real('d2', 0.1, 3)
    mom = dict(zip(order, (m0, m1, m2)))
    th = h.angle('tilt', -1.5, 1.5)
    s, c = h.sin(th), h.cos(th)
    # first axis (smaller moment of the two) x cos - z sin, other one
    ax = {'x': [c, 0, -s], 'z': [s, 0, c], 'y': [0, 1, 0]}
    A, B = mom['x'], mom['z']
    T = [[A * c**2 + B * s**2, 0, (B - A) * s * c], [0, mom['y'], 0],
         [(B - A) * s * c, 0, A * s**2 + B * c**2]]
    p['I%sxx' % body], p['I%szz' % body] = T[0][0], T[2][2]
    p['I%syy' % body], p['I%sxz' % body] = T[1][1], T[0][2]
    e = Principal(h, T, mom, ax, sign, order)
    b = bike(h, p, h.choice('uncertain', ['none', 'some'])
             if how == 'mpl' else False)
    stub(h, 'numpy.linalg.eigh', e)
    stub(h, 'numpy.linalg.eig', e)
    kw = dict(NOTHING, inertiaEllipse=True)
    out = draw(h, b, how, **kw)
    h.true('decomposed', e.seen > 0)
    x0, y0 = p['x' + body], -p['z' + body]
    # semi axes: half of the larger moment over two along the axis of the
    # smaller one; the ratio is that of an ellipse of inertia
    ra, rb = B / 4, h.sqrt(A * B) / 4
    names = [k[1] for k in p if k[0] == 'm']
    at = names.index(body)
    if how == 'mpl':
        es = of(out, 'Ellipse')
        h.true('one per body', len(es) == 4)
        d = es[at]
        h.eq('center', list(d['xy']), [x0, y0])
        h.eq('long axis', d['width'], 2 * ra)
        h.eq('short axis', d['height'], 2 * rb)
        # up is positive in the drawing
        h.angle_eq('tilt', 2 * d['angle'] * h.pi / 180, 2 * th)
        for n, d in zip(names, es):
            ref = {'R': (0, p['rR']), 'F': (p['w'], p['rF'])}.get(
                n, (p.get('x' + n), -p.get('z' + n, 0)))
            h.eq('center of ' + n, list(d['xy']), list(ref))
        return
    t, = out.named('Inertia of ' + body)
    X, Y = list(t['x']), list(t['y'])
    N = len(X)
    h.true('curve', N > 20)
    h.eq('closed', [X[-1], Y[-1]], [X[0], Y[0]])
    for i in range(0, N, 9):
        dx, dy = X[i] - x0, Y[i] - y0
        u, v = dx * c + dy * s, -dx * s + dy * c
        h.eq('on the ellipse', u * u * rb**2 + v * v * ra**2,
             ra**2 * rb**2, tol=1e-6)


EXTRA = {'G': ('xG', 'zG', 'mG'), 'S': ('xS', 'zS', 'mS'), 'D': ('mD',)}


@harness('C27', 'mass_centers', bounds='any bicycle, with and without a '
         'flywheel or a fork measured in two parts; both drawing libraries',
         stubs='matplotlib and plotly recorders')
def mass_centers(h):
    how = h.choice('library', ['mpl', 'plotly'])
    more = h.choice('bodies', ['', 'D', 'GS'])
    p = sized(h)
    for part in more:
        p['m' + part] = h.real('m' + part, 0.1, 5)
        if part != 'D':
            p['x' + part] = h.real('x' + part, 0.4, 1)
            p['z' + part] = h.real('z' + part, -1, -0.3)
    b = bike(h, p)
    if more == 'D':
        earlier(h, b, how, **dict(NOTHING, centerOfMass=True))
    out = draw(h, b, how, **dict(NOTHING, centerOfMass=True))
    want = [('F', p['w'], p['rF']), ('R', 0, p['rR'])] + \
        [(n, p['x' + n], -p['z' + n]) for n in 'BH' + more if n != 'D']
    if how == 'mpl':
        cs, ws = of(out, 'Circle')[2:], of(out, 'Wedge')
        got = [(a[2], a[0], a[1]) for a, k in out.named('text')]
        h.true('one symbol per body', len(cs) == len(want))
        h.true('two wedges per body', len(ws) == 2 * len(want))
    else:
        got = [(k['text'], k['x'], k['y']) for k in out.notes]
        cs = [t for t in out.named('COM')]
    h.same('labels', sorted(g[0] for g in got), sorted(w[0] for w in want))
    # labels and symbols appear in the same order
    for (n, gx, gy), d in zip(got, cs):
        (_, x, y), = [w for w in want if w[0] == n]
        if how == 'mpl':
            h.eq('symbol of ' + n, list(d['xy']), [x, y])
            i = cs.index(d)
            for w in ws[2 * i:2 * i + 2]:
                h.eq('wedges of ' + n, list(w['center']), [x, y])
                h.eq('wedge size', w['r'], d['radius'])
        else:
            h.eq('symbol of ' + n, list(d['x']) + list(d['y']),
                 [x, x, y, y])
        h.le('label near ' + n, (gx - x)**2 + (gy - y)**2, 0.02)


@harness('C27', 'pendulums', bounds='any pendulum lines of two parts (up to '
         'five each), any mass centers, with and without uncertainties; both '
         'drawing libraries; with and without a rider on the bicycle',
         stubs='matplotlib and plotly recorders')
def pendulums(h):
    how = h.choice('library', ['mpl', 'plotly'])
    case = h.choice('case', ['lines', 'uncertain', 'rider', 'off', 'none'])
    p = sized(h)
    unc = case == 'uncertain'
    b = bike(h, p, unc)
    wrap = (lambda v: h.ufloat(v, h.const(0.001))) if unc else lambda v: v
    lines = {'B': [tuple(h.real('%sB%d' % (k, i), lo, hi) for k, lo, hi in
                         (('m', -3, 3), ('b', -2, 0), ('I', 0.1, 3)))
                   for i in range(5 if case == 'lines' else 2)],
             'H': [(h.real('mH_', -3, 3), h.real('bH', -2, 0),
                    h.real('IH', 0.1, 3))]}
    if case != 'none':
        b.extras = {n: {k: tuple(wrap(l[i]) for l in v)
                        for k, v in lines.items()}
                    for i, n in enumerate(('slopes', 'intercepts',
                                           'pendulumInertias'))}
    if case == 'rider':
        b.hasRider = True
    out = draw(h, b, how, **dict(NOTHING, pendulum=case != 'off'))
    ls = curves(h, how, out)
    drawn = ls[3:] if how == 'mpl' else ls[5:]
    if case in ('rider', 'off', 'none'):
        h.true('no pendulum lines', drawn == [])
        return
    want = [('B', i) for i in range(len(lines['B']))] + [('H', 0)]
    h.true('one per orientation', len(drawn) == len(want))
    for (n, i), (x, y) in zip(want, drawn):
        m, c, I = lines[n][i]
        for k in range(2):
            # line z = m x + b with z down
            h.eq('on the line', -y[k], m * x[k] + c)
        # foot of the perpendicular from the mass center is the middle
        xm, zm = (x[0] + x[1]) / 2, -(y[0] + y[1]) / 2
        h.eq('perpendicular', (xm - p['x' + n]) + m * (zm - p['z' + n]), 0)
        h.eq('length', (x[1] - x[0])**2 + (y[1] - y[0])**2, I * I)


POINTS = ('K2.end_pos', 'K2.pos', 'K1.pos', 'B1.pos', 'B2.pos', 'B2.end_pos',
          'C.end_pos')
LIMBS = [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (3, 6)]


class Limb:
    pass


@harness('C27', 'rider', bounds='any posture (positions of the joints), any '
         'bicycle dimensions', stubs='matplotlib recorder')
def rider(h):
    p = sized(h)
    b = bike(h, p)
    m = dimensions(h)
    h.assume(m['lcs']**2 > (p['rR'] - m['hbb'])**2)
    b.parameters['Measured'] = dict(m)
    b.hasRider = True
    human = Limb()
    pos = {}
    for k in POINTS:
        part, attr = k.split('.')
        v = pos[k] = [h.real(part + attr + c, *((-0.5, 0.5) if c != 'z' else
                      ((0.6, 0.8) if k == 'C.end_pos' else (-0.4, 0.4))))
                      for c in 'xyz']
        if not hasattr(human, part):
            setattr(human, part, Limb())
        setattr(getattr(human, part), attr, h.arr([[c] for c in v]))
    b.human = human
    out = draw(h, b, 'mpl', **NOTHING)
    x0, z0 = seat(h, m, p)
    at = {k: (x0 - v[1], -(z0 - v[2])) for k, v in pos.items()}
    drawn = ysets(out)[3:]
    h.true('six limbs', len(drawn) == 6)
    for (i, j), (x, y) in zip(LIMBS, drawn):
        h.eq('%s to %s' % (POINTS[i], POINTS[j]), [x[0], y[0], x[1], y[1]],
             list(at[POINTS[i]]) + list(at[POINTS[j]]))
    (lo, hi), = [a[0] if len(a) == 1 else a for a, k in
                 out.named('set_ylim')]
    h.le('head shown', at['C.end_pos'][1], hi)


def spectrum(h, n, crossing=False):
    """eigenvalues at n speeds in the order caster, capsize, weave, weave,
    each mode staying close to itself, or crossing each other at one of the
    speeds"""
    out = []
    at = h.choice('crossing', n) if crossing else None
    for i in range(n):
        if i == at:
            out.append(tuple(h.real(k + str(i), -30, 30) for k in 'dcab'))
            continue
        a, b = h.real('a%d' % i, -2, 2), h.real('b%d' % i, 2, 3)
        c, d = h.real('c%d' % i, 6, 8), h.real('d%d' % i, -9, -7)
        out.append((d, c, a, b))
    return out


def values(h, sp):
    return [(h.arr([cnum(h, d, 0), cnum(h, c, 0), cnum(h, a, b),
                    cnum(h, a, -b)]),
             h.arr([[cnum(h, int(r == k), 0) for k in range(4)]
                    for r in range(4)])) for d, c, a, b in sp]


class AtSpeed:
    """eig stand-in whose result depends on the matrix only, through the
    speed and the gravity it belongs to"""

    def __init__(self, h, speeds, sp, gs=None):
        self.h, self.speeds = h, speeds
        self.gs = gs or [h.const(Fraction(39, 4))]
        self.vals = [values(h, x) for x in (sp if gs else [sp])]
        h.patch(h.mod('bicycle'), 'benchmark_par_to_canonical',
                lambda par: (0, 0, 0, 0))
        h.patch(h.mod('bicycle'), 'ab_matrix', self.matrix)
        stub(h, 'numpy.linalg.eig', self)

    def matrix(self, M, C1, K0, K2, v, g, *a):
        return self.h.arr([[v, g]]), self.h.arr([[0]])

    def __call__(self, a):
        for j, g in enumerate(self.gs):
            for i, s in enumerate(self.speeds):
                if equal(self.h, a[0, 0], s) and equal(self.h, a[0, 1], g):
                    return self.vals[j][i]
        self.h.true('a given speed', False)

    def bikes(self):
        return [object_with(self.h, {'g': g}) for g in self.gs]


def equal(h, a, b):
    return not (a - b).n if h.symbolic else a == b


def ordered_speeds(h, n, order):
    """n speeds, ascending, and the order in which they are passed"""
    v = [h.real('v0', -10, 30)]
    for i in range(1, n):
        v.append(v[-1] + h.real('dv%d' % i, 0.01, 20))
    return v, [v[i] for i in order]


@harness('C27', 'eigenvalues', bounds='three speeds in any order, arbitrary '
         'eigenvalues of modes that stay apart; labelled, in one colour or '
         'the largest only; new and given figures',
         stubs='canonical matrices (C22) and eig: arbitrary result; '
         'matplotlib recorder', concolic=False, feas_ms=100)
def eigenvalues(h):
    order = h.choice('order', list(itertools.permutations(range(3))))
    mode = h.choice('mode', ['labelled', 'generic', 'largest'])
    given = h.choice('figure', [False, True])
    v, arg = ordered_speeds(h, 3, order)
    sp = spectrum(h, 3, mode == 'largest')
    b, = AtSpeed(h, v, sp).bikes()
    plt = pyplot(h, 'main', 'plot')
    kw = {}
    if given:
        kw['fig'], _ = plt.subplots()
    if mode != 'labelled':
        kw[mode] = True
        kw['color'] = 'pink'
    fig = b.plot_eigenvalues_vs_speed(h.arr(arg), **kw)
    if given:
        h.true('on the given figure', fig is kw['fig'])
    ax, = fig.axes
    ls = ax.lines()
    for x, y, k in ls:
        h.eq('ascending speeds', x, v)
    if mode == 'largest':
        top, zero = ls
        for i in range(3):
            largest_of(h, top[1][i], sp[i])
        h.eq('zero line', zero[1], [0] * 3)
        return
    zero, = [l for l in ls if l[2].get('label') == '_nolegend_' and
             len(l[1]) == 3 and not any(h_sym(q) for q in l[1])] if \
        mode == 'labelled' else [ls[4]]
    want = []
    rest = [l for l in ls if l is not zero]
    h.true('eight curves', len(rest) == 8)
    h.eq('zero line', zero[1], [0] * 3)
    im, re = rest[:4], rest[4:]
    for j, (pick_re, pick_im, nm) in enumerate((
            (lambda s: s[2], lambda s: s[3], 'Weave'),
            (lambda s: s[2], lambda s: s[3], 'Weave'),
            (lambda s: s[1], lambda s: 0, 'Capsize'),
            (lambda s: s[0], lambda s: 0, 'Caster'))):
        h.eq('real ' + nm, re[j][1], [pick_re(s) for s in sp])
        h.eq('imaginary ' + nm, im[j][1], [pick_im(s) for s in sp])
        if mode == 'labelled':
            h.true('label', re[j][2]['label'] == 'Real ' + nm and
                   im[j][2]['label'] == 'Imaginary ' + nm)
        else:
            h.true('colour', re[j][2]['color'] == 'pink' ==
                   im[j][2]['color'])


def largest_of(h, y, s):
    for r in s[:3]:
        h.le('largest real part', r, y)
    h.true('one of the real parts', any(bool(y == r) for r in s[:3]))


def h_sym(x):
    return not isinstance(x, (int, float)) and not getattr(
        x, 'is_const', lambda: True)()


@harness('C27', 'eigenvalue_traces', bounds='as above, for the interactive '
         'figure', stubs='as above; plotly recorder', concolic=False,
         feas_ms=100)
def eigenvalue_traces(h):
    order = h.choice('order', list(itertools.permutations(range(3))))
    largest = h.choice('largest', [False, True])
    given = h.choice('figure', [False, True])
    v, arg = ordered_speeds(h, 3, order)
    sp = spectrum(h, 3, largest)
    b, = AtSpeed(h, v, sp).bikes()
    plotly(h)
    kw = {'fig': Traced()} if given else {}
    fig = b._plot_eigenvalues_vs_speed_plotly(
        h.arr(arg), show=False, largest=largest, stability_region=False, **kw)
    h.true('not shown', fig.shown == 0)
    if given:
        h.true('on the given figure', fig is kw['fig'])
    for t in fig.traces:
        h.eq('ascending speeds', list(t['x']), v)
    if largest:
        t, = fig.traces
        h.true('one per speed', len(t['y']) == len(sp))
        for y, s in zip(t['y'], sp):
            largest_of(h, y, s)
        return
    h.true('eight curves', len(fig.traces) == 8)
    for nm, n, re, im in (('Weave', 2, 2, 3), ('Capsize', 1, 1, None),
                          ('Castering', 1, 0, None)):
        for part, k in (('Re ', re), ('Im ', im)):
            ts = fig.named(part + nm)
            h.true(part + nm, len(ts) == n)
            for t in ts:
                h.eq(part + nm, list(t['y']),
                     [0 if k is None else s[k] for s in sp])


@harness('C27', 'stability', bounds='three speeds; weave and one of capsize '
         'and caster of any stability at each, each of them stable over one '
         'stretch of the speeds or never; the other stable or not at all '
         'speeds', concolic=False,
         stubs='as above; plotly recorder', feas_ms=100, shards=8)
def stability(h):
    fixed = h.choice('fixed mode', ['caster', 'capsize'])
    good = h.choice('stable', [True, False])
    n = 3
    v, arg = ordered_speeds(h, n, (2, 0, 1))
    sp = []
    for i in range(n):
        a, c = h.real('a%d' % i, -0.9, 0.9), h.real('c%d' % i, -0.9, 0.9)
        b, d = h.real('b%d' % i, 2, 3), h.real('d%d' % i, 7, 9)
        far = -d if good else d
        sp.append((far, c, a, b) if fixed == 'caster' else (c, far, a, b))
    st = []
    for k in (0 if fixed == 'capsize' else 1, 2):
        st.append([bool(s[k] < 0) for s in sp])
        h.assume(not (st[-1][0] and st[-1][2] and not st[-1][1]))
    b, = AtSpeed(h, v, sp).bikes()
    plotly(h)
    fig = b._plot_eigenvalues_vs_speed_plotly(h.arr(arg), show=False)
    stable = [i for i in range(n) if good and st[0][i] and st[1][i]]
    if len(stable) > 1:
        h.true('one region', len(fig.regions) == 1 and not fig.notes)
        h.eq('stable region', list(fig.regions[0]),
             [v[stable[0]], v[stable[-1]]])
    else:
        h.true('no region', not fig.regions)
        h.true('told', [t['text'] for t in fig.notes] ==
               ['No stability region'])


@harness('C27', 'several', bounds='two bicycles at two speeds in either '
         'order, arbitrary eigenvalues of modes that stay apart; given or '
         'own colours; all or the largest', stubs='as above', concolic=False,
         feas_ms=100)
def several(h):
    swap = h.choice('swap', [False, True])
    largest = h.choice('largest', [False, True])
    own = h.choice('colours', [True, False])
    v, arg = ordered_speeds(h, 2, (1, 0) if swap else (0, 1))
    sps = []
    for j in range(2):
        sp = []
        for i in range(2):
            k = '%d%d' % (j, i)
            sp.append((h.real('d' + k, -9, -7), h.real('c' + k, 6, 8),
                       h.real('a' + k, -2, 2), h.real('b' + k, 2, 3)))
        sps.append(sp)
    bikes = AtSpeed(h, v, sps, [h.const(9), h.const(10)]).bikes()
    plt = pyplot(h, 'main', 'plot')
    cols = ['pink', 'gold']
    kw = {} if own else {'colors': cols, 'linestyles': ['-', ':']}
    fig = h.mod('plot').plot_eigenvalues(bikes, h.arr(arg), largest=largest,
                                         **kw)
    ax, = fig.axes
    ls = ax.lines()
    for x, y, k in ls:
        h.eq('ascending speeds', x, v)
    per = 2 if largest else 9
    h.true('all bicycles', len(ls) == 2 * per)
    for j, sp in enumerate(sps):
        mine = ls[j * per:(j + 1) * per]
        got = [l for l in mine if l[2].get('color') is not None]
        if not own:
            h.true('own colour', all(l[2]['color'] == cols[j] for l in got))
        want = [[s[1] for s in sp]] if largest else \
            [[s[3] for s in sp]] * 2 + [[0, 0]] * 2 + \
            [[s[2] for s in sp]] * 2 + [[s[1] for s in sp]] + \
            [[s[0] for s in sp]]
        h.true('curves', len(got) == len(want))
        for l, w in zip(got, want):
            h.eq('curve of bicycle %d' % j, l[1], w)


class Line:
    def __init__(self, y):
        self.y = y

    def get_ydata(self, *a):
        return self.y

    def set_ydata(self, y):
        self.y = y


class Bode:
    """stand-in for the frequency response plot; phases in degrees"""

    def __init__(self, h, phases=()):
        self.h, self.phases, self.calls = h, list(phases), []

    def __call__(self, system, w, fig=None, label=None, title=None,
                 color=None):
        k = len(self.calls)
        self.calls.append((system, w, fig, label, title))
        if k < len(self.phases):
            fig.axes[1].artists.append(Line(self.phases[k]))
        return 'mag', 'phase', fig


def matrices(h, v, g):
    A = [[(i + 1) * v + (j + 2) * g + i * j for j in range(4)]
         for i in range(4)]
    B = [[(i + 2) * g - (3 * j + 1) * v for j in range(2)] for i in range(4)]
    return A, B


def siso(h, call, v, g, u, y):
    system, w, fig, label, title = call
    h.true('state space', len(system) == 4)
    A, B = matrices(h, v, g)
    a, b, c, d = [h.arr(x) for x in system]
    h.eq('state matrix', a, A)
    h.eq('input', list(b.ravel()), [r[u] for r in B])
    h.eq('output', list(c.ravel()), [int(k == y) for k in range(4)])
    h.eq('no feed through', list(d.ravel()), [0])
    h.true('thousand frequencies', len(w) == 1000)
    for i, f in ((0, 1), (333, 10**(2 * 333 / 999)), (999, 100)):
        h.eq('frequency', float(w[i]), f)
    t = title.lower()
    h.true('title names the input', t.startswith(
        ('roll torque', 'steer torque')[u] + ' to '))
    h.true('title names the output', t.endswith(
        ('roll angle', 'steer angle', 'roll rate', 'steer rate')[y]))


def world_of_bode(h, phases=()):
    bode = Bode(h, phases)
    stub(h, 'dtk.control.bode', bode)
    m = h.mod('bicycle')
    h.patch(m, 'benchmark_par_to_canonical', lambda par: (0, 0, 0, 0))
    h.patch(m, 'ab_matrix', lambda M, C, K, L, v, g: tuple(
        h.arr(x) for x in matrices(h, v, g)))
    pyplot(h, 'main', 'plot')
    return bode


@harness('C27', 'bode', bounds='any speed and gravity (with or without '
         'uncertainty), each input and output', stubs='state matrices '
         'depend on speed and gravity (C22); frequency response recorder')
def bode(h):
    u, y = h.choice('input', 2), h.choice('output', 4)
    unc = h.choice('uncertain', [False, True])
    v, g = h.real('v', -10, 60), h.real('g', 0, 40)
    rec = world_of_bode(h)
    b = object_with(h, {'g': h.ufloat(g, h.const(0.01)) if unc else g})
    got = b.plot_bode(v, u, y)
    h.true('result', tuple(got)[:2] == ('mag', 'phase'))
    call, = rec.calls
    siso(h, call, v, g, u, y)


@harness('C27', 'compare', bounds='1-3 speeds of a bicycle or 1-3 '
         'bicycles at a speed; phases start anywhere within 900 degrees; new and '
         'given figures', stubs='as above')
def compare(h):
    what = h.choice('compare', ['speeds', 'bicycles'])
    given = h.choice('figure', [False, True])
    n = h.choice('curves', [2, 3, 1])
    first = h.choice('turning', list(range(n)))
    ph = [[h.real('f%d' % i, -900, 900) if i == first else h.const(-30 - i),
           h.real('s%d' % i, -900, 900)] for i in range(n)]
    rec = world_of_bode(h, [h.arr(x) for x in ph])
    gs = [h.real('g%d' % i, 1, 20) for i in range(n)]
    vs = [h.real('v%d' % i, 0, 60) for i in range(n)]
    bikes = [object_with(h, {'g': g}) for g in gs]
    kw = {}
    if given:
        kw['fig'], _ = h.mod('main').plt.subplots(2, 1)
    if what == 'speeds':
        fig = bikes[0].compare_bode_speeds(vs, 1, 2, **kw)
        pairs = [(v, gs[0]) for v in vs]
    else:
        fig = h.mod('plot').compare_bode_bicycles(bikes, vs[0], 1, 2, **kw)
        pairs = [(vs[0], g) for g in gs]
    if given:
        h.true('on the given figure', fig is kw['fig'])
    h.true('as many curves', len(rec.calls) == n ==
           len(fig.axes[1].artists))
    for call, (v, g) in zip(rec.calls, pairs):
        siso(h, call, v, g, 1, 2)
        h.true('same figure', call[2] is fig)
        if what == 'speeds':
            h.eq('label', h.parse(call[3].split()[0]), v, tol=1e-6)
    for line, p in zip(fig.axes[1].artists, ph):
        y = list(line.get_ydata())
        d = [y[i] - p[i] for i in range(2)]
        h.eq('whole curve', d[1], d[0])
        h.true('whole turns', any(bool(d[0] == 360 * k)
                                  for k in range(-3, 4)))
        h.le('starts below half a turn', y[0], 180)
        h.le('starts above minus half a turn', -180, y[0])
