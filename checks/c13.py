"""Drawings of parameter sets show their geometry and inertia."""
from engine.harness import harness
from .common import (bench, met, princ, center, pyplot, shapes, stub,
                     principal_tensor)
from .c10 import ysets

KIND = {'benchmark': 'BFHR', 'principal': 'DFHPR'}


def make(h, which, p):
    PS = h.mod('parameter_sets')
    return met(h, 'set', lambda: PS.Moore2019ParameterSet(dict(p))
               if which == 'principal' else
               PS.Meijaard2007ParameterSet(dict(p), True), p)


def earlier(h, ps, draw):
    """draw the figure while the set has other parameters, which are then
    changed in place or replaced"""
    now = ps.parameters
    ps.parameters = old = dict(now)
    for i, k in enumerate(sorted(now)):
        v = 1 + i / 100
        if k == 'lam' or k.startswith('alpha'):
            v = 0.2
        elif k[0] == 'I':
            v = 0.1 if k.endswith('xz') else 1.0
        elif k[0] == 'k':
            v = 0.5
        elif k[0] == 'z':
            v = -v
        old[k] = h.const(v)
    draw()
    if h.choice('changed', ['replaced', 'in place']) == 'in place':
        old.update(now)
    else:
        ps.parameters = now


def of(ax, kind):
    return [d for k, d in shapes(ax) if k == kind]


def final(h, ax):
    h.true('z axis points down', bool(ax.yaxis_inverted()))
    h.true('equal scales', any('equal' in a or k.get('aspect') == 'equal'
                               for a, k in ax.named('set_aspect')))


def axes(h, own):
    return h.ax() if own else None


def segment(h, nm, seg, a, b):
    """a drawn line joins a and b, in either direction: the sums and the
    products of the coordinates agree"""
    (x, y) = seg
    h.true(nm + ' two ends', len(x) == 2)
    h.eq(nm + ' middle', [x[0] + x[1], y[0] + y[1]],
         [a[0] + b[0], a[1] + b[1]])
    dx, dy, ex, ey = x[1] - x[0], y[1] - y[0], b[0] - a[0], b[1] - a[1]
    h.eq(nm + ' xx', dx * dx, ex * ex)
    h.eq(nm + ' yy', dy * dy, ey * ey)
    h.eq(nm + ' xy', dx * dy, ex * ey)


@harness('C13', 'geometry', bounds='both parameterizations, all parameters '
         'symbolic, with and without the steer axis, own axes; drawn first or '
         'after the parameters were changed',
         stubs='matplotlib recorder')
def geometry(h):
    which = h.choice('set', sorted(KIND))
    steer = h.choice('steer', [True, False])
    own = h.choice('own axes', [True, False])
    p = princ(h) if which == 'principal' else bench(h)
    pyplot(h, 'parameter_sets')
    ps = make(h, which, p)
    if h.choice('drawn before', [False, True]):
        earlier(h, ps, lambda: ps.plot_geometry(show_steer_axis=steer,
                                                ax=axes(h, own)))
    a = axes(h, own)
    ax = ps.plot_geometry(show_steer_axis=steer, ax=a)
    if own:
        h.true('on the given axes', ax is a)
    final(h, ax)
    (ground,), = [x for x, k in ax.named('axhline')]
    h.eq('ground', ground, 0)
    cs = of(ax, 'Circle')
    h.true('two wheels', len(cs) == 2)
    for d, x, r in zip(cs, (0, p['w']), (p['rR'], p['rF'])):
        h.eq('wheel center', list(d['xy']), [x, -r])
        h.eq('wheel radius', d['radius'], r)
    ls = ysets(ax)
    h.true('lines', len(ls) == (2 if steer else 1))
    x, z = ls[0]
    h.true('three links', len(x) == 4)
    s, c = h.sin(p['lam']), h.cos(p['lam'])
    h.eq('starts at the rear center', [x[0], z[0]], [0, -p['rR']])
    h.eq('ends at the front center', [x[3], z[3]], [p['w'], -p['rF']])
    for i, j, nm in ((0, 1, 'rear'), (3, 2, 'front')):
        # perpendicular to the steer axis, whose direction is (s, c), and
        # ending on it: it passes (w + c, 0)
        h.eq(nm + ' offset perpendicular', (x[j] - x[i]) * s +
             (z[j] - z[i]) * c, 0)
        h.eq(nm + ' offset ends on the steer axis',
             (x[j] - p['w'] - p['c']) * c - z[j] * s, 0)
    if steer:
        segment(h, 'steer axis', ls[1], (x[2], z[2]), (p['w'] + p['c'], 0))


@harness('C13', 'mass_centers', bounds='both parameterizations, each body, '
         'all bodies, a subset; all parameters symbolic',
         stubs='matplotlib recorder')
def mass_centers(h):
    which = h.choice('set', sorted(KIND))
    how = h.choice('bodies', ['one', 'all', 'some'])
    p = princ(h) if which == 'principal' else bench(h)
    pyplot(h, 'parameter_sets')
    ps = make(h, which, p)
    bodies = KIND[which]
    again = h.choice('drawn before', [False, True])
    if how == 'one':
        bodies = h.choice('body', list(bodies))
        if again:
            earlier(h, ps, lambda: ps.plot_body_mass_center(bodies))
        ax = ps.plot_body_mass_center(bodies)
    elif how == 'all':
        if again:
            earlier(h, ps, ps.plot_mass_centers)
        ax = ps.plot_mass_centers()
    else:
        bodies = bodies[2] + bodies[0]
        if again:
            earlier(h, ps, lambda: ps.plot_mass_centers(bodies=list(bodies),
                                                        ax=h.ax()))
        a = h.ax()
        ax = ps.plot_mass_centers(bodies=list(bodies), ax=a)
        h.true('on the given axes', ax is a)
    final(h, ax)
    cs, ws, ts = of(ax, 'Circle'), of(ax, 'Wedge'), ax.named('text')
    h.true('one symbol per body', len(cs) == len(bodies))
    h.true('two wedges per body', len(ws) == 2 * len(bodies))
    h.true('labels', [a[2] for a, k in ts] == list(bodies))
    for i, b in enumerate(bodies):
        x, _, z = center(p, b)
        h.eq('symbol of ' + b, list(cs[i]['xy']), [x, z])
        for w in ws[2 * i:2 * i + 2]:
            h.eq('wedges of ' + b, list(w['center']), [x, z])
            h.eq('wedge size', w['r'], cs[i]['radius'])


class SymEig:
    """eigen decomposition of a tensor with known principal moments A >= B
    of axes (c, -s) and (s, c); result in either order and sign"""

    def __init__(self, h, A, B, s, c, flip, neg):
        self.h, self.A, self.B, self.s, self.c = h, A, B, s, c
        self.flip, self.neg = flip, neg

    def __call__(self, a):
        h, A, B, s, c = self.h, self.A, self.B, self.s, self.c
        h.true('planar tensor', a.shape == (2, 2))
        h.eq('planar tensor', a, [[A * c**2 + B * s**2, (B - A) * s * c],
                                  [(B - A) * s * c, A * s**2 + B * c**2]])
        k = -1 if self.neg else 1
        va, vb = (k * c, -k * s), (s, c)
        if self.flip:
            return (h.arr([B, A]), h.arr([[vb[0], va[0]], [vb[1], va[1]]]))
        return (h.arr([A, B]), h.arr([[va[0], vb[0]], [va[1], vb[1]]]))


def inertia_inputs(h):
    """a parameter set with a body of known principal properties:
    (set, parameters, body, kaa, kbb, kyy, sin, cos)"""
    which = h.choice('set', sorted(KIND))
    body = h.choice('body', list(KIND[which]))
    if which == 'principal':
        p = princ(h)
        q = dict(p, alphaF=h.const(0), alphaR=h.const(0))
        for b in 'FR':
            q['k%sbb' % b] = p['k%saa' % b]
        a = q['alpha' + body]
        return (make(h, which, p), p, body, q['k%saa' % body],
                q['k%sbb' % body], q['k%syy' % body], h.sin(a), h.cos(a), a)
    p = bench(h)
    m = p['m' + body]
    # equal moments of a wheel: any basis will do, the natural one is used
    flip = h.choice('order', [False, True]) if body not in 'FR' else False
    neg = h.choice('sign', [False, True])
    B = h.real('Imin', 0.1, 3)
    if body in 'FR':
        A, a = B, h.const(0)
        p['I%sxx' % body] = B
    else:
        A = B + h.real('dI', 0.1, 3)
        a = h.angle('tilt', -1.5, 1.5)
        s, c = h.sin(a), h.cos(a)
        p['I%sxx' % body] = A * c**2 + B * s**2
        p['I%szz' % body] = A * s**2 + B * c**2
        p['I%sxz' % body] = (B - A) * s * c
    s, c = h.sin(a), h.cos(a)
    e = SymEig(h, A, B, s, c, flip, neg)
    stub(h, 'numpy.linalg.eig', e)
    stub(h, 'numpy.linalg.eigh',
         lambda x: SymEig(h, A, B, s, c, True, neg)(x))
    return (make(h, which, p), p, body, h.sqrt(A / m), h.sqrt(B / m),
            h.sqrt(p['I%syy' % body] / m), s, c, a)


@harness('C13', 'radii', bounds='each body of both parameterizations; '
         'principal properties symbolic', concolic=False,
         stubs='eig returns the known decomposition in either order and '
         'sign; matplotlib recorder')
def radii(h):
    pyplot(h, 'parameter_sets')
    ps, p, body, kaa, kbb, kyy, s, c, a = inertia_inputs(h)
    if 'alphaP' in p and h.choice('drawn before', [False, True]):
        earlier(h, ps, lambda:
                ps.plot_body_principal_radii_of_gyration(body))
    ax = ps.plot_body_principal_radii_of_gyration(body)
    final(h, ax)
    x, _, z = center(p, body)
    d, = of(ax, 'Circle')
    h.eq('circle center', list(d['xy']), [x, z])
    h.eq('circle radius', d['radius'], kyy)
    ls = ysets(ax)
    h.true('two lines', len(ls) == 2)
    if body in 'FR':
        # all directions are principal: any perpendicular pair of diameters
        dirs = []
        for (u, v) in ls:
            h.eq('middle', [u[0] + u[1], v[0] + v[1]], [2 * x, 2 * z])
            d = (u[1] - u[0], v[1] - v[0])
            h.eq('length', d[0]**2 + d[1]**2, 4 * kaa**2)
            dirs.append(d)
        h.eq('perpendicular', dirs[0][0] * dirs[1][0] +
             dirs[0][1] * dirs[1][1], 0)
        return
    # mass spread along the first axis shows as the radius about the second
    segment(h, 'along the first axis', ls[0], (x - kbb * c, z + kbb * s),
            (x + kbb * c, z - kbb * s))
    segment(h, 'along the second axis', ls[1], (x - kaa * s, z - kaa * c),
            (x + kaa * s, z + kaa * c))


@harness('C13', 'planar', bounds='each body of the benchmark '
         'parameterization; principal properties symbolic', concolic=False,
         stubs='eig as above')
def planar(h):
    ps, p, body, kaa, kbb, kyy, s, c, a = inertia_inputs(h)
    if not hasattr(ps, '_planar_principal_radii_of_gyration'):
        h.true('principal parameterization', True)
        return
    kmax, kmin, ky, al = ps._planar_principal_radii_of_gyration(body)
    h.eq('kmax', kmax, kaa)
    h.eq('kmin', kmin, kbb)
    h.eq('kyy', ky, kyy)
    if body not in 'FR':
        h.angle_eq('tilt', 2 * al, 2 * a)


@harness('C13', 'ellipse', bounds='each body of both parameterizations; '
         'principal properties symbolic', concolic=False,
         stubs='eig as above; matplotlib recorder')
def ellipse(h):
    pyplot(h, 'parameter_sets')
    ps, p, body, kaa, kbb, kyy, s, c, a = inertia_inputs(h)
    # a solid ellipsoid exists
    h.assume(kyy**2 + kbb**2 > kaa**2)
    h.assume(kyy**2 + kaa**2 > kbb**2)
    if 'alphaP' in p and h.choice('drawn before', [False, True]):
        earlier(h, ps, lambda:
                ps.plot_body_principal_inertia_ellipsoid(body))
    ax = ps.plot_body_principal_inertia_ellipsoid(body)
    final(h, ax)
    x, _, z = center(p, body)
    d, = of(ax, 'Ellipse')
    h.eq('center', list(d['xy']), [x, z])
    # uniform solid ellipsoid with semi-axes r1, r3 in the plane and r2:
    # k1^2 = (r2^2 + r3^2) / 5 and so on
    r1, r3 = d['width'] / 2, d['height'] / 2
    r2 = 5 * kaa**2 - r3**2
    h.eq('about its second axis', (r1**2 + r3**2) / 5, kyy**2)
    h.eq('about its third axis', (r1**2 + r2) / 5, kbb**2)
    h.true('positive axes', bool(r1 > 0) and bool(r3 > 0))
    if body not in 'FR':
        h.angle_eq('tilt', 2 * d['angle'] * h.pi / 180, -2 * a)


@harness('C13', 'groups', bounds='all bodies and subsets; both '
         'parameterizations', concolic=False,
         stubs='eig: identity order with arbitrary moments; matplotlib '
         'recorder')
def groups(h):
    which = h.choice('set', sorted(KIND))
    what = h.choice('figure', ['radii', 'ellipsoids', 'all'])
    some = h.choice('some', [True, False]) if what != 'all' else False
    p = princ(h) if which == 'principal' else bench(h)
    pyplot(h, 'parameter_sets')
    ps = make(h, which, p)
    one = h.const(1)
    for n in ('eig', 'eigh'):
        stub(h, 'numpy.linalg.' + n, lambda a: (
            h.arr([h.const(0.5), one]), h.arr([[one, 0 * one],
                                               [0 * one, one]])))
    for b in KIND[which]:
        # ellipsoids exist
        if which == 'principal':
            kb = 'aa' if b in 'FR' else 'bb'
            yy, bb, aa = p['k%syy' % b], p['k%s%s' % (b, kb)], p['k%saa' % b]
            h.assume(yy**2 + bb**2 > aa**2)
            h.assume(yy**2 + aa**2 > bb**2)
        else:
            h.assume(p['I%syy' % b] > 0.5)
    bodies = KIND[which]
    kw = {}
    if some:
        bodies = bodies[3] + bodies[1]
        kw['bodies'] = list(bodies)
    draw = {'radii': ps.plot_principal_radii_of_gyration,
            'ellipsoids': ps.plot_principal_inertia_ellipsoids,
            'all': ps.plot_all}[what]
    if h.choice('drawn before', [False, True]):
        earlier(h, ps, lambda: draw(**kw))
    ax = draw(**kw)
    final(h, ax)
    at = [[center(p, b)[0], center(p, b)[2]] for b in bodies]
    if what in ('radii', 'all'):
        cs = of(ax, 'Circle')
        h.true('circles', len(cs) == len(bodies) *
               (2 if what == 'all' else 1) + (2 if what == 'all' else 0))
        for d, c in zip(cs, at):
            h.eq('circle', list(d['xy']), c)
    if what in ('ellipsoids', 'all'):
        es = of(ax, 'Ellipse')
        h.true('ellipses', len(es) == len(bodies))
        for d, c in zip(es, at):
            h.eq('ellipse', list(d['xy']), c)
    if what == 'all':
        h.true('mass centers', len(of(ax, 'Wedge')) == 2 * len(bodies))
        h.true('ground', len(ax.named('axhline')) == 1)


@harness('C13', 'person', bounds='all principal parameters symbolic, with '
         'and without the cross', stubs='matplotlib recorder')
def person(h):
    cross = h.choice('cross', [True, False])
    p = princ(h)
    pyplot(h, 'parameter_sets')
    ps = make(h, 'principal', p)
    if h.choice('drawn before', [False, True]):
        earlier(h, ps, lambda: ps.plot_person_diamond(show_cross=cross))
    ax = ps.plot_person_diamond(show_cross=cross)
    final(h, ax)
    s, c = h.sin(p['alphaP']), h.cos(p['alphaP'])
    x, z, w, l = p['xP'], p['zP'], p['wP'] / 2, p['lP'] / 2
    ls = ysets(ax)
    h.true('lines', len(ls) == (3 if cross else 1))
    # width along the first principal axis (c, -s), length along (s, c)
    X, Z = ls[0]
    h.true('closed', len(X) == 5)
    h.eq('closed', [X[4], Z[4]], [X[0], Z[0]])
    segment(h, 'width', ([X[0], X[2]], [Z[0], Z[2]]),
            (x - w * c, z + w * s), (x + w * c, z - w * s))
    segment(h, 'length', ([X[1], X[3]], [Z[1], Z[3]]),
            (x - l * s, z - l * c), (x + l * s, z + l * c))
    if cross:
        segment(h, 'cross width', ls[1], (x - w * c, z + w * s),
                (x + w * c, z - w * s))
        segment(h, 'cross length', ls[2], (x - l * s, z - l * c),
                (x + l * s, z + l * c))
