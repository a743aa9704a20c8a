"""Geometric helpers: distances, projections, angles, frame drawing data."""
from engine.harness import harness
from .common import bench


@harness('C26', 'steer_axis_distance', bounds='any geometry and any point of '
         'the symmetry plane; numbers or numbers with uncertainty')
def steer_axis_distance(h):
    g = {k: h.real(k, lo, hi) for k, lo, hi in (
        ('w', 0.5, 2), ('c', -0.2, 0.4))}
    lam = h.angle('lam', -0.6, 1.2)
    unc = h.choice('uncertain', [False, True])
    u = (lambda x: h.ufloat(x, h.const(0.01))) if unc else (lambda x: x)
    x, z = h.real('x', -1, 3), h.real('z', -2, 0.5)
    s, c = h.sin(lam), h.cos(lam)
    # signed distance ahead of the axis through (w + c, 0) along (s, c)
    d = (x - g['w'] - g['c']) * c - z * s
    h.assume(d * d > h.const(1e-4))
    side = h.choice('side', ['ahead', 'behind'])
    h.assume(d > 0 if side == 'ahead' else d < 0)
    got = h.mod('geometry').distance_to_steer_axis(
        u(g['w']), u(g['c']), u(lam), h.arr([u(x), 0.0, u(z)]))
    h.eq('distance', h.num(got), d if side == 'ahead' else -d, tol=1e-7)


@harness('C26', 'line_distance', bounds='any line and point in space')
def line_distance(h):
    p = [h.real('p' + k, -2, 2) for k in 'xyz']
    a = [h.real('a' + k, -2, 2) for k in 'xyz']
    t = [h.real('t' + k, -2, 2) for k in 'xyz']
    h.assume(sum(x * x for x in t) > h.const(0.1))
    b = [x + y for x, y in zip(a, t)]
    got = h.num(h.mod('geometry').point_to_line_distance(
        h.arr(p), h.arr([[x, y] for x, y in zip(a, b)])))
    # closest point of the line
    r = [x - y for x, y in zip(p, a)]
    tt = sum(x * x for x in t)
    k = sum(x * y for x, y in zip(r, t)) / tt
    n = [x - k * y for x, y in zip(r, t)]
    h.eq('square of the distance', got * got, sum(x * x for x in n),
         tol=1e-7)
    h.true('not negative', got >= 0)


@harness('C26', 'line_projection', bounds='any sloped line and point')
def line_projection(h):
    m, b = h.real('m', -5, 5), h.real('b', -3, 3)
    c, d = h.real('c', -3, 3), h.real('d', -3, 3)
    x, y = h.mod('geometry').project_point_on_line((m, b), (c, d))
    h.eq('on the line', y, m * x + b)
    h.eq('foot of the perpendicular', (x - c) + m * (y - d), 0)


@harness('C26', 'vector_angle', bounds='any two vectors in space')
def vector_angle(h):
    v = [h.real('v' + k, -2, 2) for k in 'xyz']
    w = [h.real('w' + k, -2, 2) for k in 'xyz']
    for q in (v, w):
        h.assume(sum(x * x for x in q) > h.const(0.1))
    dot = sum(x * y for x, y in zip(v, w))
    # Cauchy-Schwarz, told to the solver
    h.assume(dot * dot <= sum(x * x for x in v) *
             sum(x * x for x in w))
    col = lambda q: h.arr([[x] for x in q])
    f = h.mod('geometry').vec_angle
    got = f(col(v), col(w))
    nv, nw = [h.sqrt(sum(x * x for x in q)) for q in (v, w)]
    h.eq('cosine', h.cos(got) * nv * nw, sum(x * y for x, y in zip(v, w)),
         tol=1e-6)
    h.true('interior', h.sin(got) >= h.const(-1e-9))
    h.eq('scale of the vectors', h.cos(f(col([2 * x for x in v]), col(w))),
         h.cos(got), tol=1e-6)


@harness('C26', 'vector_projection', bounds='any vector; each coordinate '
         'direction, or any direction of any length')
def vector_projection(h):
    v = [h.real('v' + k, -2, 2) for k in 'xyz']
    how = h.choice('direction', [0, 1, 2, 'array'])
    if how == 'array':
        n = [h.real('n' + k, -2, 2) for k in 'xyz']
        h.assume(sum(x * x for x in n) > h.const(0.1))
        arg = h.arr(n)
    else:
        n = [1 if k == how else 0 for k in range(3)]
        arg = how
    src = h.arr([[x] for x in v])
    got = h.mod('geometry').vec_project(src, arg)
    h.same('shape', tuple(got.shape), (3, 1))
    k = sum(x * y for x, y in zip(v, n)) / sum(x * x for x in n)
    h.eq('component along the normal removed', got,
         [[x - k * y] for x, y in zip(v, n)], tol=1e-7)
    h.eq('vector kept', src, [[x] for x in v])


@harness('C26', 'two_links', bounds='any two links reaching the distance, '
         'acute or obtuse far angles')
def two_links(h):
    L1, L2, D = [h.real(k, 0.1, 2) for k in ('L1', 'L2', 'D')]
    gap = h.const(0.02)
    h.assume(L1 + L2 > D + gap)
    h.assume(D + L1 > L2 + gap)
    h.assume(D + L2 > L1 + gap)
    t1, t2 = h.mod('geometry').calc_two_link_angles(L1, L2, D)
    # the second link is turned back by theta2 from the first
    far = t2 - t1
    h.eq('end on the axis', L1 * h.sin(t1) - L2 * h.sin(far), 0, tol=1e-6)
    h.eq('end at the distance', L1 * h.cos(t1) + L2 * h.cos(far), D,
         tol=1e-6)
    h.true('first angle positive', h.sin(t1) >= h.const(-1e-9))
    h.true('far angle positive', h.sin(far) >= h.const(-1e-9))


@harness('C26', 'frame_lines', bounds='any bicycle geometry')
def frame_lines(h):
    p = {'w': h.real('w', 0.5, 2), 'c': h.real('c', -0.2, 0.4),
         'rR': h.real('rR', 0.1, 0.6), 'rF': h.real('rF', 0.1, 0.6),
         'lam': h.angle('lam', -0.6, 1.2)}
    x, z = h.mod('geometry').fundamental_geometry_plot_data(dict(p))
    s, c = h.sin(p['lam']), h.cos(p['lam'])
    h.same('points', [len(x), len(z)], [4, 4])
    h.eq('rear wheel center', [x[0], z[0]], [0, -p['rR']])
    h.eq('front wheel center', [x[3], z[3]], [p['w'], -p['rF']])
    for i, j, nm in ((1, 0, 'rear'), (2, 3, 'front')):
        # steer axis: through (w + c, 0), direction (s, c), z down
        h.eq(nm + ' point on the steer axis',
             (x[i] - p['w'] - p['c']) * c - z[i] * s, 0)
        h.eq(nm + ' line perpendicular to the steer axis',
             (x[i] - x[j]) * s + (z[i] - z[j]) * c, 0)
