"""Bicycle geometry recovered from physical measurements."""
from engine.harness import harness
from engine import shims
from .common import stub


def bike(h):
    """a true geometry and its steer axis offsets"""
    g = {'rR': h.real('rR', 0.1, 0.9), 'rF': h.real('rF', 0.1, 0.9),
         'w': h.real('w', 0.5, 3), 'c': h.real('c', -0.4, 0.9),
         'lam': h.angle('lam', -0.4, 1.2)}
    s, c = h.sin(g['lam']), h.cos(g['lam'])
    # foot points of the perpendiculars from the wheel centres on the steer
    # axis through (w + c, 0) with direction (s, c), z down
    a = (g['w'] + g['c']) * c - g['rR'] * s
    b = g['rF'] * s - g['c'] * c
    along = (g['w'] * s + (g['rR'] - g['rF']) * c)
    return g, a, b, along


class Newton:
    """root finder: the true value, after checking it is a root"""

    def __init__(self, h, root):
        self.h, self.root = h, root
        self.calls = 0

    def __call__(self, f, x0, *a, **k):
        h = self.h
        args = k.get('args', a[1] if len(a) > 1 else ())
        self.calls += 1
        h.eq('equation solved for the steer axis tilt',
             h.num(f(self.root, *args)), 0, tol=1e-9)
        return self.root


def measured(h, g, split_offsets, unc):
    u = (lambda x: h.ufloat(x, h.const(0.001))) if unc else (lambda x: x)
    mp = {'nF': u(h.pos('nF', 1, 20)), 'nR': u(h.pos('nR', 1, 20))}
    mp['dF'] = u(2 * h.pi * g['rF'] * h.num(mp['nF']))
    mp['dR'] = u(2 * h.pi * g['rR'] * h.num(mp['nR']))
    return mp, u


def compare(h, par, g):
    for k in ('rF', 'rR', 'w', 'lam', 'c'):
        h.eq(k, h.num(par[k]), g[k], tol=1e-6)


@harness('C14', 'wheelbase_option', bounds='any geometry (5 parameters), '
         'numbers or numbers with uncertainty; optional lateral force point')
def wheelbase_option(h):
    g, a, b, along = bike(h)
    unc = h.choice('uncertain', [True, False])
    lateral = h.choice('lateral force point', [True, False])
    mp, u = measured(h, g, False, unc)
    mp['w'] = u(g['w'])
    mp['gamma'] = u(90 - g['lam'] * 180 / h.pi)
    mp['f'] = u(b)
    if lateral:
        mp['xcl'], mp['zcl'] = h.real('xcl', -2, 2), h.real('zcl', -2, 2)
    before = dict(mp)
    par0 = {'other': 1.0}
    par = h.mod('geometry').calculate_benchmark_geometry(mp, par0)
    compare(h, par, g)
    h.true('other entries kept', par['other'] == 1.0)
    h.true('lateral point present', ('xcl' in par) == lateral and
           ('zcl' in par) == lateral)
    if lateral:
        h.eq('lateral point', [par['xcl'], par['zcl']],
             [mp['xcl'], mp['zcl']])
    h.true('measurements kept', set(mp) == set(before))


@harness('C14', 'offset_option', bounds='any geometry (5 parameters) with '
         'axle and tube diameters and gage heights symbolic; numbers or '
         'numbers with uncertainty',
         stubs='newton returns the true tilt after its equation was checked '
         'to hold there', concolic=False)
def offset_option(h):
    g, a, b, along = bike(h)
    unc = h.choice('uncertain', [True, False])
    h.assume(along > h.const(0.1))
    h.assume(a > h.const(0.1))
    h.assume(a + b > h.const(0.2))
    mp, u = measured(h, g, True, unc)
    d1, d2, d3, d4 = [h.real('d%d' % i, 0.005, 0.05) for i in range(1, 5)]
    h2, h3, h5 = h.real('h2', 0, 0.3), h.real('h3', 0.1, 0.5), \
        h.real('h5', 0.1, 0.5)
    # centres: axle top minus half the diameter
    h1 = a + (h3 - d1 / 2) + d2 / 2 - h2
    h4 = b + (h5 - d4 / 2) + d3 / 2
    # with the fork reversed the axle centres are this far apart; written
    # as the inside distance plus the axle radii
    dist = h.sqrt(along**2 + (a - b)**2)
    for k, v in (('h1', h1), ('h2', h2), ('h3', h3), ('h4', h4), ('h5', h5),
                 ('d1', d1), ('d2', d2), ('d3', d3), ('d4', d4),
                 ('d', dist - (d2 + d3) / 2)):
        mp[k] = u(v)
    n = Newton(h, g['lam'])
    stub(h, 'scipy.optimize.newton', n)
    par = h.mod('geometry').calculate_benchmark_geometry(mp, {})
    compare(h, par, g)


@harness('C14', 'offsets', bounds='any measured heights and diameters')
def offsets(h):
    G = h.mod('geometry')
    v = {k: h.real(k, 0.01, 1) for k in ('h1', 'h2', 'h3', 'h4', 'h5', 'd1',
                                         'd2', 'd3', 'd4')}
    a = v['h1'] + v['h2'] - v['d2'] / 2 - (v['h3'] - v['d1'] / 2)
    b = v['h4'] - v['d3'] / 2 - (v['h5'] - v['d4'] / 2)
    d = h.real('d', 0.5, 2)
    D = d + (v['d2'] + v['d3']) / 2
    h.assume(D * D > (a - b)**2)
    got = G.calculate_abc_geometry(
        tuple(v['h%d' % i] for i in range(1, 6)),
        tuple(v['d%d' % i] for i in range(1, 5)) + (d,))
    h.eq('rear offset', got[0], a)
    h.eq('fork offset', got[1], b)
    h.eq('distance along the axis', got[2]**2, D * D - (a - b)**2)
    h.le('distance is not negative', 0, got[2])


@harness('C14', 'handlebar', bounds='any position of the handlebar '
         'reference relative to the front wheel center, any diameters and '
         'steer axis tilt')
def handlebar(h):
    G = h.mod('geometry')
    # true position in bicycle coordinates: behind and above the wheel
    lam = h.angle('lam', 0.1, 1.4)
    x, z = h.real('x', -0.6, 0.6), h.real('z', 0.2, 1.2)
    s, c = h.sin(lam), h.cos(lam)
    # along the steer axis (up and back): (-s, up c); perpendicular forward
    along = -x * s + z * c
    perp = x * c + z * s
    h.assume(along > h.const(0.05))
    d5, d6 = h.real('d5', 0.005, 0.03), h.real('d6', 0.01, 0.05)
    h6 = h.real('h6', 0.05, 0.5)
    h7 = perp + (h6 - d5 / 2) + d6 / 2
    dist = h.sqrt(along**2 + perp**2)
    l1, l2 = G.calculate_l1_l2(h6, h7, d5, d6, dist + d5 / 2 + d6 / 2)
    h.eq('perpendicular', l1, perp)
    h.eq('along', l2, along)
    u1, u2 = G.fwheel_to_handlebar_ref(lam, l1, l2)
    h.eq('behind the front wheel center', u1, -x)
    h.eq('above the front wheel center', u2, z)


@harness('C14', 'handlebar_lengths', bounds='any measured heights, '
         'distance and diameters that a handlebar reference can have')
def handlebar_lengths(h):
    d5, d6 = h.real('d5', 0.005, 0.03), h.real('d6', 0.01, 0.05)
    h6, h7 = h.real('h6', 0.05, 0.5), h.real('h7', 0.05, 0.9)
    d = h.real('d', 0.2, 1.4)
    perp, dist = h7 - h6 + d5 / 2 - d6 / 2, d - d5 / 2 - d6 / 2
    h.assume(dist**2 > perp**2)
    l1, l2 = h.mod('geometry').calculate_l1_l2(h6, h7, d5, d6, d)
    h.eq('perpendicular', l1, perp)
    h.eq('distance', l1**2 + l2**2, dist**2)
    h.le('above', 0, l2)


@harness('C14', 'trail', bounds='any front wheel radius, tilt and fork '
         'offset')
def trail(h):
    r, f = h.real('rF', 0.1, 1.6), h.real('f', -0.5, 0.9)
    lam = h.angle('lam', -1.2, 1.4)
    c, cm = h.mod('bicycle').trail(r, lam, f)
    s, co = h.sin(lam), h.cos(lam)
    # the axis passes f from the wheel centre: it meets the ground c behind
    # the contact point, and cm from the contact point
    h.eq('trail', r * s - c * co, f)
    h.eq('mechanical trail', cm, r * s - f)


@harness('C14', 'tilt', bounds='any offsets and wheel radii as numbers or '
         'numbers with uncertainty; the tilt is the root of the closure '
         'equation', stubs='newton as above', concolic=False)
def tilt(h):
    g, a, b, along = bike(h)
    h.assume(a + b > h.const(0.2))
    unc = h.choice('uncertain', ['all', 'none', 'offsets', 'radii'])
    f = lambda x, on: h.ufloat(x, h.const(0.002)) if on else x
    off, rad = unc in ('all', 'offsets'), unc in ('all', 'radii')
    n = Newton(h, g['lam'])
    stub(h, 'scipy.optimize.newton', n)
    got = h.mod('bicycle').lambda_from_abc(
        f(g['rF'], rad), f(g['rR'], rad), f(a, off), f(b, off),
        f(along, off))
    h.eq('tilt', h.num(got), g['lam'])
