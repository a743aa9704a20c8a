"""Inertia arithmetic: pendulums, tensors, combination of bodies."""
import itertools

from engine.harness import harness
from .common import HOW, bench, stub, uncertain


@harness('C16', 'compound_pendulum', bounds='any positive mass, gravity, '
         'length and inertia, as numbers or numbers with uncertainty')
def compound_pendulum(h):
    m, g, l, I = [h.real(k, 0.01, 300) for k in ('m', 'g', 'l', 'I')]
    unc = h.choice('uncertain', [False, True])
    u = (lambda x: h.ufloat(x, h.const(0.01))) if unc else (lambda x: x)
    T = 2 * h.pi * h.sqrt((I + m * l**2) / (m * g * l))
    got = h.mod('inertia').compound_pendulum_inertia(u(m), u(g), u(l), u(T))
    h.eq('inertia about the mass center', h.num(got), I)


@harness('C16', 'torsional_pendulum', bounds='any positive inertias, '
         'stiffness and periods; solid and hollow calibration rods')
def torsional_pendulum(h):
    In = h.mod('inertia')
    k, I, I0 = h.real('k', 0.01, 90), h.real('I', 0.001, 90), \
        h.real('I0', 0.001, 90)
    period = lambda J: 2 * h.pi * h.sqrt(J / k)
    h.eq('stiffness', In.torsional_pendulum_stiffness(I0, period(I0)), k)
    h.eq('inertia', In.tor_inertia(k, period(I)), I)
    # a hollow tube is a solid rod minus a solid rod of the same density
    l, ro, ri, rho = h.real('l', 0.1, 2), h.real('ro', 0.05, 0.2), \
        h.real('ri', 0.001, 0.04), h.real('rho', 1, 10)
    mo, mi = [rho * h.pi * r**2 * l for r in (ro, ri)]
    a, b, c = In.tube_inertia(l, mo - mi, ro, ri)
    A = In.tube_inertia(l, mo, ro, 0)
    B = In.tube_inertia(l, mi, ri, 0)
    for nm, x, y, z in zip(('axial', 'transverse', 'transverse 2'),
                           (a, b, c), A, B):
        h.eq(nm, x, y - z)
    h.eq('solid axial', A[0], mo * ro**2 / 2)
    h.eq('solid transverse', A[1], mo * (3 * ro**2 + l**2) / 12)
    h.eq('symmetric', A[1], A[2])


@harness('C16', 'components', bounds='3 or 4 (thorough: 3 to 6) orientations '
         'with arbitrary angles and any planar tensor')
def components(h):
    n = h.choice('n', [3, 4] if h.tier == 'quick' else [3, 4, 5, 6])
    I = [h.real('Ixx', 0.01, 90), h.real('Ixz', -30, 30), h.real('Izz', 0.01, 90)]
    # tangents of half angles keep the algebra rational
    beta, J = [], []
    for i in range(n):
        b = h.angle('beta%d' % i, -3, 3)
        s, c = h.sin(b), h.cos(b)
        beta.append(b)
        # inertia about the direction (c, -s) turned from x by b about y
        J.append(I[0] * c**2 - 2 * I[1] * s * c + I[2] * s**2)
    h.assume(abs(h.sin(beta[0] - beta[1]) * h.sin(beta[1] - beta[2]) *
                 h.sin(beta[2] - beta[0])) > h.const(0.05))
    got = h.mod('inertia').inertia_components(h.arr(J), h.arr(beta))
    for nm, x, y in zip(('Ixx', 'Ixz', 'Izz'), got, I):
        h.eq(nm, x, y, tol=1e-5)


@harness('C16', 'least_squares', bounds='4 or 5 moments that need not agree '
         'with any tensor, about arbitrary axes')
def least_squares(h):
    n = h.choice('n', [4, 5])
    beta = [h.angle('beta%d' % i, -3, 3) for i in range(n)]
    J = [h.real('J%d' % i, 0.01, 90) for i in range(n)]
    # two of the squared determinants away from zero: full column rank
    h.assume((h.sin(beta[0] - beta[1]) * h.sin(beta[1] - beta[2]) *
              h.sin(beta[2] - beta[0]))**2 > h.const(0.01))
    xx, xz, zz = h.mod('inertia').inertia_components(h.arr(J), h.arr(beta))
    cols = []
    for b in beta:
        s, c = h.sin(b), h.cos(b)
        cols.append((c**2, -2 * s * c, s**2))
    rest = [j - xx * a - xz * b - zz * c for j, (a, b, c) in zip(J, cols)]
    # the residual of the best fit is orthogonal to the columns
    for k in range(3):
        h.eq('normal equation %d' % k, sum(r * q[k] for r, q in
                                           zip(rest, cols)), 0, tol=1e-5)


def tensor(h, nm, full=True):
    k = 'xx xy xz yy yz zz'.split()
    v = {a: h.real(nm + a, -3, 3) for a in k}
    if not full:
        v['xy'] = v['yz'] = h.const(0)
    return [[v['xx'], v['xy'], v['xz']], [v['xy'], v['yy'], v['yz']],
            [v['xz'], v['yz'], v['zz']]]


@harness('C16', 'parallel_axis', bounds='any full tensor, mass and offset')
def parallel_axis(h):
    In = h.mod('inertia')
    I, m = tensor(h, 'I'), h.pos('m')
    d = [h.real('d' + k, -3, 3) for k in 'xyz']
    got = In.parallel_axis(h.arr(I), m, h.arr(d))
    d2 = sum(x * x for x in d)
    h.eq('shifted', got, [[I[i][j] + m * (d2 * (i == j) - d[i] * d[j])
                           for j in range(3)] for i in range(3)])
    back = In.parallel_axis(got, -m, h.arr([-x for x in d]))
    h.eq('undone', back, I)


@harness('C16', 'rotation', bounds='any full tensor and angle')
def rotation(h):
    In, Co = h.mod('inertia'), h.mod('conversions')
    which = h.choice('function', ['inertia', 'conversions'])
    f = In.rotate_inertia_tensor if which == 'inertia' else \
        Co._rotate_inertia_about_y
    I, a = tensor(h, 'I'), h.angle('a', -3, 3)
    s, c = h.sin(a), h.cos(a)
    # axes turned by a about y: e1 = (c, 0, -s), e3 = (s, 0, c)
    E = [[c, 0, -s], [0, 1, 0], [s, 0, c]]
    got = f(h.arr(I), a)
    h.eq('components along the turned axes', got, [
        [sum(E[i][k] * I[k][l] * E[j][l] for k in range(3) for l in range(3))
         for j in range(3)] for i in range(3)])
    h.eq('turned back', f(got, -a), I)


@harness('C16', 'sum_central', bounds='two bodies with any tensors, masses '
         'and mass centers')
def sum_central(h):
    f = h.mod('conversions')._sum_central_inertias
    m = [h.pos('m1'), h.pos('m2')]
    r = [[h.real('%s%d' % (k, i), -2, 2) for k in 'xyz'] for i in (1, 2)]
    I = [tensor(h, 'I'), tensor(h, 'J')]
    got = f(m[0], h.arr(r[0]), h.arr(I[0]), m[1], h.arr(r[1]), h.arr(I[1]))
    mu = m[0] * m[1] / (m[0] + m[1])
    d = [r[0][k] - r[1][k] for k in range(3)]
    d2 = sum(x * x for x in d)
    h.eq('reduced mass form', got, [
        [I[0][i][j] + I[1][i][j] + mu * (d2 * (i == j) - d[i] * d[j])
         for j in range(3)] for i in range(3)])


@harness('C16', 'principal', bounds='any symmetric tensor; eigenvalues and '
         'vectors arbitrary, in any order', concolic=False,
         stubs='eig: arbitrary result')
def principal(h):
    order = h.choice('order', list(itertools.permutations(range(3))))
    w0 = h.real('w0', -2, 2)
    w1 = w0 + h.real('dw1', 0.1, 2)
    w2 = w1 + h.real('dw2', 0.1, 2)
    w = [w0, w1, w2]
    V = [[h.real('V%d%d' % (i, j), -1, 1) for j in range(3)]
         for i in range(3)]
    for n in ('eig', 'eigh'):
        o = order if n == 'eig' else (0, 1, 2)
        stub(h, 'numpy.linalg.' + n, lambda a, o=o: (
            h.arr([w[k] for k in o]),
            h.arr([[V[i][k] for k in o] for i in range(3)])))
    Ip, C = h.mod('inertia').principal_axes(h.arr(tensor(h, 'I')))
    h.eq('moments, smallest first', Ip, w)
    h.eq('axes as rows', C, [[V[i][k] for i in range(3)] for k in range(3)])


@harness('C16', 'part_tensor', bounds='every part, all entries symbolic, '
         'with or without uncertainty')
def part_tensor(h):
    part = h.choice('part', list('BHFRGSD'))
    par = {}
    v = {}
    for p in 'BHFRGSD':
        for k in ('xx', 'xz', 'yy', 'zz'):
            if p in 'FRD' and k in ('xz', 'zz'):
                continue
            v[p + k] = h.real(p + k, -2, 5)
            par['I' + p + k] = v[p + k]
    par = uncertain(h, par, h.choice('uncertain', HOW))
    I = h.mod('inertia').part_inertia_tensor(par, part)
    wheel = part in 'FRD'
    xz = 0 if wheel else v[part + 'xz']
    zz = v[part + 'xx'] if wheel else v[part + 'zz']
    h.eq('tensor', I, [[v[part + 'xx'], 0, xz], [0, v[part + 'yy'], 0],
                       [xz, 0, zz]])


@harness('C16', 'rider', bounds='any bicycle and any rider, in or beside its '
         'plane of symmetry; rider products of inertia present or not; with '
         'or without uncertainty in the bicycle')
def rider(h):
    unc = h.choice('uncertain', HOW)
    lateral = h.choice('lateral entries', ['none', 'any', 'all'])
    p = bench(h)
    bike = uncertain(h, p, unc, 0.01)
    r = {'mB': h.real('r_m', 1, 400), 'xB': h.real('r_x', -2, 4),
         'zB': h.real('r_z', -4, 0)}
    for k, lo, hi in (('xx', 1, 20), ('yy', 1, 20), ('zz', 0.5, 10),
                      ('xz', -5, 5)):
        r['IB' + k] = h.real('r_' + k, lo, hi)
    rp = dict(r)
    if lateral != 'none':
        rp['yB'] = h.real('r_y', -1, 1)
    if lateral == 'all':
        rp['IBxy'], rp['IByz'] = h.real('r_xy', -5, 5), h.real('r_yz', -5, 5)
    keep = dict(rp)
    got = h.mod('inertia').combine_bike_rider(dict(bike), rp)
    mT = p['mB'] + r['mB']
    h.eq('mass', h.num(got['mB']), mT)
    for k in 'xz':
        h.eq('center ' + k, h.num(got[k + 'B']),
             (p[k + 'B'] * p['mB'] + r[k + 'B'] * r['mB']) / mT)
    # moments about the rear contact point add up
    def about(I, m, x, z, y):
        return {'xx': I['xx'] + m * (y**2 + z**2),
                'zz': I['zz'] + m * (x**2 + y**2),
                'yy': I['yy'] + m * (x**2 + z**2), 'xz': I['xz'] - m * x * z}
    y = rp.get('yB', 0)
    A = [about({k: q['IB' + k] for k in ('xx', 'yy', 'zz', 'xz')}, q['mB'],
               q['xB'], q['zB'], s) for q, s in ((p, 0), (r, y))]
    n = {k: h.num(got[k]) for k in got}
    T = about({k: n['IB' + k] for k in ('xx', 'yy', 'zz', 'xz')}, n['mB'],
              n['xB'], n['zB'], y * r['mB'] / mT)
    for k in T:
        h.eq('moment ' + k, T[k], A[0][k] + A[1][k])
    for k in p:
        if k not in ('mB', 'xB', 'zB', 'IBxx', 'IByy', 'IBzz', 'IBxz'):
            h.eq('kept ' + k, h.num(got[k]), p[k])
    h.true('rider entries', set(rp) == set(keep))
    for k in keep:
        h.eq('rider kept ' + k, rp[k], keep[k])
