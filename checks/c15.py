"""Centers of mass recovered from suspending a part in several orientations."""
from engine.harness import harness


def geometry(h):
    par = {'rR': h.real('rR', 0.1, 0.9), 'rF': h.real('rF', 0.1, 0.9),
           'w': h.real('w', 0.5, 3), 'lam': h.angle('lam', -0.4, 1.2)}
    return par


def handlebar_measures(h, mp):
    for k, lo, hi in (('h6', 0.1, 0.2), ('h7', 0.1, 0.25),
                      ('d5', 0.01, 0.02), ('d6', 0.02, 0.03),
                      ('l', 0.6, 1.0)):
        mp[k] = h.real(k, lo, hi)
    r5, r6 = mp['d5'] / 2, mp['d6'] / 2
    l1 = (mp['h7'] - r6) - (mp['h6'] - r5)
    l2 = h.sqrt((mp['l'] - r5 - r6)**2 - l1**2)
    return l1, l2


def reference_point(h, par, part, l12):
    """the point of the part whose distance from the axis is measured"""
    if part == 'B':
        return 0, -par['rR']
    if part in 'HS':
        return par['w'], -par['rF']
    s, c = h.sin(par['lam']), h.cos(par['lam'])
    l1, l2 = l12
    # l1 forward along (c, -s), l2 up along (-s, -c)
    return (par['w'] + l1 * c - l2 * s, -par['rF'] - l1 * s - l2 * c)


def lean(h, name, side=1):
    """angle the bicycle is turned (counterclockwise seen from its right
    side) from upright when it hangs: kept away from 0 so that the plumb
    line is not vertical in the bicycle frame"""
    return h.angle(name, 0.2, 1.4) * side


def hang(h, par, part, ref, cm, phi):
    """(head tube angle in degrees, distance of the reference point left of
    the plumb line) with the centre of mass on the plumb line"""
    s, c = h.sin(phi), h.cos(phi)
    right = lambda p: p[0] * c + p[1] * s
    alpha = (phi + par['lam'] + h.pi / 2) * 180 / h.pi
    return alpha, right(cm) - right(ref)


@harness('C15', 'line', bounds='each part, any geometry, suspension angle '
         'and center of mass')
def line(h):
    part = h.choice('part', list('BHSG'))
    par = geometry(h)
    l12 = (h.real('l1', -0.2, 0.2), h.real('l2', 0.3, 1))
    cm = (h.real('x', -2, 4), h.real('z', -4, 0))
    phi = lean(h, 'phi', h.choice('side', [1, -1]))
    ref = reference_point(h, par, part, l12)
    alpha, a = hang(h, par, part, ref, cm, phi)
    m, b, beta = h.mod('com').com_line(alpha, a, par, part, *l12)
    h.eq('center on the line', cm[1], m * cm[0] + b)
    # the line is the plumb line: direction down in the bicycle frame
    s, c = h.sin(phi), h.cos(phi)
    h.eq('slope', m * s, -c)
    h.angle_eq('orientation', beta, par['lam'] - alpha * h.pi / 180)


@harness('C15', 'unknown_part', bounds='parts that do not exist')
def unknown_part(h):
    par = geometry(h)
    with h.raises('refused', KeyError):
        h.mod('com').com_line(h.real('alpha', 10, 80), 0.1, par,
                              h.choice('part', ['R', 'F', 'X', '']), 0, 0)


@harness('C15', 'intersection', bounds='2-4 (thorough: 2-6) arbitrary '
         'concurrent lines; lists, in any order')
def intersection(h):
    n = h.choice('n', [2, 3, 4] if h.tier == 'quick' else [2, 3, 4, 5, 6])
    x, z = h.real('x', -2, 2), h.real('z', -2, 2)
    m = [h.real('m%d' % i, -5, 5) for i in range(n)]
    b = [z - mi * x for mi in m]
    X, Z = h.mod('com').center_of_mass(list(m), list(b))
    h.eq('abscissa', X, x)
    h.eq('ordinate', Z, z)


@harness('C15', 'least_bias', bounds='3 arbitrary lines that do not meet in '
         'one point', feas_ms=100)
def least_bias(h):
    """the result is the mean of the pairwise intersections and so does not
    depend on the order of the lines"""
    m = [h.real('m%d' % i, -5, 5) for i in range(3)]
    b = [h.real('b%d' % i, -5, 5) for i in range(3)]
    cm = h.mod('com').center_of_mass
    X, Z = cm(list(m), list(b))
    xs, zs = 0, 0
    for i, j in ((0, 1), (0, 2), (1, 2)):
        xi = (b[j] - b[i]) / (m[i] - m[j])
        xs, zs = xs + xi / 3, zs + (m[i] * xi + b[i]) / 3
    h.eq('abscissa', X, xs, tol=1e-5)
    h.eq('ordinate', Z, zs, tol=1e-5)


def measured(h, split, orders):
    par = geometry(h)
    turned = h.choice('hung the other way round', [(), (1,)])
    mp = {}
    l12 = handlebar_measures(h, mp) if split else (0, 0)
    true = {}
    parts = 'BSG' if split else 'BH'
    for part in parts:
        n = orders[part]
        cm = (h.real('x' + part, -2, 4), h.real('z' + part, -4, 0))
        ref = reference_point(h, par, part, l12)
        phis = [lean(h, 'phi%s%d' % (part, i + 1),
                     -1 if i in turned else 1) for i in range(n)]
        true[part] = (cm, phis)
        for i in range(n):
            al, a = hang(h, par, part, ref, cm, phis[i])
            mp['alpha%s%d' % (part, i + 1)] = al
            mp['a%s%d' % (part, i + 1)] = a
    return par, mp, true


@harness('C15', 'parts', bounds='frame and fork with handlebar (joined or '
         'split), 2-3 orientations each, measurement entries in either '
         'order')
def parts(h):
    split = h.choice('split', [False, True])
    order = h.choice('orders', [dict(B=3, H=2, S=2, G=3),
                                dict(B=2, H=3, S=3, G=2)])
    rev = h.choice('entries', ['sorted', 'reversed'])
    par, mp, true = measured(h, split, order)
    if rev == 'reversed':
        mp = dict(reversed(list(mp.items())))
    com = h.mod('com')
    sl, ic, be = com.part_com_lines(mp, par, split)
    h.true('parts', set(sl) == set(ic) == set(be) == set(true))
    for part, (cm, phis) in true.items():
        h.true('one line per orientation', len(sl[part]) == len(ic[part]) ==
               len(be[part]) == len(phis))
        for i in range(len(phis)):
            h.eq('center of %s on line %d' % (part, i + 1),
                 cm[1], sl[part][i] * cm[0] + ic[part][i])
            h.angle_eq('orientation of %s %d' % (part, i + 1), be[part][i],
                       -phis[i] - h.pi / 2)


@harness('C15', 'numbered', bounds='11 orientations of the frame or of the '
         'fork with handlebar, 2 of the other, entries in the order of their '
         'numbers or of their names')
def numbered(h):
    n = dict(h.choice('orders', [(('B', 11), ('H', 2)), (('B', 2), ('H', 11))
                                 ]))
    par, mp, true = {}, {}, {}
    par = geometry(h)
    for part in 'BH':
        true[part] = []
        for i in range(n[part]):
            # the last two digits of a name: alphaB1 ... alphaB11
            al = h.real('al%s%d' % (part, i), 5, 85)
            a = h.real('a%s%d' % (part, i), -0.5, 0.5)
            mp['alpha%s%d' % (part, i + 1)], mp['a%s%d' % (part, i + 1)] = \
                al, a
            true[part].append((al, a))
    if h.choice('entries', ['numbers', 'names']) == 'names':
        mp = {k: mp[k] for k in sorted(mp)}
    com = h.mod('com')
    sl, ic, be = com.part_com_lines(mp, par, False)
    for part, rows in true.items():
        h.true('one line per orientation', len(sl[part]) == len(rows))
        for i, (al, a) in enumerate(rows):
            m, b, beta = com.com_line(al, a, par, part, 0., 0.)
            h.eq('slope of %s %d' % (part, i + 1), sl[part][i], m)
            h.eq('intercept of %s %d' % (part, i + 1), ic[part][i], b)
            h.eq('angle of %s %d' % (part, i + 1), be[part][i], beta)


@harness('C15', 'cartesian', bounds='index lists of sizes 1 to 4')
def cartesian(h):
    n, m = h.choice('n', [1, 2, 3, 4]), h.choice('m', [1, 2, 3])
    a = h.arr([h.real('a%d' % i, -3, 3) for i in range(n)])
    b = h.arr([h.real('b%d' % i, -3, 3) for i in range(m)])
    got = h.mod('com').cartesian((a, b))
    h.eq('product', got, [[x, y] for x in a for y in b])
