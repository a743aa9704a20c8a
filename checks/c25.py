"""Posture, mass and inertia of a rider placed on a bicycle.

The kinematics of the human model (hip and shoulder joints, body fixed 1-2-3
joint rotations, limbs along the negative third axis of their segment) are
written here as chains of rotation matrices; the package holds them as
expanded trigonometric sums."""
from engine.harness import harness
from .common import bench, stub

FREE = ('PJ1extension', 'J1J2flexion', 'CA1extension', 'CA1adduction',
        'CA1rotation', 'A1A2extension')


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B)))
             for j in range(len(B[0]))] for i in range(len(A))]


def turn(h, axis, a):
    s, c = h.sin(a), h.cos(a)
    return {'x': [[1, 0, 0], [0, c, -s], [0, s, c]],
            'y': [[c, 0, s], [0, 1, 0], [-s, 0, c]],
            'z': [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis]


def body123(h, a, b, c):
    return mul(mul(turn(h, 'x', a), turn(h, 'y', b)), turn(h, 'z', c))


class Human:
    """stand-in for the human model"""

    def __init__(self, h, lengths, somersault, mass=None, com=None, I=None):
        self.h = h
        self.meas = dict(lengths)
        self.CFG = {k: 0.0 for k in FREE + (
            'tilt', 'twist', 'PTsagittalFlexion', 'PTbending',
            'TCspinalTorsion', 'TCsagittalSpinalFlexion', 'PJ1adduction',
            'PK1extension', 'PK1abduction', 'K1K2flexion', 'CB1extension',
            'CB1abduction', 'CB1rotation', 'B1B2extension')}
        self.CFG['somersault'] = somersault
        self.drawn = 0
        self.updates = 0
        self.mass, self.center_of_mass, self.inertia = mass, com, I

    def set_CFG_dict(self, d):
        self.CFG = dict(d)
        self.updates += 1

    def set_CFG(self, k, v):
        self.CFG[k] = v
        self.updates += 1

    def draw(self, *a, **k):
        self.drawn += 1

    def inertia_transformed(self, pos=None, rotmat=None):
        I = [[self.inertia[i, j] for j in range(3)] for i in range(3)]
        if pos is not None:
            d = [self.h.np.ravel(pos)[i] - self.center_of_mass[i, 0]
                 for i in range(3)]
            d2 = sum(x * x for x in d)
            I = [[I[i][j] + self.mass * ((d2 if i == j else 0) - d[i] * d[j])
                  for j in range(3)] for i in range(3)]
        if rotmat is not None:
            R = [[rotmat[i][j] for j in range(3)] for i in range(3)]
            Rt = [[R[j][i] for j in range(3)] for i in range(3)]
            I = mul(mul(Rt, I), R)
        return self.h.arr(I)


class Seat:
    """a rider and a bicycle on which a chosen posture fits; `off` displaces
    one of the ten conditions"""

    def __init__(self, h, off=None, d=0, small=False):
        self.h = h
        o = [d if off == k else 0 for k in range(10)]
        ang = lambda k, lo, hi: h.angle(k, lo, hi)
        P = self.P = ang('somersault', -0.5, 0.5)
        j1, j2 = ang('thigh', -1.7, -0.9), ang('knee', 0.7, 1.4)
        a1, th, a2 = ang('arm', -1.2, 0.2), ang('adduction', -0.2, 0.4), \
            ang('elbow', -1.3, -0.2)
        # upper arm turned until its hinge axis is horizontal
        R = mul(turn(h, 'x', P), body123(h, a1, th, 0))
        # z component of the turned first axis: R[2][0] c + R[2][1] s = 0
        psi = h.np.arctan2(-R[2][0], R[2][1])
        if off == 9:
            # ... or until it rises by d
            n = h.sqrt(R[2][0]**2 + R[2][1]**2)
            h.assume(n > h.const(0.3))
            psi = h.np.arctan2(R[2][1], R[2][0]) - h.np.arccos(d / n)
        self.sol = [j1, j2, a1, th, psi, a2]
        # bicycle
        real = h.real
        rR, rF = real('rR', 0.25, 0.4), real('rF', 0.25, 0.4)
        hbb, lcs = real('hbb', 0.2, 0.35), real('lcs', 0.38, 0.5)
        lsp, lst = real('lsp', 0.1, 0.3), real('lst', 0.4, 0.6)
        lam = ang('lamst', 1.0, 1.5)
        w = real('w', 0.9, 1.2)
        # legs: the lengths with which the feet reach the bottom bracket
        Rt = turn(h, 'x', P)
        leg1 = mul(Rt, turn(h, 'x', j1))
        leg2 = mul(leg1, turn(h, 'x', j2))
        # forward is -y of the human; the crank is ahead of and below the
        # seat
        bb = [-(-(lsp + lst) * h.cos(lam)) * -1 + o[0],
              -(lsp + lst) * h.sin(lam) + o[1]]
        u, q = [-leg1[1][2], -leg1[2][2]], [-leg2[1][2], -leg2[2][2]]
        det = u[0] * q[1] - u[1] * q[0]
        Lj3 = (bb[0] * q[1] - bb[1] * q[0]) / det
        shank = (u[0] * bb[1] - u[1] * bb[0]) / det
        Lj5 = real('Lj5L', 0.3, 0.5)
        Lj6 = shank + Lj3 - Lj5
        # arms
        La2, Ls4, w4 = real('La2L', 0.25, 0.35), real('Ls4L', 0.4, 0.6), \
            real('Ls4w', 0.3, 0.5)
        La4, La5 = real('La4L', 0.5, 0.6), real('La5L', 0.05, 0.15)
        A1 = mul(Rt, body123(h, a1, th, psi))
        A2 = mul(A1, turn(h, 'x', a2))
        sh = mul(Rt, [[w4 / 2], [0], [Ls4]])
        hand = [sh[i][0] - A1[i][2] * La2 - A2[i][2] * (La4 + La5 - La2)
                for i in range(3)]
        whb = 2 * (hand[0] + o[6])
        # rear axle seen from the seat, in the human's axes
        seat_x = h.sqrt(lcs**2 - (rR - hbb)**2) - (lsp + lst) * h.cos(lam)
        seat_z = hbb + (lsp + lst) * h.sin(lam)
        beta = [hand[1] - seat_x + o[7], hand[2] + seat_z - rR + o[8]]
        alpha = [beta[0] + w + o[4], beta[1] + rR - rF + o[5]]
        reach = lambda v: h.sqrt(v[0]**2 + v[1]**2 + whb**2 / 4)
        self.par = {'rR': rR, 'rF': rF, 'w': w}
        self.meas = {'hbb': hbb, 'lcs': lcs, 'lsp': lsp, 'lst': lst,
                     'lamst': lam, 'whb': whb, 'LhbF': reach(alpha) + o[2],
                     'LhbR': reach(beta) + o[3]}
        self.lengths = {'Lj3L': Lj3, 'Lj5L': Lj5, 'Lj6L': Lj6, 'Ls4L': Ls4,
                        'Ls4w': w4, 'La2L': La2, 'La4L': La4, 'La5L': La5}
        self.sol += alpha + beta

    def ride(self, draw=False, unc=False, **human):
        h = self.h
        made = []

        def create(meas, cfg=None, *a, **k):
            made.append((meas, cfg))
            self.human = Human(h, self.lengths, self.P, **human)
            return self.human

        def solve(f, x0, args=(), **k):
            h.true('ten unknowns', len(x0) == 10)
            self.res = list(f(h.arr(self.sol), *args))
            return h.arr(self.sol)
        stub(h, 'yeadon.Human', create)
        stub(h, 'scipy.optimize.fsolve', solve)
        wrap = (lambda d: {k: h.ufloat(v, 0.01) for k, v in d.items()}) \
            if unc else dict
        got = h.mod('rider').rider_on_bike(wrap(self.par), wrap(self.meas),
                                           'meas', 'cfg', draw)
        h.true('one human', len(made) == 1 and got is self.human)
        h.same('files', made[0], ('meas', 'cfg'))
        return got


@harness('C25', 'posture', bounds='any rider lengths, seat and handlebar '
         'position for which a posture with symbolic joint angles fits; '
         'with and without uncertainties', stubs='human model: joint '
         'lengths and configuration; nonlinear solver: returns the posture, '
         'the equations are evaluated at it', tol=1e-6)
def posture(h):
    unc = h.choice('uncertain', [False, True])
    draw = h.choice('draw', [False, True])
    s = Seat(h)
    s.ride(draw, unc)
    h.eq('posture solves the equations', s.res, [0] * len(s.res), scale=1.0)
    c = s.human.CFG
    for k, v in zip(FREE, s.sol):
        h.eq(k, c[k], v)
    h.eq('somersault', c['somersault'], s.P)
    # the right limbs mirror the left ones
    for r, l, sg in (('PK1extension', 0, 1), ('K1K2flexion', 1, 1),
                     ('CB1extension', 2, 1), ('CB1abduction', 3, -1),
                     ('CB1rotation', 4, -1), ('B1B2extension', 5, 1)):
        h.eq(r, c[r], sg * s.sol[l])
    h.eq('rest', [c[k] for k in ('tilt', 'twist', 'PTbending',
         'PTsagittalFlexion', 'TCspinalTorsion', 'TCsagittalSpinalFlexion',
         'PJ1adduction', 'PK1abduction')], [0] * 8)
    h.true('updated', s.human.updates > 0)
    h.true('drawn when asked', s.human.drawn == (1 if draw else 0))


@harness('C25', 'conditions', bounds='each of the ten conditions violated '
         'by any amount while the others hold', stubs='as above', tol=1e-6,
         shards=5, feas_ms=150)
def conditions(h):
    k = h.choice('condition', 10)
    d = h.real('d', 0.01, 0.2)
    s = Seat(h, k, d)
    s.ride()
    for r in s.res:
        if h.symbolic and not (r * r - d * d).n:
            # as large as the displacement, which is not small
            h.eq('noticed', r * r, d * d)
            return
    big = sum(r * r for r in s.res)
    h.true('noticed', bool(big > h.const(1e-12)))


def symmetric(h, name):
    v = {k: h.real(name + k, -2, 2) for k in ('xy', 'xz', 'yz')}
    v.update({k: h.real(name + k, 3, 9) for k in ('xx', 'yy', 'zz')})
    return [[v['xx'], v['xy'], v['xz']], [v['xy'], v['yy'], v['yz']],
            [v['xz'], v['yz'], v['zz']]]


def seat(h, meas, par):
    x = h.sqrt(meas['lcs']**2 - (par['rR'] - meas['hbb'])**2) - \
        (meas['lsp'] + meas['lst']) * h.cos(meas['lamst'])
    return x, -meas['hbb'] - (meas['lsp'] + meas['lst']) * \
        h.sin(meas['lamst'])


def dimensions(h):
    return {'hbb': h.real('hbb', 0.2, 0.35), 'lcs': h.real('lcs', 0.38, 0.5),
            'lsp': h.real('lsp', 0.1, 0.3), 'lst': h.real('lst', 0.4, 0.6),
            'lamst': h.angle('lamst', 1.0, 1.5),
            'whb': h.real('whb', 0.3, 0.6), 'LhbF': h.real('LhbF', 0.6, 0.8),
            'LhbR': h.real('LhbR', 0.9, 1.1)}


@harness('C25', 'vector', bounds='any point of the human, any bicycle; with '
         'and without uncertainties')
def vector(h):
    unc = h.choice('uncertain', [False, True])
    m = dimensions(h)
    p = {'rR': h.real('rR', 0.25, 0.4)}
    a = [h.real(k, -1, 1) for k in 'abc']
    x, z = seat(h, m, p)
    wrap = (lambda d: {k: h.ufloat(v, 0.01) for k, v in d.items()}) \
        if unc else dict
    r = h.mod('rider').yeadon_vec_to_bicycle_vec(
        h.arr([[v] for v in a]), wrap(m), wrap(p))
    h.true('column', r.shape == (3, 1))
    # forward = -y, right = -x, down = -z of the human
    h.eq('vector', [r[0, 0], r[1, 0], r[2, 0]],
         [x - a[1], -a[0], z - a[2]])


@harness('C25', 'configured', bounds='any mass, mass center and inertia '
         'tensor of the human, any bicycle', stubs='human model as above; '
         'solver returns any posture')
def configured(h):
    p = bench(h)
    m = dimensions(h)
    h.assume(p['rR'] < h.const(0.5))
    mass = h.real('mass', 20, 150)
    com = [h.real('com' + k, -1, 1) for k in 'xyz']
    I = symmetric(h, 'I')
    lengths = {k: h.const(0.5) for k in ('Lj3L', 'Lj5L', 'Lj6L', 'Ls4L',
                                         'Ls4w', 'La2L', 'La4L', 'La5L')}
    paths = []
    draw = h.choice('draw', [False, True])

    def create(meas, cfg=None, *a, **k):
        paths.append((meas, cfg))
        return Human(h, lengths, h.const(0.1), mass,
                     h.arr([[v] for v in com]), h.arr(I))
    stub(h, 'yeadon.Human', create)
    stub(h, 'scipy.optimize.fsolve', lambda f, x0, *a, **k:
         h.arr([h.const(0.1)] * 10))
    q, n = dict(p), dict(m)
    r, human, c = h.mod('rider').configure_rider('/data/riders/Jane', 'Bike',
                                                 q, n, draw)
    h.same('files', tuple(paths[0]), (
        '/data/riders/Jane/RawData/JaneYeadonMeas.txt',
        '/data/riders/Jane/RawData/JaneBikeYeadonCFG.txt'))
    h.true('drawn when asked', human.drawn == (1 if draw else 0))
    x, z = seat(h, m, p)
    ref = {'mB': mass, 'xB': x - com[1], 'yB': -com[0], 'zB': z - com[2],
           'IBxx': I[1][1], 'IByy': I[0][0], 'IBzz': I[2][2],
           'IBxz': I[1][2]}
    for k, v in ref.items():
        h.eq('rider ' + k, r[k], v)
    h.same('rider entries', sorted(r), sorted(ref))
    # joint body of frame and rider, both in the frame's plane axes
    M = p['mB'] + mass
    X = (p['mB'] * p['xB'] + mass * ref['xB']) / M
    Z = (p['mB'] * p['zB'] + mass * ref['zB']) / M
    h.eq('mB', c['mB'], M)
    h.eq('xB', c['xB'], X)
    h.eq('zB', c['zB'], Z)
    h.eq('unchanged measurements', [n[k] for k in sorted(m)],
         [m[k] for k in sorted(m)])
