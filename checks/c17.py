"""Benchmark parameters from a complete set of raw measurements."""
from engine.harness import harness
from .common import stub
from .c14 import bike
from .c15 import handlebar_measures, reference_point, lean, hang


class Bicycle:
    """a true bicycle and everything one would measure on it"""

    def __init__(self, h, split=False, fly=False, orient=(3, 3), unc=False):
        self.h = h
        u = (lambda x: h.ufloat(x, h.const(0.001))) if unc else (lambda x: x)
        g, a, b, along = bike(h)
        self.true = t = dict(g)
        mp = {}
        mp['nF'], mp['nR'] = 14.0, 13.0
        mp['dF'] = 2 * h.pi * g['rF'] * 14
        mp['dR'] = 2 * h.pi * g['rR'] * 13
        mp['w'], mp['gamma'], mp['f'] = g['w'], 90 - g['lam'] * 180 / h.pi, b
        t['g'] = mp['g'] = h.real('g', 1, 30)
        parts = 'BSG' if split else 'BH'
        for p in parts + 'FR':
            t['m' + p] = mp['m' + p] = h.real('m' + p, 0.2, 300)
        # calibration rod
        l, m, d = h.real('lP', 0.5, 2), h.real('mP', 1, 10), \
            h.real('dP', 0.01, 0.1)
        k = h.real('k', 1, 10)
        mp['lP'], mp['mP'], mp['dP'] = l, m, d
        twist = lambda J: 2 * h.pi * h.sqrt(J / k)
        swing = lambda I, m, L: 2 * h.pi * h.sqrt((I + m * L**2) /
                                                  (m * t['g'] * L))
        mp['TtP1'] = twist(m * (3 * d**2 / 4 + l**2) / 12)
        # wheels
        for p in 'FR':
            t['I%sxx' % p] = h.real('I%sxx' % p, 0.001, 3)
            t['I%syy' % p] = h.real('I%syy' % p, 0.001, 3)
            mp['l' + p] = h.real('l' + p, 0.1, 0.5)
            mp['Tc%s1' % p] = swing(t['I%syy' % p], t['m' + p], mp['l' + p])
            mp['Tt%s1' % p] = twist(t['I%sxx' % p])
        if fly:
            t['mD'] = h.real('mD', 1, 20)
            mp['mD'] = t['mD'] + t['mF']
            for ax in ('xx', 'yy'):
                t['ID' + ax] = h.real('ID' + ax, 0.001, 3)
            mp['TcD1'] = swing(t['IDyy'] + t['IFyy'], mp['mD'], mp['lF'])
            mp['TtD1'] = twist(t['IDxx'] + t['IFxx'])
        l12 = handlebar_measures(h, mp) if split else (0, 0)
        self.lines = {}
        for p, n in zip(parts, orient):
            cm = (h.real('x' + p, -2, 4), h.real('z' + p, -4, 0))
            t['x' + p], t['z' + p] = cm
            I = [h.real('I%s%s' % (p, ax), lo, hi) for ax, lo, hi in (
                ('xx', 0.1, 50), ('xz', -20, 20), ('zz', 0.1, 50))]
            h.assume(I[0] * I[2] - I[1]**2 > h.const(0.01))
            t['I%sxx' % p], t['I%sxz' % p], t['I%szz' % p] = I
            t['I%syy' % p] = h.real('I%syy' % p, 0.1, 50)
            ref = reference_point(h, g, p, l12)
            L = h.sqrt((cm[0] - ref[0])**2 + (cm[1] - ref[1])**2)
            h.assume(L > h.const(0.01))
            mp['Tc%s1' % p] = swing(t['I%syy' % p], t['m' + p], L)
            phis = []
            for i in range(n):
                phi = lean(h, 'phi%s%d' % (p, i + 1))
                al, aa = hang(h, g, p, ref, cm, phi)
                mp['alpha%s%d' % (p, i + 1)] = al
                mp['a%s%d' % (p, i + 1)] = aa
                s, c = h.sin(phi), h.cos(phi)
                # moment about the plumb line, direction (-s, c) in (x, z)
                mp['Tt%s%d' % (p, i + 1)] = twist(
                    I[0] * s**2 - 2 * I[1] * s * c + I[2] * c**2)
                phis.append(phi)
            h.assume((h.sin(phis[0] - phis[1]) * h.sin(phis[1] - phis[2])
                      * h.sin(phis[2] - phis[0]))**2 > h.const(0.0025))
            self.lines[p] = (cm, phis)
        if split:
            about = lambda I, m, x, z: (
                I[0] + m * z**2, I[1] - m * x * z, I[2] + m * x**2,
                I[3] + m * (x**2 + z**2))
            ten = lambda p: [t['I' + p + ax] for ax in ('xx', 'xz', 'zz',
                                                        'yy')]
            m = t['mS'] + t['mG']
            x, z = [(t['mS'] * t[k + 'S'] + t['mG'] * t[k + 'G']) / m
                    for k in 'xz']
            S, G, O = [about(*q) for q in (
                (ten('S'), t['mS'], t['xS'], t['zS']),
                (ten('G'), t['mG'], t['xG'], t['zG']), ([0] * 4, m, x, z))]
            t.update(mH=m, xH=x, zH=z)
            for ax, i, j, k in zip(('xx', 'xz', 'zz', 'yy'), S, G, O):
                t['IH' + ax] = i + j - k
        self.mp = {q: x if isinstance(x, float) else u(x)
                   for q, x in mp.items()}


def check(h, b, order='given'):
    mp = b.mp
    if order == 'reversed':
        mp = dict(reversed(list(mp.items())))
    before = dict(mp)
    par, extras = h.mod('main').calculate_benchmark_from_measured(mp)
    for k in sorted(b.true):
        h.eq(k, h.num(par[k]), b.true[k], tol=1e-5)
    h.true('measurements kept', list(mp) == list(before) and
           all(mp[k] is before[k] for k in mp))
    h.true('parts', h.mod('main').get_parts_in_parameters(par) is not None
           and set(h.mod('main').get_parts_in_parameters(par)) ==
           {k[1:] for k in b.true if k.startswith('m')})
    for k in ('slopes', 'intercepts', 'betas', 'pendulumInertias'):
        h.same('parts of the ' + k, sorted(extras[k]), sorted(b.lines))
    for p, (cm, phis) in b.lines.items():
        h.true('lines of ' + p, len(extras['slopes'][p]) ==
               len(extras['intercepts'][p]) == len(extras['betas'][p]) ==
               len(extras['pendulumInertias'][p]) == len(phis))
        for i, phi in enumerate(phis):
            h.eq('center of %s on line %d' % (p, i + 1), h.num(
                extras['slopes'][p][i]) * cm[0] +
                h.num(extras['intercepts'][p][i]), cm[1], tol=1e-5)
            s, c = h.sin(phi), h.cos(phi)
            I = [b.true['I' + p + ax] for ax in ('xx', 'xz', 'zz')]
            h.eq('moment of %s %d' % (p, i + 1),
                 h.num(extras['pendulumInertias'][p][i]),
                 I[0] * s**2 - 2 * I[1] * s * c + I[2] * c**2, tol=1e-5)
            h.angle_eq('orientation of %s %d' % (p, i + 1),
                       h.num(extras['betas'][p][i]), -phi - h.pi / 2)


B = 'every measurement of a bicycle with arbitrary geometry, masses, ' \
    'inertias, calibration rod and hanging angles'


@harness('C17', 'joined', bounds=B + '; fork and handlebar in one piece, '
         'three orientations; with or without a flywheel; entries in given '
         'or reversed order')
def joined(h):
    fly = h.choice('flywheel', [False, True])
    order = h.choice('order', ['given', 'reversed'])
    check(h, Bicycle(h, fly=fly), order)


@harness('C17', 'split', bounds=B + '; fork and handlebar apart, three '
         'orientations')
def split(h):
    check(h, Bicycle(h, split=True, orient=(3, 3, 3)))


@harness('C17', 'uncertain', bounds=B + ', all given as numbers with '
         'uncertainty')
def uncertain(h):
    check(h, Bicycle(h, unc=True))


@harness('C17', 'orientations', bounds=B + '; 4 orientations of the frame '
         'or of the fork')
def orientations(h):
    check(h, Bicycle(h, orient=h.choice('numbers', [(4, 3), (3, 4)])))


@harness('C17', 'more', bounds=B + '; 5 orientations of the frame and 4 of '
         'the fork with a flywheel; fork and handlebar apart with a flywheel',
         thorough_only=True)
def more(h):
    which = h.choice('which', ['joined', 'split'])
    if which == 'joined':
        check(h, Bicycle(h, fly=True, orient=(5, 4)))
    else:
        check(h, Bicycle(h, fly=True, split=True, orient=(3, 3, 3)),
              'reversed')


class Named:
    """the same harness, its variables under other names"""

    def __init__(self, h, prefix):
        self._h, self._p = h, prefix

    def __getattr__(self, name):
        at = getattr(self._h, name)
        if name in ('real', 'pos', 'angle'):
            return lambda label, *a, **k: at(self._p + label, *a, **k)
        return at


KINDS = {'joined': {}, 'split': dict(split=True, orient=(3, 3, 3)),
         'flywheel': dict(fly=True)}


@harness('C17', 'twice', bounds=B + ', calculated after another bicycle of '
         'the same or another kind (fork and handlebar in one piece or apart, '
         'with a flywheel), and the first once more')
def twice(h):
    first = h.choice('first', sorted(KINDS))
    second = h.choice('second', sorted(KINDS))
    one = Bicycle(Named(h, 'o'), **KINDS[first])
    two = Bicycle(h, **KINDS[second])
    calc = h.mod('main').calculate_benchmark_from_measured
    par, extras = calc(one.mp)
    kept = dict(par)
    lines = {k: {p: list(x) for p, x in extras[k].items()} for k in extras}
    check(h, two)
    for k in lines:
        h.same('parts of the ' + k + ' kept', sorted(extras[k]),
               sorted(lines[k]))
        h.true(k + ' kept', all(
            len(extras[k][p]) == len(x) and
            all(a is c for a, c in zip(extras[k][p], x))
            for p, x in lines[k].items()))
    h.true('results of the first kept', list(par) == list(kept) and
           all(par[k] is kept[k] for k in kept))
    again, extras = calc(one.mp)
    h.same('parameters of the first', sorted(again), sorted(par))
    for k in sorted(one.true):
        h.eq('again ' + k, h.num(again[k]), one.true[k], tol=1e-5)
