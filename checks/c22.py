"""Life of a bicycle object: loading, calculating, rider, saving."""
import os

from engine.harness import harness
from .c08 import Eig, check_one
from .c19 import text
from .common import BENCH, HOW, bench, canonical_reference, uncertain

ZERO = ('c', 'v')


class World:
    """a data folder of one bicycle; numbers are written as text"""

    def __init__(self, h, name='Bike'):
        self.h, self.name = h, name
        self.root = os.path.join(h.scratch(), 'data')
        self.dir = os.path.join(self.root, 'bicycles', name)
        os.makedirs(self.dir)
        self.main = h.mod('main')
        self.input = []
        h.patch(h.mod('io'), 'input', lambda *a: self.input.pop(0))

    def write(self, path, par, std=None):
        h = self.h
        path = os.path.join(self.root, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            for k, v in par.items():
                f.write('%s = %s%s\n' % (k, signed(h, v),
                                         '' if std is None else '+/-%s' %
                                         std))

    def bike_file(self, kind='Benchmark'):
        return os.path.join('bicycles', self.name, 'Parameters',
                            self.name + kind + '.txt')

    def raw_file(self):
        return os.path.join('bicycles', self.name, 'RawData',
                            self.name + 'Measured.txt')

    def rider_file(self, rider):
        return os.path.join('riders', rider, 'Parameters',
                            rider + self.name + 'Benchmark.txt')

    def load(self, **k):
        return self.main.Bicycle(self.name, pathToData=self.root, **k)

    def tree(self):
        out = []
        for d, _, fs in os.walk(self.root):
            out += [os.path.relpath(os.path.join(d, f), self.root)
                    for f in fs]
        return sorted(out)

    def read(self, path):
        with open(os.path.join(self.root, path)) as f:
            return f.read()


def signed(h, v):
    return text(h, v)


def some(h, prefix='p', n=3):
    return {k: h.real(prefix + k, 0.1, 5) for k in ('mB', 'xB', 'TtB1')[:n]}


def same(h, tag, got, want, tol=1e-9):
    h.same(tag + ' names', sorted(got), sorted(want))
    for k in want:
        h.eq('%s %s' % (tag, k), h.num(got[k]), h.num(want[k]), tol=tol)


@harness('C22', 'load', bounds='any parameter values; benchmark file alone, '
         'with other parameter sets, with measurements; without forcing')
def load(h):
    w = World(h)
    std = h.choice('uncertain', [None, '0.01'])
    files = h.choice('files', [('Benchmark',), ('Benchmark', 'Other'),
                               ('Moore', 'Benchmark', 'Other')])
    raw = h.choice('raw', ['none', 'folder', 'file'])
    periods = h.choice('force periods', [False, True])
    P = {}
    for i, k in enumerate(files):
        P[k] = some(h, k)
        w.write(w.bike_file(k), P[k], std)
    if raw == 'folder':
        os.makedirs(os.path.join(w.dir, 'RawData'))
    if raw == 'file':
        P['Measured'] = some(h, 'meas')
        w.write(w.raw_file(), P['Measured'])
    before = [(f, w.read(f)) for f in w.tree()]
    b = w.load(forcePeriodCalc=periods)
    h.same('sets', sorted(b.parameters), sorted(P))
    for k in P:
        same(h, k, b.parameters[k], P[k])
    if std:
        h.true('uncertainty', abs(b.parameters['Benchmark']['mB'].std_dev -
                                  h.const(0.01)) < h.const(1e-9))
    h.true('no rider', b.hasRider is False)
    h.true('nobody', str(b) == 'Bike with no one on board.')
    h.same('files untouched', [(f, w.read(f)) for f in w.tree()], before)


@harness('C22', 'absent', bounds='bicycle without a folder; nothing to force',
         noreach=True)
def absent(h):
    w = World(h)
    with h.raises('refused', ValueError):
        w.main.Bicycle('Other', pathToData=w.root)
    h.same('nothing created', os.listdir(os.path.dirname(w.dir)), ['Bike'])


def calculation(h, w, seen):
    """benchmark calculation replaced by one that records its input"""
    res = some(h, 'res')

    def calc(mp):
        seen.append(dict(mp))
        return dict(res), {'slopes': 'x'}
    h.patch(w.main, 'calculate_benchmark_from_measured', calc)
    return res


NEED = ['TcB1', 'TcF1', 'TcR1', 'TcH1', 'TtB1', 'TtF1', 'TtR1', 'TtH1',
        'TtP1']


@harness('C22', 'calculate', bounds='any measured values and periods; '
         'benchmark file present or not, calculation or periods forced or '
         'not; every needed period missing; signal files present or not',
         stubs='period calculation and benchmark calculation return '
         'arbitrary results (C18, C17)')
def calculate(h):
    w = World(h)
    force = h.choice('force', [False, True])
    isb = h.choice('benchmark file', [False, True]) if force else False
    fp = h.choice('force periods', [False, True])
    miss = h.choice('missing', [None, 'TtB1', 'TcH1', 'TtP1'])
    mats = h.choice('signal files', [0, 1, 2])
    seen, asked = [], []
    res = calculation(h, w, seen)
    m = {k: h.real('m_' + k, 0.5, 5) for k in NEED + ['mB', 'mH', 'w']
         if k != miss}
    m['alphaB1'], m['alphaH1'] = h.real('alphaB1', 10, 80), \
        h.real('alphaH1', 10, 80)
    w.write(w.raw_file(), m)
    for n in range(mats):
        open(os.path.join(w.dir, 'RawData', 'Bike%d.mat' % (mats - n)),
             'w').close()
    if isb:
        w.write(w.bike_file(), some(h, 'old'))
    new = {'TtB1': h.real('n_TtB1', 0.5, 5), 'TcH1': h.real('n_TcH1', 0.5, 5)}
    if miss == 'TtP1':
        new = {'TtP1': h.real('n_TtP1', 0.5, 5)}

    def calc(folder, files, split):
        asked.append((folder, list(files), split))
        return dict(new)
    h.patch(h.mod('period'), 'calc_periods_for_files', calc)
    b = w.load(forceRawCalc=force, forcePeriodCalc=fp)
    want = dict(m)
    if fp or miss:
        want.update(new)
        h.true('periods calculated once', len(asked) == 1)
        h.same('from the raw data folder', asked[0][0],
               os.path.join(w.dir, 'RawData'))
        h.same('all signal files in order', asked[0][1],
               ['Bike%d.mat' % (i + 1) for i in range(mats)])
        h.true('joined fork', asked[0][2] is False)
    else:
        h.same('periods not calculated', asked, [])
    h.true('calculated once', len(seen) == 1)
    same(h, 'used', seen[0], want)
    same(h, 'measured', b.parameters['Measured'], want)
    same(h, 'benchmark', b.parameters['Benchmark'], res)
    io = h.mod('io')
    same(h, 'file', io.load_parameter_text_file(
        os.path.join(w.root, w.raw_file())), want)
    h.true('extras', b.extras == {'slopes': 'x'})


@harness('C22', 'recalculate', bounds='any measured values and periods, '
         'measured again and the file rewritten once or twice, fork and '
         'handlebar apart or in one piece, periods forced or missing in '
         'between; another bicycle calculated in between',
         stubs='period calculation and benchmark calculation return '
         'arbitrary results (C18, C17)')
def recalculate(h):
    w = World(h)
    kinds = h.choice('measurements', [('joined', 'joined'),
                                      ('joined', 'split', 'joined'),
                                      ('split', 'joined'),
                                      ('split', 'split')])
    other = h.choice('other', [False, True])
    force = h.choice('force', [(False, False, False), (False, True, False),
                               (True, False, True)])
    miss = h.choice('missing', [None, 0, 1])
    seen, asked = [], []
    res = calculation(h, w, seen)

    def calc(folder, files, split):
        asked.append((folder, list(files), split))
        return {'TtR1': h.real('TtR1 %d' % len(asked), 0.5, 5)}
    h.patch(h.mod('period'), 'calc_periods_for_files', calc)
    io = h.mod('io')
    b = None
    for n, kind in enumerate(kinds):
        names = [k for k in NEED if k[2] != 'H'] + ['mB', 'w'] + (
            ['TcH1', 'TtH1', 'mH'] if kind == 'joined' else
            ['TcS1', 'TtS1', 'TcG1', 'TtG1', 'mS', 'mG'])
        m = {k: h.real('%s %d' % (k, n), 0.5, 5) for k in names}
        if miss == n:
            del m['TtR1']
        w.write(w.raw_file(), m)
        if b is None:
            b = w.load(forceRawCalc=True, forcePeriodCalc=force[n])
        else:
            got, extras = b.calculate_from_measured(
                forcePeriodCalc=force[n])
            same(h, 'result', got, res)
        if force[n] or miss == n:
            m['TtR1'] = h.real('TtR1 %d' % len(asked), 0.5, 5)
            h.same('fork', asked[-1][2], kind == 'split')
        same(h, 'used', seen[-1], m)
        same(h, 'measured', b.parameters['Measured'], m)
        same(h, 'file', io.load_parameter_text_file(
            os.path.join(w.root, w.raw_file())), m)
        if other and n == 0:
            os.makedirs(os.path.join(w.root, 'bicycles', 'Next'))
            q = {k: h.real('q' + k, 0.5, 5) for k in NEED}
            w.write(w.raw_file().replace('Bike', 'Next'), q)
            nx = w.main.Bicycle('Next', pathToData=w.root, forceRawCalc=True)
            same(h, 'used for the other', seen[-1], q)
            same(h, 'measured of the other', nx.parameters['Measured'], q)
            same(h, 'kept', b.parameters['Measured'], m)
    h.true('as often as asked', len(seen) == len(kinds) + other)


@harness('C22', 'save', bounds='any values; 1-3 parameter sets, measured ones '
         'present or not; new files, or existing ones with or without '
         'consent')
def save(h):
    w = World(h)
    sets = h.choice('sets', [('Benchmark',), ('Benchmark', 'Other'),
                             ('Moore', 'Benchmark', 'Other')])
    raw = h.choice('raw', [False, True])
    P = {k: some(h, k) for k in sets}
    w.write(w.bike_file(), P['Benchmark'])
    if raw:
        w.write(w.raw_file(), some(h, 'meas'))
    b = w.load()
    for k in sets:
        b.parameters[k] = dict(P[k], mB=h.real('new' + k, 0.1, 5))
    answer = h.choice('overwrite', ['y', 'n'])
    w.input.append(answer)
    b.save_parameters()
    files = [w.bike_file(k) for k in sets] + [w.raw_file()] * raw
    h.same('files', w.tree(), sorted(files))
    h.same('asked once', w.input, [])
    again = w.load()
    for k in sets:
        ref = b.parameters[k]
        if k == 'Benchmark' and answer == 'n':
            ref = P[k]
        same(h, 'reloaded ' + k, again.parameters[k], ref, tol=1e-12)
    with h.raises('other types refused', NotImplementedError):
        b.save_parameters(filetype=h.choice('type', ['matlab', 'pickle']))
    h.same('nothing else written', w.tree(), sorted(files))


def rigid_rider(h):
    r = {'mB': h.real('r_m', 20, 120), 'xB': h.real('r_x', 0.1, 1),
         'zB': h.real('r_z', -2, -0.5)}
    for k, lo, hi in (('xx', 1, 20), ('yy', 1, 20), ('zz', 0.5, 10),
                      ('xz', -5, -0.1)):
        r['IB' + k] = h.real('r_' + k, lo, hi)
    return r


def joint(h, p, r):
    """frame and rider as one body"""
    about = lambda q: (q['IBxx'] + q['mB'] * q['zB']**2,
                       q['IBzz'] + q['mB'] * q['xB']**2,
                       q['IByy'] + q['mB'] * (q['xB']**2 + q['zB']**2),
                       q['IBxz'] - q['mB'] * q['xB'] * q['zB'])
    m = p['mB'] + r['mB']
    o = {'mB': m}
    for k in 'xz':
        o[k + 'B'] = (p['mB'] * p[k + 'B'] + r['mB'] * r[k + 'B']) / m
    z = about(dict(o, IBxx=0, IBzz=0, IByy=0, IBxz=0))
    for i, k in enumerate(('xx', 'zz', 'yy', 'xz')):
        o['IB' + k] = about(p)[i] + about(r)[i] - z[i]
    return dict(p, **o)


BODY = ('mB', 'xB', 'zB', 'IBxx', 'IByy', 'IBzz', 'IBxz', 'w', 'g')


@harness('C22', 'rider', bounds='any frame and rider inertia; rider read from '
         'file, then a second rider, saved and loaded again',
         stubs='rider configuration must not be asked')
def rider(h):
    w = World(h)
    p = {k: v for k, v in bench(h).items() if k in BODY}
    r = rigid_rider(h)
    w.write(w.bike_file(), p)
    w.write(w.rider_file('Jane'), r)
    r2 = dict(r, mB=r['mB'] + 1)
    w.write(w.rider_file('Zoe'), r2)
    before = [(f, w.read(f)) for f in w.tree()]
    R = h.mod('rider')

    def no(*a, **k):
        raise RuntimeError('rider configuration asked')
    h.patch(R, 'configure_rider', no)
    b = w.load()
    b.add_rider('Jane')
    want = joint(h, p, r)
    par = {k: b.parameters['Benchmark'][k] for k in want}
    same(h, 'with rider', par, want)
    same(h, 'rider', b.riderPar['Benchmark'], r)
    h.true('state', b.hasRider is True and b.riderName == 'Jane' and
           b.human is None and str(b) == 'Bike with Jane on board.')
    # a second rider does not fit
    for who, kw in h.choice('second', [
            [('Jane', {})], [('Zoe', {})], [('Zoe', {'reCalc': True})],
            [('Zoe', {'draw': True}), ('Jane', {}), ('Zoe', {})]]):
        b.add_rider(who, **kw)
    same(h, 'still', {k: b.parameters['Benchmark'][k] for k in want}, want)
    h.same('same rider', b.riderName, 'Jane')
    h.same('files untouched', [(f, w.read(f)) for f in w.tree()], before)
    # saved next to the rider, the bicycle's own file stays
    answer = h.choice('overwrite', ['y', 'n'])
    w.input.append(answer)
    b.save_parameters()
    comb = os.path.join('riders', 'Jane', 'Parameters', 'Combined',
                        'JaneBikeBenchmark.txt')
    h.same('files', w.tree(), sorted([f for f, _ in before] + [comb]))
    h.same('bicycle file kept', w.read(w.bike_file()),
           dict(before)[w.bike_file()])
    io = h.mod('io')
    got = io.load_parameter_text_file(os.path.join(w.root, comb))
    same(h, 'combined file', {k: got[k] for k in want}, want)
    same(h, 'rider file', io.load_parameter_text_file(
        os.path.join(w.root, w.rider_file('Jane'))), r)
    # and a fresh bicycle starts without rider
    c = w.load()
    h.true('fresh one has no rider', c.hasRider is False)
    same(h, 'fresh', c.parameters['Benchmark'], p)


@harness('C22', 'configure', bounds='rider without parameter file, or '
         'recalculation or drawing asked; measurements present or not',
         stubs='rider configuration returns arbitrary results')
def configure(h):
    w = World(h)
    p, r, c = some(h, 'p'), some(h, 'r'), some(h, 'c')
    w.write(w.bike_file(), p)
    have = h.choice('rider file', [False, True])
    re_ = h.choice('recalculate', ['no', 'recalc', 'draw'])
    meas = h.choice('measured', [False, True])
    if have:
        if re_ == 'no':
            return
        w.write(w.rider_file('Jane'), some(h, 'f'))
    m = some(h, 'm')
    if meas:
        w.write(w.raw_file(), m)
    b = w.load()
    asked = []

    def conf(path, bike, bp, mp, draw):
        asked.append((path, bike, dict(bp), dict(mp), draw))
        return r, 'human', c
    h.patch(h.mod('rider'), 'configure_rider', conf)
    kw = {'no': {}, 'recalc': {'reCalc': True}, 'draw': {'draw': True}}[re_]
    if not meas:
        with h.raises('measurements needed', KeyError):
            b.add_rider('Jane', **kw)
        h.true('no rider added', b.hasRider is False)
        same(h, 'unchanged', b.parameters['Benchmark'], p)
        return
    b.add_rider('Jane', **kw)
    h.true('configured once', len(asked) == 1)
    h.same('folder', asked[0][0], os.path.join(w.root, 'riders', 'Jane'))
    h.same('bicycle', asked[0][1], 'Bike')
    same(h, 'given bicycle', asked[0][2], p)
    same(h, 'given measurements', asked[0][3], m)
    h.true('draw', asked[0][4] is (re_ == 'draw'))
    h.true('results kept', b.riderPar['Benchmark'] is r and
           b.parameters['Benchmark'] is c and b.human == 'human' and
           b.hasRider and b.riderName == 'Jane')


def object_with(h, par):
    """a bicycle object with given benchmark parameters"""
    def make():
        w = World(h)
        w.write(w.bike_file(), {'mB': h.const(1.0)})
        return w.load()
    b = h.keep('bicycle', make)
    b.parameters['Benchmark'] = par
    return b


def equations(h, b, R, g, v, kw):
    A, B = b.state_space(v, **kw)
    num = lambda a: [[h.num(a[i, j]) for j in range(a.shape[1])]
                     for i in range(a.shape[0])]
    A, B = num(A), num(B)
    M, C, K0, K2 = R
    for i in range(2):
        for j in range(4):
            h.eq('kinematics %d %d' % (i, j), A[i][j], 1 if j == i + 2
                 else 0)
        for j in range(2):
            h.eq('position %d %d' % (i, j),
                 sum(M[i][k] * A[2 + k][j] for k in range(2)),
                 -g * K0[i][j] - v**2 * K2[i][j], tol=1e-6)
            h.eq('rate %d %d' % (i, j),
                 sum(M[i][k] * A[2 + k][2 + j] for k in range(2)),
                 -v * C[i][j], tol=1e-6)
            h.eq('input %d %d' % (i, j),
                 sum(M[i][k] * B[2 + k][j] for k in range(2)),
                 1 if i == j else 0, tol=1e-6)
            h.eq('no input %d %d' % (i, j), B[i][j], 0)


@harness('C22', 'uncertain_states', bounds='arbitrary canonical matrices with '
         'uncertainties, any speed and gravity', stubs='canonical matrices '
         'are arbitrary (decided above)')
def uncertain_states(h):
    nominal = h.choice('nominal', [None, False, True])
    kw = {} if nominal is None else {'nominal': nominal}
    R = [[[h.real('%s%d%d' % (n, i, j), *((3, 9) if i == j and n == 'M' else
                                          (-2, 2))) for j in range(2)]
          for i in range(2)] for n in ('M', 'C', 'K', 'L')]
    g, v = h.real('g', 1, 20), h.real('v', -9, 9)
    b = object_with(h, {'g': h.ufloat(g, h.const(0.01))})
    keep = b.parameters['Benchmark']
    given = []

    def canonical(par):
        h.true('own parameters', par['g'] is keep['g'])
        given.append(tuple([[h.ufloat(x, h.const(0.001)) for x in row]
                            for row in m] for m in R))
        return tuple(h.np.array(m, dtype=object) for m in given[-1])
    h.patch(h.mod('bicycle'), 'benchmark_par_to_canonical', canonical)
    equations(h, b, R, g, v, kw)
    A, B = b.state_space(v, **kw)
    if nominal:
        h.true('plain', not any(hasattr(x, 'std_dev') for a in (A, B)
                                for x in a.ravel().tolist()))
        return
    # the errors of the result are those of the matrices, so that none is
    # left in the equation of motion
    h.true('uncertain', all(hasattr(x, 'std_dev') for a in (A, B)
                            for x in a[2:].ravel().tolist()))
    M, C, K0, K2 = given[-1]
    for i in range(2):
        for j in range(2):
            for nm, x in (('position', sum(M[i][k] * A[2 + k, j]
                                           for k in range(2)) +
                           keep['g'] * K0[i][j] + v**2 * K2[i][j]),
                          ('rate', sum(M[i][k] * A[2 + k, 2 + j]
                                       for k in range(2)) + v * C[i][j]),
                          ('input', sum(M[i][k] * B[2 + k, j]
                                        for k in range(2)))):
                h.eq('error of %s %d %d' % (nm, i, j), x.std_dev**2, 0)


@harness('C22', 'matrices', bounds='any benchmark parameters as numbers or '
         'numbers with uncertainty, partly or wholly, any speed')
def matrices(h):
    p = bench(h)
    unc = h.choice('uncertain', HOW)
    nominal = h.choice('nominal', [None, False, True])
    v = p.pop('v')
    par = uncertain(h, p, unc)
    b = object_with(h, par)
    kw = {} if nominal is None else {'nominal': nominal}
    R = canonical_reference(h, p)
    got = b.canonical(**kw)
    for n, a, r in zip(('M', 'C1', 'K0', 'K2'), got, R):
        h.eq(n, a, r, tol=1e-6)
    if nominal:
        h.true('plain', not any(hasattr(x, 'std_dev')
                                for a in got for x in a.ravel().tolist()))
    if unc == 'none':
        equations(h, b, R, p['g'], v, kw)
    with h.raises('nominal is a truth value', ValueError):
        b.canonical(nominal='yes')


@harness('C22', 'current', bounds='two bicycles with any parameters evaluated '
         'in turn, one parameter of the first changed in between, numbers or '
         'numbers with uncertainty')
def current(h):
    k = h.choice('key', ['g', 'mB', 'IFyy', 'c'])
    unc = h.choice('uncertain', ['none', 'all'])
    p, q = bench(h, skip=('v',)), bench(h, skip=('v',), prefix='q_')
    one, two = [object_with(h, uncertain(h, x, unc)) for x in (p, q)]
    v = h.real('v', -30, 30)

    def check(tag, b, x):
        R = canonical_reference(h, x)
        for n, a, r in zip(('M', 'C1', 'K0', 'K2'), b.canonical(
                nominal=True), R):
            h.eq(tag + n, a, r, tol=1e-6)
        if unc == 'none':
            equations(h, b, R, x['g'], v, {'nominal': True})
    check('first ', one, p)
    check('second ', two, q)
    new = h.real('new', 0.05, 4)
    one.parameters['Benchmark'][k] = new if unc == 'none' else \
        h.ufloat(new, h.const(0.01))
    check('changed ', one, dict(p, **{k: new}))
    check('second again ', two, q)


@harness('C22', 'eig', bounds='any benchmark parameters as numbers or numbers '
         'with uncertainty; one speed (float or integer) or 1-3 speeds as '
         'list, tuple or array', stubs='numpy.linalg.eig: arbitrary result',
         concolic=False)
def eig(h):
    p = bench(h)
    p.pop('v')
    par = uncertain(h, p, h.choice('uncertain', HOW))
    b = object_with(h, par)
    form = h.choice('speeds', ['float', 'int', 'list', 'tuple', 'array',
                               'one'])
    v = [h.real('v%d' % i, 0.5, 9) for i in range(3)]
    sp = {'float': v[0], 'int': 4, 'list': list(v), 'tuple': tuple(v[:2]),
          'array': h.arr(v), 'one': [v[1]]}[form]
    vs = {'float': v[:1], 'int': [4], 'list': v, 'tuple': v[:2], 'array': v,
          'one': [v[1]]}[form]
    e = Eig(h)
    h.ext('numpy.linalg.eig', e)
    w, V = b.eig(sp)
    h.true('shapes', w.shape == (len(vs), 4) and
           V.shape == (len(vs), 4, 4))
    from .c02 import eom
    for i, vi in enumerate(vs):
        q = dict(p, v=vi)
        A = state_matrix(h, q)
        check_one(h, '%d ' % i, e, A, w[i], V[i], False)


def state_matrix(h, p):
    M, C, K0, K2 = canonical_reference(h, p)
    det = M[0][0] * M[1][1] - M[0][1] * M[1][0]
    Mi = [[M[1][1] / det, -M[0][1] / det], [-M[1][0] / det, M[0][0] / det]]
    v, g = p['v'], p['g']
    A = [[h.const(0.0)] * 4 for _ in range(4)]
    A[0][2] = A[1][3] = h.const(1.0)
    for i in range(2):
        for j in range(2):
            A[2 + i][j] = -sum(Mi[i][k] * (g * K0[k][j] + v**2 * K2[k][j])
                               for k in range(2))
            A[2 + i][2 + j] = -sum(Mi[i][k] * v * C[k][j] for k in range(2))
    return h.arr(A)
