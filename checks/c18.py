"""Oscillation periods from pendulum signals."""
import itertools
import os

from engine.harness import harness
from .common import stub, pyplot


def parameters(h):
    """offset, two amplitudes, damping ratio, natural frequency"""
    return [h.real('offset', -9, 9), h.real('A', -30, 30), h.real('B', -30, 30),
            h.real('zeta', 0.0001, 0.9), h.real('wn', 0.1, 60)]


def curve(h, p, t):
    """decaying oscillation: (value, gradient) by the chain rule through
    the decay rate and the damped frequency"""
    o, A, B, z, w = p
    r = h.sqrt(1 - z**2)
    dec, om = z * w, w * r
    e = h.exp(-dec * t)
    s, c = h.sin(om * t), h.cos(om * t)
    ddec = -t * e * (A * s + B * c)
    dom = e * t * (A * c - B * s)
    return (o + e * (A * s + B * c),
            [1, e * s, e * c, ddec * w + dom * (-w * z / r),
             ddec * z + dom * r])


@harness('C18', 'jacobian', bounds='any five fit parameters (damping ratio '
         'up to 0.5) and 1-2 arbitrary times')
def jacobian(h):
    p = parameters(h)
    n = h.choice('samples', [1, 2])
    t = [h.real('t%d' % i, 0, 3) for i in range(n)]
    J = h.mod('period').jac_fitfunc(h.arr(p), h.arr(t))
    h.eq('derivatives', J, [curve(h, p, ti)[1] for ti in t])
    if h.symbolic:
        for i, ti in enumerate(t):
            y, g = curve(h, p, ti)
            for k in range(5):
                h.eq('derivative %d %d of the curve' % (i, k),
                     h.diff(y, p[k]), g[k])


@harness('C18', 'fit', bounds='any fit result and any 7 samples; sample rate '
         'or time array; also after another record was fitted', stubs='the least squares routine returns an '
         'arbitrary fit after its residual function was checked at an '
         'arbitrary point; matrix inverse returns an arbitrary matrix after '
         'its argument was checked; start value; matplotlib recorder')
def fit(h):
    period = h.mod('period')
    n = 7
    p1 = parameters(h)
    q = [h.real('q_' + k, lo, hi) for k, lo, hi in (
        ('offset', -9, 9), ('A', -30, 30), ('B', -30, 30), ('zeta', 0.01, 0.9),
        ('wn', 0.1, 60))]
    y = h.arr([h.real('y%d' % i, -3, 3) for i in range(n)])
    kind = h.choice('time', ['rate', 'array', 'rate, after another record'])
    other = []
    if kind != 'array':
        arg, t = 4, [i / 4 for i in range(n)]
    else:
        t = [0.25 * (i + i // 3) for i in range(n)]
        arg = h.np.array(t)
    sse = h.real('sse', 0.0001, 90)
    V = [h.real('V%d' % i, 0.001, 1) for i in range(5)]
    seen = []

    def leastsq(f, p0, *a, **k):
        args = k.get('args', a[0] if a else ())
        if not isinstance(args, tuple):
            args = (args,)
        r = f(h.arr(q), *args)
        if other:
            return h.arr([0.5, 1.0, 1.0, 0.1, 5.0]), 1
        seen.append('fit')
        h.eq('residual', [h.num(x)**2 for x in r],
             [(curve(h, q, ti)[0] - yi)**2 for ti, yi in zip(t, y)])
        return h.arr(p1), 1

    def inv(H):
        H = h.np.asarray(H)
        if other:
            return h.np.eye(5)
        g = [curve(h, p1, ti)[1] for ti in t]
        h.eq('normal matrix', H, [[sum(gi[a] * gi[b] for gi in g)
                                   for b in range(5)] for a in range(5)])
        seen.append('inverse')
        return h.arr([[V[a] if a == b else h.const(0.0) for b in range(5)]
                      for a in range(5)])

    def goodness(ym, yp):
        if other:
            return 0.5, 2.0, 4.0, 2.0
        h.eq('measured signal judged', ym, y)
        h.eq('fitted signal judged', yp, [curve(h, p1, ti)[0] for ti in t])
        return h.const(0.5), sse, 2 * sse, sse

    stub(h, 'scipy.optimize.leastsq', leastsq)
    stub(h, 'numpy.linalg.inv', inv)
    h.patch(period, 'fit_goodness', goodness)
    h.patch(period, 'make_guess', lambda *a, **k: h.arr([1.0] * 5))
    pyplot(h, 'period')
    h.patch(period, 'plot_osfit', lambda t, ym, yf, p, rsq, T, **k:
            seen.append((t, ym, yf)))
    if kind == 'rate, after another record':
        # as many samples, taken twice as often
        other.append(True)
        period.get_period(h.arr([0.5 * i for i in range(n)]), 8,
                          os.path.join(h.scratch(), 'w.png'))
        del other[:], seen[:]
    T = period.get_period(y, arg, os.path.join(h.scratch(), 'x.png'))
    h.same('fitted once', seen[:2], ['fit', 'inverse'])
    h.eq('plotted', list(seen[2]), [t, y, [curve(h, p1, ti)[0]
                                           for ti in t]])
    z, w = p1[3], p1[4]
    r = h.sqrt(1 - z**2)
    h.eq('period', h.num(T), 2 * h.pi / (w * r))
    # independent errors of damping ratio and natural frequency
    var = sse / (n - 5)
    dz, dw = 2 * h.pi * z / (w * r**3), -2 * h.pi / (w**2 * r)
    h.eq('uncertainty', T.std_dev**2,
         var * (V[3] * dz**2 + V[4] * dw**2))


@harness('C18', 'plot', bounds='any signal and fit of 3 samples; own or new '
         'figure', stubs='matplotlib recorder')
def plot(h):
    period = h.mod('period')
    plt = pyplot(h, 'period')
    t, y, f = [h.arr([h.real('%s%d' % (k, i), -3, 3) for i in range(3)])
               for k in 'tyf']
    fig = None
    if h.choice('figure', ['own', 'new']) == 'own':
        fig, ax = plt.subplots()
    out = period.plot_osfit(t, y, f, [1.0, 2.0, 3.0, 0.1, 5.0], 0.9, 1.5,
                            fig=fig)
    h.true('figure returned', out is not None and
           (fig is None or out is fig))
    lines = [ln for ax in out.axes for ln in ax.lines()]
    h.true('two curves', len(lines) == 2)
    for (x, z, k), ref, nm in zip(lines, (y, f), ('signal', 'fit')):
        h.eq(nm + ' abscissa', list(x), t)
        h.eq(nm, list(z), ref)


@harness('C18', 'goodness', bounds='any 2-4 measured and predicted samples')
def goodness(h):
    n = h.choice('samples', [2, 3, 4])
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    f = [h.real('f%d' % i, -3, 3) for i in range(n)]
    m = sum(y) / n
    sst = sum((v - m)**2 for v in y)
    ssr = sum((v - m)**2 for v in f)
    h.assume(sst > h.const(0.1))
    r = h.mod('period').fit_goodness(h.arr(y), h.arr(f))
    for nm, a, b in zip(('rsq', 'SSE', 'SST', 'SSR'), r,
                        (ssr / sst, sst - ssr, sst, ssr)):
        h.eq(nm, a, b)


@harness('C18', 'truncate', bounds='any signal of 3-5 samples that exceeds '
         'the clipping level somewhere; clipping level 0.05 to 0.5, through '
         'the period routine 0.1', shards=4,
         stubs='period computation recorded')
def truncate(h):
    period = h.mod('period')
    way = h.choice('way', ['select', 'rate', 'time'])
    n = h.choice('samples', [3, 4] if h.tier == 'quick' else [3, 4, 5])
    y = [h.real('y%d' % i, -3, 3) for i in range(n)]
    m = sum(y) / n
    d = [v - m for v in y]
    pc = h.real('percent', 0.05, 0.5) if way == 'select' else h.const(0.1)
    # first sample farthest from the mean
    i0 = 0
    for i in range(1, n):
        if abs(d[i]) > abs(d[i0]):
            i0 = i
    # last sample above the level
    i1 = None
    for i in range(n):
        if d[i] > pc * abs(d[i0]):
            i1 = i
    if i1 is None:
        h.assume(False)
    got = []
    if way == 'select':
        res = period.select_good_data(h.arr(y), pc)
    else:
        def rec(data, rate, path, *a, **k):
            got.append((data, rate, path))
            return 'T'
        h.patch(period, 'get_period', rec)
        arg = 25 if way == 'rate' else h.np.array([0.1 * i for i in range(n)])
        r = period.get_period_from_truncated(h.arr(y), arg, 'some.png')
        h.same('result', r, 'T')
        h.true('rate and path passed on', len(got) == 1 and
               got[0][1] is arg and got[0][2] == 'some.png')
        res = got[0][0]
        if way == 'time':
            h.eq('not truncated', res, y)
            return
    h.eq('slice', list(res), y[i0:i1])


PARTS = {'Fwheel': 'F', 'Rwheel': 'R', 'Frame': 'B', 'Flywheel': 'D',
         'Handlebar': 'G', 'Rod': 'P'}
ORD = ['First', 'Second', 'Third', 'Fourth', 'Fifth', 'Sixth']


@harness('C18', 'start', bounds='rectangular records of any mean and four '
         'levels, of 4 half periods of 24 to 31 samples each, with or '
         'without repeated crossings; two sample rates')
def start(h):
    period = h.mod('period')
    half = h.choice('half period', [24, 27, 31])
    flicker = h.choice('flicker', [False, True])
    up = h.choice('starts', [1, -1])
    rate = h.choice('rate', [25, 250])
    off = h.real('offset', -5, 5)
    first, third, e = (h.real('first', 1, 9), h.real('third', 1, 9),
                       h.real('difference', 0, 0.5))
    mid = (first + third) / 2
    d = []
    for i, lev in enumerate((first, mid + e, third, mid - e)):
        s = up * (-1)**i
        part = [s * lev] * (half - 2 * flicker)
        if flicker and i:     # crossings close together count once
            part[:0] = [h.const(0.2 * s), h.const(-0.2 * s)]
        d += part
    p = period.make_guess(h.arr([v + off for v in d]), rate)
    h.same('five numbers', len(p), 5)
    h.eq('offset', p[0], off)
    h.eq('frequency', p[4], 2 * h.pi * rate / (2 * half))


@harness('C18', 'key', bounds='every part, pendulum and orientation; fork '
         'joined or split; rod named or not; either key of the angle')
def key(h):
    split = h.choice('split', [False, True])
    part = h.choice('part', sorted(PARTS) + ['Fork'])
    pend = h.choice('pendulum', ['Compound', 'Torsional', 'compound'])
    i = h.choice('orientation', 6)
    word = h.choice('word', ['angle', 'angleOrder'])
    rod = h.choice('rod', [None, 'Rod', 'Calibration'])
    d = {'pendulum': pend, word: ORD[i], 'part': part}
    sub = dict(PARTS, Fork='S' if split else 'H')
    if rod:
        d['rod'] = rod
        if part == 'Rod':
            d['part'] = rod
    if part == 'Handlebar' and not split:
        with h.raises('no separate handlebar', KeyError):
            h.mod('period').get_period_key(d, split)
        return
    h.same('key', h.mod('period').get_period_key(d, split),
           'T%s%s%d' % (pend[0].lower(), sub[part], i + 1))


@harness('C18', 'files', bounds='1-4 signal files of up to 3 different '
         'periods with any values, repeated trials in any order; time or '
         'sample rate, nominal or actual',
         stubs='mat file reader and period computation: arbitrary results '
         'per file')
def files(h):
    period = h.mod('period')
    n = h.choice('files', [1, 2, 3, 4])
    which = h.choice('assignment', [
        a for a in itertools.product(range(3), repeat=4)
        if a[0] == 0 and all(a[i] <= max(a[:i]) + 1 for i in range(1, 4))])
    kinds = [('Frame', 'Torsional', 'Second', 'TtB2'),
             ('Fork', 'Compound', 'First', 'TcH1'),
             ('Rwheel', 'Torsional', 'First', 'TtR1')]
    base = os.path.join(h.scratch(), 'Bike')
    raw = os.path.join(base, 'RawData')
    os.makedirs(raw)
    data, T = {}, {}
    for i in range(n):
        part, pend, o, key = kinds[which[i]]
        f = 'Bike%s%s%s%d.mat' % (part, pend, o, i + 1)
        d = {'part': part, 'pendulum': pend, 'angleOrder': o, 'notes': '',
             'data': 'signal%d' % i}
        d.update([{'sampleRate': 100 + i, 'ActualRate': 200 + i},
                  {'sampleRate': 100 + i},
                  {'time': 'times%d' % i}][i % 3])
        data[os.path.join(raw, f)] = d
        T[i] = (key, h.ufloat(h.real('T%d' % i, 0.01, 90), h.const(0.01)))
    calls = []

    def get(sig, rate, plot, *a, **k):
        i = int(sig[6:])
        calls.append(i)
        want = [200 + i, 100 + i, 'times%d' % i][i % 3]
        h.same('time base of file %d' % i, rate, want)
        h.same('folder of the plot', os.path.dirname(plot),
               os.path.join(base, 'Plots', 'PendulumFit'))
        return T[i][1]
    h.patch(period, 'load_pendulum_mat_file', lambda p: dict(data[p]))
    h.patch(period, 'get_period_from_truncated', get)
    got = period.calc_periods_for_files(
        raw, [os.path.basename(k) for k in data], False)
    h.same('each file once', sorted(calls), list(range(n)))
    keys = sorted({T[i][0] for i in range(n)})
    h.same('keys', sorted(got), keys)
    for k in keys:
        v = [T[i][1] for i in range(n) if T[i][0] == k]
        h.eq(k, h.num(got[k]), sum(h.num(x) for x in v) / len(v))
    h.same('plot folder', os.listdir(os.path.join(base, 'Plots')),
           ['PendulumFit'])


@harness('C18', 'needed', bounds='every single and every neighbouring pair of missing periods '
         'of joined and split bicycles with 3-4 orientations; unrelated '
         'entries')
def needed(h):
    split = h.choice('split', [False, True])
    orient = h.choice('orientations', [3, 4])
    parts = 'BSG' if split else 'BH'
    mp = {'mB': 1.0, 'mS' if split else 'mH': 1.0}
    need = ['TtP1', 'TtF1', 'TtR1', 'TcF1', 'TcR1']
    for p in parts:
        need.append('Tc%s1' % p)
        for i in range(orient):
            mp['alpha%s%d' % (p, i + 1)] = mp['a%s%d' % (p, i + 1)] = 1.0
            need.append('Tt%s%d' % (p, i + 1))
    fly = h.choice('flywheel', [False, True])
    if fly:
        mp['mD'] = 1.0
        mp['TcD1'] = mp['TtD1'] = 1.0
    a = h.choice('missing', [None] + need)
    b = need[need.index(a) - 1] if a and h.choice('two', [False, True]) \
        else None
    for k in need:
        if k not in (a, b):
            mp[k] = h.real(k, 0.5, 5) if k == 'TtP1' else 1.0
    keep = dict(mp)
    h.same('recalculation wanted',
           bool(h.mod('period').check_for_period(mp, split)), a is not None)
    h.same('untouched', list(mp), list(keep))
