"""Figures of model results show the model's own numbers."""
from fractions import Fraction

from engine.harness import harness
from engine import shims
from .common import stub, pyplot, bench, P27
from .c04 import GAINS
from .c05 import Root, point, build as build_lean
from .c06 import model
from .c08 import Eig
from .c09 import Ivp, law


def ysets(ax):
    """every drawn curve: list of (x list, y list)"""
    return [(x, y) for x, y, k in ax.lines()]


def deg(h, x):
    return x * 180 / h.pi


class Given(Eig):
    """eig stand-in returning the given values"""

    def __init__(self, h, vals):
        Eig.__init__(self, h)
        self.vals = vals

    def __call__(self, a):
        k = len(self.calls)
        w, v = self.vals[k % len(self.vals)]
        self.calls.append((a.copy(), w, v))
        return w, v


def cnum(h, re, im):
    if h.symbolic:
        from engine import sym as S
        return S.CSym(S.lift(re), S.lift(im))
    return complex(float(re), float(im))


@harness('C10', 'eigenvalue_parts', bounds='arrays of two parameter values, '
         'arbitrary eigenvalues; with and without sorting, own axes, own '
         'colors, hidden zeros', stubs='eig: arbitrary result; matplotlib '
         'replaced by a recorder', concolic=False, feas_ms=100, shards=5)
def eigenvalue_parts(h):
    mode = h.choice('mode', ['plain', 'region', 'colors', 'hide', 'ax',
                             'region and hide', 'twelve'])
    key = h.choice('key', ['v', 'mB'] if mode == 'plain' else ['v'])
    m, p = model(h, 'lean' if mode == 'twelve' else 'plain')
    plt = pyplot(h, 'models')
    xs = [h.real('x%d' % i, -30, 30) for i in range(2)]
    a, b = h.real('a', -3, 3), h.real('b', -3, 3)
    c, d = h.real('c', -3, 3), h.real('d', -3, 3)
    region, hide = mode in ('region', 'twelve') or 'and' in mode, \
        'hide' in mode
    if region:
        # the stable region depends on the real parts only
        c, d = 3, -3
    R = [[a, -1, Fraction(-1, 2), -2], [-1, -2, b, Fraction(-1, 4)]]
    I = [[2, -2, 0, c], [1, -1, d, 0]]
    n = 4
    if mode == 'twelve':
        # the modes that decide are not among the first ones
        n = 12
        R = [[-1] * 4 + row[2:] + [Fraction(-1, 8)] * 4 + row[:2]
             for row in R]
        I = [row * 3 for row in I]
    one = [[h.const(int(r == c)) for c in range(n)] for r in range(n)]
    vals = [(h.arr([cnum(h, R[i][j], I[i][j]) for j in range(n)]),
             h.arr(one)) for i in range(2)]
    stub(h, 'numpy.linalg.eig', Given(h, vals))
    kw = {'sort_modes': False, 'show_stable_regions': region}
    ax = None
    if mode == 'colors':
        kw['colors'] = ['r', 'g', 'b', 'k']
    if hide:
        kw['hide_zeros'] = 0.3
    if mode == 'ax':
        ax = kw['ax'] = h.ax()
    got = m.plot_eigenvalue_parts(**kw, **{key: h.arr(xs)})
    if ax is not None:
        h.true('drawn on the given axes', got is ax)
    lines = ysets(got)
    h.true('two lines per mode', len(lines) == 2 * n)

    def shown(x):
        # zeros hidden below the tolerance
        return not hide or bool(abs(x) >= h.const(0.3))
    for j in range(n):
        for i in range(2):
            for off, val in ((0, abs(I[i][j])), (n, R[i][j])):
                x, y = lines[j + off]
                h.eq('abscissa', x[i], xs[i])
                nm = 'mode %d %s' % (j, 'imaginary' if off == 0 else 'real')
                if shown(val):
                    h.eq(nm, y[i], val)
                else:
                    h.true(nm + ' hidden', bool(y[i] != y[i]))
    if region:
        f = got.named('fill_between')
        h.true('one region', len(f) == 1)
        args, kws = f[0]
        h.eq('region abscissa', list(args[0]), xs)
        lo, hi = [args[k] if len(args) > k else kws['y%d' % k]
                  for k in (1, 2)]
        h.true('region has a height', bool(lo < hi))
        for i in range(2):
            h.true('region %d' % i, bool(kws['where'][i]) ==
                   all(bool(h.const(0) >= r) for r in R[i]))


@harness('C10', 'sorted', bounds='1-5 parameter values in one or two arrays, '
         'modes that stay apart and come in any of several orders, each '
         'moving by an arbitrary amount; default options, own colors, hidden '
         'zeros', concolic=False, feas_ms=100, shards=4, stubs='as above')
def ordered(h):
    mode = h.choice('mode', ['default', 'colors', 'hide', 'one', 'two arrays',
                             'five'])
    n = {'one': 1, 'five': 5}.get(mode, 3)
    m, p = model(h, 'plain')
    pyplot(h, 'models')
    e = h.real('e', -0.4, 0.4)
    f = h.real('f', -0.4, 0.4)
    base = [(-9, 0), (-3, 4), (-3, -4), (6, 0)]
    turns = [(0, 1, 2, 3), (2, 0, 3, 1), (3, 2, 1, 0), (1, 3, 0, 2),
             (0, 2, 1, 3)]
    first = h.choice('first', 3)
    true, vals = [], []
    for i in range(n):
        t = Fraction(i, 8)
        row = [(base[0][0] + e * i / 4, h.const(0)),
               (base[1][0] + t, base[1][1] + f),
               (base[2][0] + t, base[2][1] - f),
               (base[3][0] + (f if i % 2 else e), h.const(0))]
        if mode == 'hide':
            row[3] = (h.const(0), h.const(0))
        true.append(row)
        turn = turns[(first + i) % len(turns)]
        one = [[h.const(int(r == c)) for c in range(4)] for r in range(4)]
        vals.append((h.arr([cnum(h, *row[k]) for k in turn]), h.arr(one)))
    order = turns[first % len(turns)]
    stub(h, 'numpy.linalg.eig', Given(h, vals))
    xs = [h.real('x0', -30, 0)]
    for i in range(1, n):
        xs.append(xs[-1] + h.real('dx%d' % i, 0.1, 9))
    kw, over, label = {}, {'v': h.arr(xs)}, 'v'
    if mode == 'two arrays':
        over = {'mB': h.arr(xs), 'v': h.arr([h.real('v%d' % i, -9, 9)
                                             for i in range(n)])}
        if h.choice('swap', [False, True]):
            over = dict(reversed(list(over.items())))
    if mode == 'colors':
        kw['colors'] = ['r', 'g', 'b', 'k']
    if mode == 'hide':
        kw['hide_zeros'] = True
    ax = m.plot_eigenvalue_parts(**kw, **over)
    if mode == 'two arrays':
        # the abscissa is the one the axis names
        (name,), = [a for a, _ in ax.named('set_xlabel')]
        key, = [k for k in over
                if '$%s$' % m.parameter_set.par_strings[k] == name]
        xs = list(over[key])
    lines = ax.lines()
    h.true('two lines per mode', len(lines) == 8)
    shown = []
    for j in range(4):
        k = order[j]
        cols = set()
        for off, part in ((0, 1), (4, 0)):
            x, y, style = lines[j + off]
            cols.add(style['color'])
            h.eq('abscissa', list(x), xs)
            for i in range(n):
                want = true[i][k][part]
                if part == 1 and k == 2:
                    want = -want
                nm = 'mode %d %s' % (k, 'imaginary' if part else 'real')
                if mode == 'hide' and (part == 1 and k in (0, 3) or k == 3):
                    h.true(nm + ' hidden', bool(y[i] != y[i]))
                else:
                    h.eq(nm, y[i], want)
        h.true('both parts of a mode in one color', len(cols) == 1)
        shown += cols
    h.true('each mode in its own color', len(set(shown)) == 4)
    if mode == 'colors':
        h.same('given colors', shown, ['r', 'g', 'b', 'k'])
    (args, kws), = ax.named('fill_between')
    h.eq('region abscissa', list(args[0]), xs)
    h.true('never stable', not any(map(bool, kws['where'])) or
           mode == 'hide')


@harness('C10', 'eigenvectors', bounds='scalar parameters or arrays of two '
         'values, arbitrary eigenvectors (nonzero); modes of zero '
         'eigenvalues hidden or not', concolic=False,
         stubs='eig and matplotlib as above', feas_ms=50, shards=3)
def eigenvectors(h):
    n = h.choice('values', [0, 1, 2])
    col = h.choice('column', 4)
    m, p = model(h, 'plain')
    plt = pyplot(h, 'models')
    vals = []
    modes, kw = list(range(4)), {}
    if col == 2:
        # modes of (nearly) zero eigenvalues are left out when asked
        tol = h.choice('hide', [True, 0.06])
        modes, kw = h.choice('zero', [([0, 1, 3], {'hide_zeros': tol}),
                                      ([2, 3], {'hide_zeros': tol}),
                                      ([0, 1, 2, 3], {})])
    for k in range(max(n, 1)):
        w = h.arr([spread(h, j + k) if j in modes else
                   cnum(h, 0 if tol is True else 0.05, 0)
                   for j in range(4)])
        V = [[cnum(h, Fraction(r - 2 * j + k, 3), Fraction(r * j + 1, 4))
              for j in range(4)] for r in range(4)]
        if k == n - 1 or n == 0:
            V[1][col] = cnum(h, h.real('p', -2, 2), h.real('q', -2, 2))
        vals.append((w, h.arr(V)))
    stub(h, 'numpy.linalg.eig', Given(h, vals))
    if n:
        kw['v'] = h.arr([h.real('x%d' % i, -30, 30) for i in range(n)])
    axes = m.plot_eigenvectors(**kw)
    h.true('grid', axes.shape == (max(n, 1), len(modes)))
    for k in range(max(n, 1)):
        w, V = vals[k]
        for i, j in enumerate(modes):
            ls = ysets(axes[k, i])
            h.true('four components', len(ls) == 4)
            titled(h, axes[k, i], w[j])
            r2 = [V[r, j].real**2 + V[r, j].imag**2 for r in range(4)]
            for r in range(4):
                th, rad = ls[r][0], ls[r][1]
                h.eq('from the origin', [th[0], rad[0]], [0, 0])
                # radius/angle reproduce the component up to the common
                # scale of the largest one
                h.le('radius at most one', rad[1], 1)
                for q in range(4):
                    o = ls[q][1][1]
                    h.eq('relative size', rad[1]**2 * r2[q], o**2 * r2[r])
                h.eq('direction', rad[1] * (h.cos(th[1]) * V[r, j].imag -
                     h.sin(th[1]) * V[r, j].real), 0, tol=1e-6)
                h.le('sense', 0, rad[1] * (h.cos(th[1]) * V[r, j].real +
                     h.sin(th[1]) * V[r, j].imag))
            h.true('largest has radius one', any(
                bool(ls[r][1][1] >= h.const(1) - h.const(1e-9))
                for r in range(4)))


def spread(h, j):
    """distinct eigenvalues in no particular order, of three decimals"""
    return cnum(h, Fraction((5 * j + 3) % 13 - 6, 8) + Fraction(1, 16) * 2,
                Fraction((7 * j) % 5 - 2, 4))


def titled(h, ax, w):
    """the title of the axes shows that eigenvalue"""
    import re
    found = ax.named('set_title')
    h.true('one title', len(found) == 1)
    text = found[0][0][0]
    nums = [h.parse(t) for t in
            re.findall(r'[-+]?\d+(?:\.\d*)?(?:e[-+]?\d+)?', text)]
    h.true('title shows a complex number', len(nums) == 2)
    h.eq('title eigenvalue', nums, [w.real, w.imag], tol=1e-9)


@harness('C10', 'mode_simulations', bounds='benchmark model and rider lean '
         'model, two or five time points, arbitrary trajectories; modes of '
         'zero eigenvalues hidden or not',
         stubs='eig, solve_ivp and matplotlib as above', concolic=False)
def mode_simulations(h):
    which = h.choice('model', ['plain', 'lean'])
    m, p = model(h, which)
    plt = pyplot(h, 'models')
    n = 12 if which == 'lean' else 4
    ident = h.arr([[cnum(h, int(r == c), 0) for c in range(n)]
                   for r in range(n)])
    hide = h.choice('hide', [False, True, 0.06])
    modes = [j for j in range(n) if not hide or j not in (0, 2, 5)]
    w = h.arr([spread(h, j) if j in modes else
               cnum(h, 0, 0 if hide is True else 0.05) for j in range(n)])
    stub(h, 'numpy.linalg.eig', Given(h, [(w, ident)]))
    ivp = Ivp(h)
    stub(h, 'scipy.integrate.solve_ivp', ivp)
    times = [h.real('t0', -9, 1), h.real('t1', 2, 3)]
    if hide is True:
        times += [times[1] + h.real('dt', 0.1, 1) * k for k in (1, 2, 3)]
    times = h.arr(times)
    axes = m.plot_mode_simulations(times, **({'hide_zeros': hide} if hide
                                             else {}))
    units = sorted(set(m.state_units))
    h.true('grid', axes.shape == (len(modes), len(units)))
    h.true('one simulation per mode', len(ivp.calls) == n)
    for i, j in enumerate(modes):
        y = ivp.calls[j].y
        for c, unit in enumerate(units):
            if which == 'plain':
                idx = {'rad': (0, 1), 'rad/s': (2, 3)}[unit]
            else:
                idx = {'m': (0, 1), 'rad': tuple(range(2, 8)),
                       'rad/s': (8, 9, 10, 11)}[unit]
            titled(h, axes[i, c], w[j])
            ls = ysets(axes[i, c])
            h.true('states in column %s' % unit, len(ls) == len(idx))
            for (x, yy), s in zip(ls, idx):
                for k in range(len(times)):
                    h.eq('mode %d time' % j, x[k], times[k])
                    h.eq('mode %d state %d' % (j, s), yy[k], y[s, k]
                         if unit == 'm' else deg(h, y[s, k]))


@harness('C10', 'simulation', bounds='three or seven time points, arbitrary '
         'trajectories and affine control law; benchmark and rider lean '
         'models', stubs='solve_ivp and matplotlib as above')
def simulation(h):
    which = h.choice('model', ['plain', 'feedback', 'lean'])
    m, p = model(h, which)
    plt = pyplot(h, 'models')
    n = 12 if which == 'lean' else 4
    ivp = Ivp(h)
    stub(h, 'scipy.integrate.solve_ivp', ivp)
    times = [h.real('t0', -9, 1), h.real('t1', 1.5, 2), h.real('t2', 3, 90)]
    if which == 'feedback':
        times += [times[-1] + h.real('dt', 0.1, 1) * k for k in range(1, 5)]
    N = len(times)
    x0 = h.arr([h.real('s%d' % i, -1, 1) for i in range(n)])
    keep = list(x0)
    u = law(h, n, 3 if n == 12 else 2)
    axes = m.plot_simulation(times, x0, input_func=u)
    y = ivp.calls[0].y

    def drawn(ax, idx, f):
        ls = ysets(ax)
        h.true('one curve per state', len(ls) == len(idx))
        for (t, d), i in zip(ls, idx):
            h.eq('time axis', t, times)
            h.eq('state %d' % i, d, [f(y[i, k]) for k in range(N)])
    ls = ysets(axes[0])
    us = [list(u(times[k], y[:, k])) for k in range(N)]
    h.true('one curve per input', len(ls) == len(us[0]))
    for j, (t, d) in enumerate(ls):
        h.eq('time axis', t, times)
        h.eq('inputs', d, [us[k][j] for k in range(N)])
    D = lambda x: deg(h, x)
    if n == 4:
        drawn(axes[1], (0, 1), D)
        drawn(axes[2], (2, 3), D)
    else:
        drawn(axes[1], (0, 1), lambda x: x)
        drawn(axes[2], (4, 6), D)
        drawn(axes[3], (3, 5, 7), D)
        drawn(axes[4], (8, 10, 11), D)
        drawn(axes[3].twins[0], (2,), D)
        drawn(axes[4].twins[0], (9,), D)
    h.eq('initial conditions kept', list(x0), keep)


@harness('C10', 'gains', bounds='speed or wheelbase as the abscissa (2 '
         'or 5 values), alone or before another array, each gain an array or a scalar, in either order; new or '
         'given axes', stubs='matplotlib as '
         'above')
def gains(h):
    m, p = model(h, 'feedback')
    plt = pyplot(h, 'models')
    key = h.choice('x', ['v', 'w'])
    k = h.choice('gain', GAINS)
    o = GAINS[(GAINS.index(k) + 3) % 8]
    n = 2 if key == 'v' else 5
    xs = [h.real('x%d' % i, -30, 30) for i in range(n)]
    gs = [h.real('k%d' % i, -9, 9) for i in range(n)]
    s = h.real('s', -9, 9)
    over = {key: h.arr(xs), k: h.arr(gs), o: s}
    if n == 5:
        # a second array that could be the abscissa
        more = [h.real('more%d' % i, 0, 9) for i in range(n)]
        over['c'] = h.arr(more)
    if h.choice('order', [0, 1]):
        over = dict(reversed(list(over.items())))
    own = h.choice('axes', ['new', 'own'])
    given = plt.subplots(2, 4)[1] if own == 'own' else None
    axes = m.plot_gains(**over) if given is None else \
        m.plot_gains(axes=given, **over)
    h.true('two rows of four', axes.shape == (2, 4))
    if given is not None:
        h.true('drawn into the given axes', all(
            a is b for a, b in zip(axes.flatten(), given.flatten())))
    named = set(a[0] for ax in axes.flatten()
                for a, _ in ax.named('set_xlabel'))
    h.true('the abscissa is named', named <= {key, 'c'} and len(named) == 1)
    if named == {'c'}:
        xs = more
    for name, ax in zip(GAINS, axes.flatten()):
        (x, y), = ysets(ax)
        t = [a[0] for a, _ in ax.named('set_title')]
        h.same('title ' + name, t, [
            '$%s$' % m.parameter_set.par_strings[name]])
        exp = gs if name == k else [s] * n if name == o else [p[name]] * n
        h.eq('abscissa', list(x), xs)
        h.eq('gain ' + name, list(y), exp)
    with h.raises('needs an abscissa', ValueError):
        m.plot_gains(**{k: h.arr(gs)})


@harness('C10', 'controllability', bounds='arbitrary symbolic left '
         'eigenvectors (one complex column at a time) and the benchmark '
         'input matrix; scalar parameters or 1 or 3 array values with the '
         'modes in any order; angles and their figure (new or given axes)',
         stubs='eig and matplotlib as above', concolic=False, feas_ms=100,
         shards=3)
def controllability(h):
    n = h.choice('values', [0, 1, 3])
    acute = h.choice('acute', [True, False])
    figure = h.choice('figure', ['none', 'new' if n == 1 else 'own']) \
        if n else 'none'
    m, p = model(h, 'plain')
    plt = pyplot(h, 'models')
    turns = [(0, 1, 2, 3), (1, 3, 0, 2), (3, 2, 1, 0)]
    Vs, given = [], []
    for k in range(max(n, 1)):
        V = [[cnum(h, Fraction(r - 2 * j + k, 3), Fraction(r * j + 1, 4))
              for j in range(4)] for r in range(4)]
        if k == max(n - 2, 0):
            for r in (2, 3):
                V[r][1] = cnum(h, h.real('p%d' % r, -2, 2),
                               h.real('q%d' % r, -2, 2))
        Vs.append(V)
        given.append((h.arr([cnum(h, j, 1) for j in turns[k]]),
                      h.arr([[row[j] for j in turns[k]] for row in V])))
    stub(h, 'numpy.linalg.eig', Given(h, given))
    xs = [h.real('x%d' % i, -30, 30) for i in range(n)]
    over = {'v': h.arr(xs)} if n else {}
    Bs = []
    for k in range(max(n, 1)):
        c = [Fraction(k + 1, 4), Fraction(k - 5, 4), Fraction(k - 7, 5),
             Fraction(3 - k, 2)]
        if k == max(n - 2, 0):
            c = [h.real('b1', 0.1, 2), h.real('b2', -2, -1),
                 h.real('b3', -2, -1), h.real('b4', 1, 5)]
        c = [h.const(x) if isinstance(x, Fraction) else x for x in c]
        Bs.append(h.arr([[0, 0], [0, 0], c[:2], c[2:]]))
    A = h.arr([[h.const(0)] * 4] * 4)
    h.patch(m, 'form_state_space_matrices', lambda **k: (
        (A, Bs[0]) if n == 0 else (h.arr([list(map(list, A))] * n),
                                   h.arr([list(map(list, B)) for B in Bs]))))
    if figure == 'none':
        beta = m._calc_modal_controllability(acute=acute, **over)
        if n == 0:
            beta = [beta]
        h.true('number of values', len(beta) == max(n, 1))
        h.true('shape', all(b.shape == (4, 2) for b in beta))
        angle = lambda k, i, j: beta[k][i, j]
    else:
        kw = {}
        if figure == 'own':
            kw['axes'] = plt.subplots(4, 2)[1]
        axes = m._plot_modal_controllability(acute=acute, **kw, **over)
        h.true('grid', axes.shape == (4, 2))
        if kw:
            h.true('drawn into the given axes', all(
                a is b for a, b in zip(axes.flatten(),
                                       kw['axes'].flatten())))
        curves = {}
        for i in range(4):
            for j in range(2):
                (x, y), = ysets(axes[i, j])
                h.eq('abscissa', list(x), xs)
                h.true('one angle per value', len(y) == n)
                curves[i, j] = y
        angle = lambda k, i, j: curves[i, j][k] * h.pi / 180
    for k, (V, B) in enumerate(zip(Vs, Bs)):
        for i in range(4):
            for j in range(2):
                dot = sum(V[r][i].real * B[r, j] for r in range(4))
                q2 = sum(V[r][i].real**2 + V[r][i].imag**2
                         for r in range(4))
                b2 = sum(B[r, j]**2 for r in range(4))
                cb = h.cos(angle(k, i, j))
                h.eq('squared cosine', cb**2 * q2 * b2, dot**2)
                h.le('sign', 0, cb if acute else cb * dot)
