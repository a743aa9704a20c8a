"""Inertia of the steer assembly of a bicycle object."""
from engine.harness import harness
from .common import HOW, bench, uncertain

FLAGS = [(a, b, c) for a in (True, False) for b in (True, False)
         for c in (True, False)]


def assembly(h, par, hb, fork, wheel):
    """mass, mass center and tensor of the chosen bodies, from body lists"""
    k = {(True, True): 'H', (False, True): 'S', (True, False): 'G'}.get(
        (hb, fork))
    b = []
    if k:
        b.append((par['m' + k], par['x' + k], par['z' + k]) + tuple(
            par['I' + k + a] for a in ('xx', 'yy', 'zz', 'xz')))
    if wheel:
        b.append((par['mF'], par['w'], -par['rF'], par['IFxx'], par['IFyy'],
                  par['IFxx'], 0))
    if not b:
        return 0, 0, 0, [0, 0, 0, 0]
    m = sum(q[0] for q in b)
    x = sum(q[0] * q[1] for q in b) / m
    z = sum(q[0] * q[2] for q in b) / m
    I = [0, 0, 0, 0]
    for q in b:
        dx, dz = q[1] - x, q[2] - z
        I[0] += q[3] + q[0] * dz * dz
        I[1] += q[4] + q[0] * (dx * dx + dz * dz)
        I[2] += q[5] + q[0] * dx * dx
        I[3] += q[6] - q[0] * dx * dz
    return m, x, z, I


def parameters(h, split, u=lambda x: x):
    par = {k: v for k, v in bench(h, skip=('v',)).items()}
    for k in ('S', 'G') if split else ():
        par['m' + k] = h.real('m' + k, 0.02, 100)
        par['x' + k] = h.real('x' + k, -1, 3)
        par['z' + k] = h.real('z' + k, -3, 2)
        for a, lo, hi in (('xx', 0.002, 9), ('yy', 0.002, 9),
                          ('zz', 0.002, 9), ('xz', -5, 5)):
            par['I' + k + a] = h.real('I' + k + a, lo, hi)
    return par, {k: u(v) for k, v in par.items()}


def bicycle(h, given):
    C = h.mod('main').Bicycle
    b = h.keep('bicycle', lambda: C.__new__(C))
    b.parameters = {'Benchmark': given}
    b.bicycleName = 'Bike'
    return b


def tensor(h, par, hb, fork, wheel, axis):
    m, x, z, I = assembly(h, par, hb, fork, wheel)
    s, c = h.sin(par['lam']), h.cos(par['lam'])
    # first axis (c, -s): perpendicular to the steer axis, forward;
    # third axis (s, c): along it, downward
    want = [[I[0] * c * c - 2 * I[3] * s * c + I[2] * s * s, 0,
             (I[0] - I[2]) * s * c + I[3] * (c * c - s * s)],
            [0, I[1], 0], [0, 0,
             I[0] * s * s + 2 * I[3] * s * c + I[2] * c * c]]
    want[2][0] = want[0][2]
    if axis:
        d = (x - par['w'] - par['c']) * c - z * s
        want[1][1] = want[1][1] + m * d * d
        want[2][2] = want[2][2] + m * d * d
    return want


@harness('C21', 'assembly', bounds='any parameters; every choice of parts; '
         'about the mass center or the steer axis; numbers, numbers with '
         'uncertainty, partly or wholly, or their nominal values; with or without flywheel')
def check(h):
    hb, fork, wheel = h.choice('parts', FLAGS)
    axis = h.choice('about the steer axis', [False, True])
    kind = h.choice('kind', ['numbers', 'uncertain', 'nominal', 'some',
                             'others'])
    fly = h.choice('flywheel', [False, True]) if kind == 'numbers' and wheel \
        else False
    u = (lambda x: x) if kind == 'numbers' else (
        lambda x: h.ufloat(x, h.const(0.001)))
    par, given = parameters(h, hb != fork, u)
    if kind in HOW:
        given = uncertain(h, par, kind)
    if fly:
        given['mD'] = h.real('mD', 0.5, 5)
    want = tensor(h, par, hb, fork, wheel, axis)
    before = dict(given)
    b = bicycle(h, given)
    got = b.steer_assembly_moment_of_inertia(
        handlebar=hb, fork=fork, wheel=wheel, aboutSteerAxis=axis,
        nominal=kind == 'nominal')
    for i in range(3):
        for j in range(3):
            h.eq('I%d%d' % (i + 1, j + 1), h.num(got[i, j]), want[i][j],
                 tol=1e-7)
    if kind == 'nominal':
        h.true('plain numbers', all(not hasattr(got[i, j], 'std_dev')
                                    for i in range(3) for j in range(3)))
    h.same('parameters kept', list(given), list(before))
    for k in before:
        h.eq('kept ' + k, h.num(given[k]), h.num(before[k]))


@harness('C21', 'not_split', bounds='fork or handlebar asked for although '
         'they were not measured separately', noreach=True)
def not_split(h):
    hb = h.choice('handlebar', [True, False])
    wheel = h.choice('wheel', [True, False])
    par, given = parameters(h, False)
    b = bicycle(h, given)
    with h.raises('refused', ValueError):
        b.steer_assembly_moment_of_inertia(handlebar=hb, fork=not hb,
                                           wheel=wheel)


CALLS = [((True, True, True), True), ((False, False, True), False),
         ((True, False, False), True), ((False, True, True), False)]


@harness('C21', 'again', bounds='the tensor asked for four times of one '
         'object: other parts, another axis, and, in between, parameters '
         'changed in place or replaced, fork and handlebar measured apart or '
         'not; another bicycle asked before')
def again(h):
    how = h.choice('parameters', ['same', 'changed in place', 'replaced'])
    other = h.choice('another bicycle before', [False, True])
    rot = h.choice('order', [0, 1, 2, 3])
    par, given = parameters(h, True)
    b = bicycle(h, dict(given))
    if other:
        q = bench(h, skip=('v',), prefix='o')
        x = bicycle(h, dict(q))
        got = x.steer_assembly_moment_of_inertia()
        want = tensor(h, q, True, True, True, False)
        h.eq('other bicycle', got[0, 0], want[0][0], tol=1e-7)
    calls = CALLS[rot:] + CALLS[:rot]
    for n, ((hb, fork, wheel), axis) in enumerate(calls + calls[:1]):
        if n == 2 and how != 'same':
            new = dict(par)
            for k in ('mF', 'IFxx', 'rF', 'c', 'mH', 'xS', 'IGyy', 'zG'):
                new[k] = h.real('n' + k, 0.1, 2)
            par = new
            if how == 'replaced':
                b.parameters['Benchmark'] = dict(par)
            else:
                b.parameters['Benchmark'].update(par)
        got = b.steer_assembly_moment_of_inertia(
            handlebar=hb, fork=fork, wheel=wheel, aboutSteerAxis=axis)
        want = tensor(h, par, hb, fork, wheel, axis)
        for i in range(3):
            for j in range(3):
                h.eq('I%d%d of call %d' % (i + 1, j + 1, n), got[i, j],
                     want[i][j], tol=1e-7)
    now = b.parameters['Benchmark']
    h.same('keys', sorted(now), sorted(par))
    for k in par:
        h.eq('kept ' + k, now[k], par[k])
