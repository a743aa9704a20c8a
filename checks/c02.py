from engine.harness import harness
from .common import bench, canonical_reference, met, P27


def eom(h, tag, A, B, M, C1, K0, K2, v, g):
    """M q'' + v C1 q' + (g K0 + v^2 K2) q = T  <=>  x' = A x + B T"""
    h.true(tag + 'shape', A.shape == (4, 4) and B.shape == (4, 2))
    for i in range(2):
        for j in range(4):
            h.eq('%sA kinematic[%d,%d]' % (tag, i, j), A[i, j],
                 1 if j == i + 2 else 0)
        for j in range(2):
            h.eq('%sB kinematic[%d,%d]' % (tag, i, j), B[i, j], 0)
    for i in range(2):
        for j in range(2):
            h.eq('%sstiffness[%d,%d]' % (tag, i, j),
                 M[i][0] * A[2, j] + M[i][1] * A[3, j],
                 -(g * K0[i][j] + v * v * K2[i][j]))
            h.eq('%sdamping[%d,%d]' % (tag, i, j),
                 M[i][0] * A[2, 2 + j] + M[i][1] * A[3, 2 + j],
                 -v * C1[i][j])
            h.eq('%sinput[%d,%d]' % (tag, i, j),
                 M[i][0] * B[2, j] + M[i][1] * B[3, j],
                 1 if i == j else 0)


@harness('C02', 'state_space', bounds='arbitrary 2x2 M (nonsingular), C1, '
         'K0, K2, any v and g')
def state_space(h):
    b = h.mod('bicycle')
    mats = []
    for n in ('M', 'C1', 'K0', 'K2'):
        mats.append(h.arr([[h.real('%s%d%d' % (n, i, j), -5, 5)
                            for j in range(2)] for i in range(2)]))
    M = mats[0]
    h.assume(abs(M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]) > h.const(0.05))
    v, g = h.real('v', -90, 90), h.real('g', 0, 40)
    keep = [m.copy() for m in mats]
    A, B = b.ab_matrix(*mats, v, g)
    eom(h, '', A, B, *keep, v, g)
    for k, m, n in zip(keep, mats, ('M', 'C1', 'K0', 'K2')):
        h.eq('argument %s unchanged' % n, m, k)


@harness('C02', 'model', bounds='all 27 benchmark parameters symbolic')
def model(h):
    p = bench(h)
    m = met(h, 'model', lambda: h.mod('models').Meijaard2007Model(
        h.mod('parameter_sets').Meijaard2007ParameterSet(dict(p), True)), p)
    A, B = m.form_state_space_matrices()
    R = canonical_reference(h, p)
    eom(h, '', A, B, *R, p['v'], p['g'])
    got = m.form_reduced_canonical_matrices()
    for n, a, r in zip(('M', 'C1', 'K0', 'K2'), got, R):
        h.eq(n, a, r)


@harness('C02', 'scalar_override', bounds='each of the 27 parameters '
         'overridden alone by a symbolic scalar')
def scalar_override(h):
    p = bench(h)
    k = h.choice('key', P27)
    lo, hi = (-60, 60) if k == 'v' else (-4, 4) if k[0] in 'xzc' or \
        k[-2:] == 'xz' else (0.01, 90)
    new = h.angle('new', -1.2, 1.4) if k == 'lam' else h.real('new', lo, hi)
    m = met(h, 'model', lambda: h.mod('models').Meijaard2007Model(
        h.mod('parameter_sets').Meijaard2007ParameterSet(dict(p), True)), p)
    A, B = m.form_state_space_matrices(**{k: new})
    q = dict(p)
    q[k] = new
    eom(h, '', A, B, *canonical_reference(h, q), q['v'], q['g'])
    for x in P27:
        h.eq('stored ' + x, m.parameter_set.parameters[x], p[x])


@harness('C02', 'apart', bounds='two bicycles with any parameters evaluated in '
         'turn, one parameter of the first set to another value in between')
def apart(h):
    mods, ps = h.mod('models'), h.mod('parameter_sets')
    k = h.choice('key', ['v', 'g', 'mB', 'IFyy', 'w'])
    p, q = bench(h), bench(h, prefix='q_')
    one, two = [mods.Meijaard2007Model(ps.Meijaard2007ParameterSet(
        dict(x), True)) for x in (p, q)]

    def check(tag, m, x):
        eom(h, tag, *m.form_state_space_matrices(),
            *canonical_reference(h, x), x['v'], x['g'])
    check('first ', one, p)
    check('second ', two, q)
    new = h.real('new', 0.05, 4)
    one.parameter_set.parameters[k] = new
    check('changed ', one, dict(p, **{k: new}))
    check('second again ', two, q)
