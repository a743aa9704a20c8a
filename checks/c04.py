"""Full state feedback model: x' = (A - B K) x + B u."""
from engine.harness import harness
from .common import bench, canonical_reference, met, P27
from .c02 import eom
from .c03 import newval, slices

GAINS = ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld',
         'kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']


def build(h, zero=False):
    p = bench(h)
    for g in GAINS:
        p[g] = 0.0 if zero else h.real(g, -500, 500)
    m = met(h, 'model', lambda: h.mod('models').Meijaard2007WithFeedbackModel(
        h.mod('parameter_sets').Meijaard2007WithFeedbackParameterSet(
            dict(p), True)), p)
    return m, p


def closed_loop(h, tag, A, B, p):
    M, C1, K0, K2 = canonical_reference(h, p)
    K = [[p[g] for g in GAINS[:4]], [p[g] for g in GAINS[4:]]]
    v, g = p['v'], p['g']
    h.true(tag + 'shape', A.shape == (4, 4) and B.shape == (4, 2))
    for i in range(2):
        for j in range(4):
            h.eq('%sA kinematic[%d,%d]' % (tag, i, j), A[i, j],
                 1 if j == i + 2 else 0)
            # M*A_lower = -[K V] - Kgain
            rhs = -(g * K0[i][j] + v * v * K2[i][j]) if j < 2 else \
                -v * C1[i][j - 2]
            h.eq('%sA[%d,%d]' % (tag, i, j),
                 M[i][0] * A[2, j] + M[i][1] * A[3, j], rhs - K[i][j])
        for j in range(2):
            h.eq('%sB kinematic[%d,%d]' % (tag, i, j), B[i, j], 0)
            h.eq('%sB[%d,%d]' % (tag, i, j),
                 M[i][0] * B[2, j] + M[i][1] * B[3, j], 1 if i == j else 0)


@harness('C04', 'closed_loop', bounds='all 27 + 8 parameters symbolic')
def cl(h):
    m, p = build(h)
    A, B = m.form_state_space_matrices()
    closed_loop(h, '', A, B, p)


@harness('C04', 'zero_gains', bounds='all 27 parameters symbolic; a set '
         'converted from the open loop parameter set')
def zero(h):
    p = bench(h)
    ps = h.mod('parameter_sets').Meijaard2007ParameterSet(dict(p), True)
    mods = h.mod('models')
    A, B = mods.Meijaard2007WithFeedbackModel(ps).form_state_space_matrices()
    A0, B0 = mods.Meijaard2007Model(ps).form_state_space_matrices()
    h.eq('A', A, A0)
    h.eq('B', B, B0)


@harness('C04', 'scalar_gain', bounds='each gain overridden by a scalar')
def scalar_gain(h):
    m, p = build(h)
    k = h.choice('gain', GAINS)
    new = h.real('new', -500, 500)
    A, B = m.form_state_space_matrices(**{k: new})
    q = dict(p)
    q[k] = new
    closed_loop(h, '', A, B, q)


@harness('C04', 'array_gain', shards=3, bounds='each gain as an array of length 2, '
         'alone or with speed, gravity, wheelbase or a second gain as array '
         'or scalar')
def array_gain(h):
    m, p = build(h)
    k = h.choice('gain', GAINS)
    o = GAINS[(GAINS.index(k) + 5) % 8]
    a, s = h.choice('combo', [((k,), ()), (('v', k), ()), ((k, 'w'), ()),
                              ((k, o), ('v',)), ((k, 'g', 'v'), (o,))])
    slices(h, m, a, s, 2, 'array', canon=False)


@harness('C04', 'many_gains', bounds='3 to 8 gains as arrays of length 2 '
         '(scheduled over speed or not), the others as scalars or not given')
def many_gains(h):
    m, p = build(h)
    n = h.choice('gains', [3, 4, 5, 8])
    first = h.choice('first', [0, 3, 6] if n < 8 else [0])
    keys = [GAINS[(first + i) % 8] for i in range(n)]
    rest = [k for k in GAINS if k not in keys]
    a, s = h.choice('others', [((), ()), (('v',), ()), ((), tuple(rest)),
                               (('v', 'c'), tuple(rest[1:]))])
    slices(h, m, tuple(a) + tuple(keys), s, 2, 'array', canon=False)


@harness('C04', 'long', bounds='one or two gains alone or with speed or a '
         'mass, as arrays of length 5')
def long(h):
    m, p = build(h)
    k = h.choice('gain', GAINS)
    o = GAINS[(GAINS.index(k) + 3) % 8]
    slices(h, m, h.choice('combo', [(k,), ('v', k), (k, o), (k, 'mF')]), (),
           5, h.choice('kind', ['array', 'list']), canon=False)


@harness('C04', 'array_other', shards=3, bounds='each non-gain parameter as an array '
         'of length 2 with scalar gains')
def array_other(h):
    m, p = build(h)
    k = h.choice('key', P27)
    s = h.choice('scalars', [(), ('kTdel_phid',)])
    slices(h, m, (k,), s, 2, 'array', canon=False)


@harness('C04', 'canonical_unchanged', bounds='27 + 8 symbolic')
def canon(h):
    m, p = build(h)
    R = canonical_reference(h, p)
    got = m.form_reduced_canonical_matrices(
        **{'kTdel_phi': h.real('x', -5, 5)})
    for n, a, r in zip(('M', 'C1', 'K0', 'K2'), got, R):
        h.eq(n, a, r)
