"""Sorting eigenvalues into modes only reorders them."""
import itertools

from engine.harness import harness
from engine import sym as S


def data(h, n, m):
    ev = [[h.complex('e%d%d' % (i, j)) for j in range(m)] for i in range(n)]
    vec = [[[h.complex('v%d%d%d' % (i, r, j)) for j in range(m)]
            for r in range(m)] for i in range(n)]
    return ev, vec


def arrays(h, ev, vec):
    if h.symbolic:
        return h.np.array(ev, dtype=object), h.np.array(vec, dtype=object)
    return h.np.array(ev, dtype=complex), h.np.array(vec, dtype=complex)


def same(a, b):
    """identical complex values (provably, on this path)"""
    if isinstance(a, (S.CSym, S.Sym)) or isinstance(b, (S.CSym, S.Sym)):
        return not S.lift(a.real - b.real).n and \
            not S.lift(a.imag - b.imag).n
    return a == b


def is_permutation(h, name, ev_in, vec_in, ev, vec, m):
    perm = []
    for j in range(m):
        hit = [k for k in range(m) if k not in perm and
               same(ev[j], ev_in[k]) and
               all(same(vec[r][j], vec_in[r][k]) for r in range(m))]
        if not hit:
            h.true(name, False)
            return None
        perm.append(hit[0])
    h.true(name, True)
    return perm


def dist2(a, b):
    return (a.real - b.real)**2 + (a.imag - b.imag)**2


@harness('C07', 'sort_eigenmodes', bounds='2 or 3 sets of 3 modes and 2 '
         'sets of 4 modes, arbitrary complex values; one step from an '
         'arbitrary row to the next is the inductive step for any number '
         'of rows', feas_ms=1, concolic=False)
def eigenmodes(h):
    n, m = h.choice('size', [(2, 3), (2, 4), (3, 3), (1, 4), (2, 2)])
    ev, vec = data(h, n, m)
    e, v = arrays(h, ev, vec)
    es, vs = h.mod('bicycle').sort_eigenmodes(e, v)
    h.true('shapes', es.shape == (n, m) and vs.shape == (n, m, m))
    for j in range(m):
        h.true('first row kept', same(es[0][j], ev[0][j]))
        for r in range(m):
            h.true('first vectors kept', same(vs[0][r][j], vec[0][r][j]))
    for i in range(1, n):
        is_permutation(h, 'row %d is a permutation' % i, ev[i], vec[i],
                       es[i], vs[i], m)
    # input untouched
    for i in range(n):
        for j in range(m):
            h.true('input kept', same(e[i, j], ev[i][j]))


@harness('C07', 'nearest', bounds='2 rows of 2 or 3 real eigenvalues; the '
         'first mode takes the nearest value, later modes the nearest that '
         'is left', concolic=False, feas_ms=200)
def nearest(h):
    m = h.choice('modes', [2, 3])
    a = [h.real('a%d' % j, -9, 9) for j in range(m)]
    b = [h.real('b%d' % j, -9, 9) for j in range(m)]
    one = h.const(1)
    vec = [[[one if r == c else one * 0 for c in range(m)]
            for r in range(m)]] * 2
    es, vs = h.mod('bicycle').sort_eigenmodes(
        h.arr([a, b]), h.arr(vec))
    left = list(range(m))
    for j in range(m):
        pick = [k for k in left if same(vs[1][k][j], one)]
        h.true('vector of an unused value', len(pick) == 1)
        if len(pick) != 1:
            return
        k = pick[0]
        h.eq('value %d' % j, es[1][j], b[k])
        for o in left:
            h.le('nearest %d' % j, (b[k] - a[j])**2, (b[o] - a[j])**2)
        left.remove(k)


@harness('C07', 'nearest_plane', bounds='2 rows of 2 complex eigenvalues; '
         'the first mode takes the value nearest in the complex plane',
         concolic=False, feas_ms=200)
def nearest_plane(h):
    a = [h.complex('a%d' % j) for j in range(2)]
    b = [h.complex('b%d' % j) for j in range(2)]
    one = h.const(1)
    vec = [[[one if r == c else one * 0 for c in range(2)]
            for r in range(2)]] * 2
    es, vs = h.mod('bicycle').sort_eigenmodes(
        *arrays(h, [a, b], vec) if h.symbolic else (
            h.np.array([a, b]), h.np.array(vec, dtype=complex)))
    pick = [k for k in range(2) if same(vs[1][k][0], one)]
    h.true('vector of a value', len(pick) == 1)
    if len(pick) != 1:
        return
    k = pick[0]
    h.eq('value', [es[1][0].real, es[1][0].imag], [b[k].real, b[k].imag])
    h.le('nearest', dist2(b[k], a[0]), dist2(b[1 - k], a[0]))


@harness('C07', 'sort_modes', bounds='2 sets of 4 modes, arbitrary complex '
         'values', feas_ms=1, concolic=False)
def modes(h):
    n, m = h.choice('rows', [1, 2]), 4
    ev, vec = data(h, n, m)
    e, v = arrays(h, ev, vec)
    weave, capsize, caster = h.mod('bicycle').sort_modes(e, v)
    for i in range(n):
        row = [caster['evals'][i], capsize['evals'][i],
               weave['evals'][i][0], weave['evals'][i][1]]
        vecs = [[caster['evecs'][i][r], capsize['evecs'][i][r],
                 weave['evecs'][i][r][0], weave['evecs'][i][r][1]]
                for r in range(m)]
        p = is_permutation(h, 'row %d is a permutation' % i, ev[i], vec[i],
                           row, vecs, m)
        if i == 0:
            h.true('first row order', p == [0, 1, 2, 3])


def sort(h, name, values, m):
    """(sorted values, index of the value each one was) per row, by a
    function of the package; the vectors are unit vectors that tell which
    value they belong to"""
    one = h.const(1)
    vec = [[[one if r == c else one * 0 for c in range(m)]
            for r in range(m)]] * len(values)
    a, b = arrays(h, values, vec) if h.symbolic else (
        h.np.array(values), h.np.array(vec, dtype=complex))
    f = getattr(h.mod('bicycle'), name)
    if name == 'sort_eigenmodes':
        es, vs = f(a, b)
        es = [[es[i][j] for j in range(m)] for i in range(len(values))]
        vs = [[[vs[i][r][j] for r in range(m)] for j in range(m)]
              for i in range(len(values))]
    else:
        weave, capsize, caster = f(a, b)
        es, vs = [], []
        for i in range(len(values)):
            es.append([caster['evals'][i], capsize['evals'][i],
                       weave['evals'][i][0], weave['evals'][i][1]])
            vs.append([[caster['evecs'][i][r] for r in range(m)],
                       [capsize['evecs'][i][r] for r in range(m)],
                       [weave['evecs'][i][r][0] for r in range(m)],
                       [weave['evecs'][i][r][1] for r in range(m)]])
    src = []
    for i in range(len(values)):
        row = []
        for j in range(m):
            hit = [k for k in range(m) if same(vs[i][j][k], one)]
            h.true('a vector of row %d' % i, len(hit) == 1)
            row.append(hit[0])
        src.append(row)
    return es, src


def followed(h, values, es, src, m):
    for i in range(len(values) - 1):
        left = list(range(m))
        for j in range(m):
            k = src[i + 1][j]
            h.true('row %d: not taken' % i, k in left)
            if k not in left:
                return
            before = values[i][src[i][j]]
            got, want = es[i + 1][j], values[i + 1][k]
            h.eq('row %d: value' % i, [got.real, got.imag],
                 [want.real, want.imag])
            for o in left:
                h.le('row %d: nearest left' % i, dist2(want, before),
                     dist2(values[i + 1][o], before))
            left.remove(k)


@harness('C07', 'follow', bounds='3 rows: 2 complex or 3 real modes, the '
         'middle row in any order (concrete), the last arbitrary; 4 real '
         'modes for the modes of the bicycle, all of the last row '
         'arbitrary', concolic=False, feas_ms=200, shards=4)
def follow(h):
    name, m = h.choice('function', [('sort_eigenmodes', 2),
                                    ('sort_eigenmodes', 3),
                                    ('sort_modes', 4)])
    far = [complex(10 * j, (-1)**j * 2 * (j > 1)) for j in range(m)]
    order = h.choice('middle', list(itertools.permutations(range(m)))
                     if m < 4 else [(0, 1, 2, 3), (1, 0, 2, 3), (3, 2, 0, 1),
                                    (0, 2, 3, 1)])
    if m == 2:
        last = [h.complex('b%d' % j) for j in range(m)]
    else:
        last = [h.real('b%d' % j, -9, 40) + h.const(0) for j in range(m)]
    cn = (lambda z: S.CSym(h.const(int(z.real)), h.const(int(z.imag)))) \
        if h.symbolic else (lambda z: z)
    values = [[cn(z) for z in far],
              [cn(far[k] + 1 - 1j) for k in order], last]
    es, src = sort(h, name, values, m)
    followed(h, values, es, src, m)


@harness('C07', 'many_rows', bounds='4 rows (thorough 6) of 2 real modes (4 for the modes '
         'of the bicycle), the order of every row but the first any of two, '
         'one value of each row arbitrary within its neighbourhood',
         concolic=False, feas_ms=200, shards=2)
def many_rows(h):
    name, m = h.choice('function', [('sort_eigenmodes', 2),
                                    ('sort_modes', 4)])
    values = [[h.const(10 * j) for j in range(m)]]
    for i in range(1, 6 if h.tier == 'thorough' else 4):
        row = [h.const(10 * j + i) for j in range(m)]
        row[1] = h.real('b%d' % i, 6, 9 + 5 * i)
        if h.choice('turned%d' % i, [False, True]):
            row.reverse()
        values.append(row)
    es, src = sort(h, name, values, m)
    followed(h, values, es, src, m)
