"""Array-valued overrides: entry i equals the model evaluated with the i-th
values as scalars."""
from engine.harness import harness
from .common import bench, met, P27

CANON = [k for k in P27 if k not in ('v', 'g')]


def newval(h, key, i):
    nm = 'n_%s_%d' % (key, i)
    if key == 'lam':
        return h.angle(nm, -1.2, 1.4)
    if key == 'v':
        return h.real(nm, -60, 60)
    return h.real(nm, 0.05, 4)


def slices(h, m, arrays, scalars, n, kind, canon=True):
    vals = {k: [newval(h, k, i) for i in range(n)] for k in arrays}
    over = {k: newval(h, k, 99) for k in scalars}
    kw = {}
    for k in arrays:
        kw[k] = h.arr(vals[k]) if kind == 'array' else list(vals[k]) if \
            kind == 'list' else tuple(vals[k])
    kw.update(over)
    A, B = m.form_state_space_matrices(**kw)
    h.true('leading dimension', A.ndim == 3 and B.ndim == 3 and
           A.shape[0] == n and B.shape[0] == n)
    for i in range(n):
        one = {k: vals[k][i] for k in arrays}
        one.update(over)
        Ai, Bi = m.form_state_space_matrices(**one)
        h.eq('A slice %d' % i, A[i], Ai)
        h.eq('B slice %d' % i, B[i], Bi)
    if canon:
        R = m.form_reduced_canonical_matrices(**kw)
        for i in range(n):
            one = {k: vals[k][i] for k in arrays}
            one.update(over)
            for nm, a, r in zip(('M', 'C1', 'K0', 'K2'), R,
                                m.form_reduced_canonical_matrices(**one)):
                h.eq('%s slice %d' % (nm, i), a[i] if a.ndim == 3 else a, r)
    for k in arrays:
        h.eq('argument %s unchanged' % k, list(kw[k]), vals[k])


def build(h):
    p = bench(h)
    m = met(h, 'model', lambda: h.mod('models').Meijaard2007Model(
        h.mod('parameter_sets').Meijaard2007ParameterSet(dict(p), True)), p)
    return m, p


@harness('C03', 'single', shards=3, bounds='each parameter alone as an array of '
         'length 2')
def single(h):
    m, p = build(h)
    k = h.choice('key', P27)
    slices(h, m, [k], [], 2, h.choice('kind', ['array', 'list', 'tuple'])
           if k in ('v', 'mB') else 'array')


@harness('C03', 'mixed', shards=4, bounds='each canonical parameter together with v '
         'and/or g, as arrays of length 2 or scalars, in both argument '
         'orders')
def mixed(h):
    m, p = build(h)
    k = h.choice('key', CANON)
    combo = h.choice('combo', [((k, 'v'), ()), (('v', k), ()),
                               (('g', k), ('v',)), ((k, 'v', 'g'), ()),
                               (('v',), (k,)), ((k,), ('v', 'g'))])
    slices(h, m, combo[0], combo[1], 2, 'array', canon=False)


@harness('C03', 'integers', bounds='whole numbers as overrides: arrays of '
         'integers, lists, ranges and scalars for speed, gravity, a mass and '
         'a moment; the other parameters symbolic')
def integers(h):
    m, p = build(h)
    k = h.choice('key', ['v', 'g', 'mB', 'IBxx', 'v g', 'v mB'])
    kind = h.choice('kind', ['array', 'list', 'range', 'scalar'])
    kw, one = {}, []
    for j, key in enumerate(k.split()):
        r = range(2 + j, 5 + j)
        kw[key] = h.np.array(list(r)) if kind == 'array' else list(r) if \
            kind == 'list' else r if kind == 'range' else r[1]
        one.append([(key, float(x)) for x in r])
    A, B = m.form_state_space_matrices(**kw)
    for i in range(3) if kind != 'scalar' else [1]:
        Ai, Bi = m.form_state_space_matrices(**dict(q[i] for q in one))
        a, b = (A, B) if kind == 'scalar' else (A[i], B[i])
        h.eq('A %d' % i, a, Ai)
        h.eq('B %d' % i, b, Bi)


@harness('C03', 'many', bounds='several canonical parameters as arrays of '
         'length 3; v and g as arrays of length 3')
def many(h):
    m, p = build(h)
    keys = h.choice('keys', [('mB', 'xB', 'zB'), ('lam', 'c', 'w', 'v'),
                             ('IFyy', 'IRyy', 'v', 'g'), ('g', 'v'),
                             ('v', 'g'), ('mF', 'rF', 'g')])
    slices(h, m, keys, (), 3, 'array')


@harness('C03', 'length_one', bounds='arrays of length 1')
def length_one(h):
    m, p = build(h)
    keys = h.choice('keys', [('v',), ('g',), ('mB',), ('v', 'w')])
    slices(h, m, keys, (), 1, 'array')


@harness('C03', 'long', bounds='v, g, or one mass or length together with v, '
         'as arrays of length 6')
def long(h):
    m, p = build(h)
    keys = h.choice('keys', [('v',), ('g',), ('mB',), ('mH', 'v'),
                             ('v', 'zB')])
    slices(h, m, keys, (), 6, h.choice('kind', ['array', 'list']),
           canon='mH' not in keys)


@harness('C03', 'all_arrays', bounds='all 27 parameters as arrays of '
         'length 2', thorough_only=True)
def all_arrays(h):
    m, p = build(h)
    slices(h, m, P27, (), 2, 'list')
