from engine.harness import harness
from .common import bench, canonical_reference


@harness('C01', 'canonical', bounds='all 25 parameters symbolic, no bound on '
         'values other than the declared physical ranges')
def canonical(h):
    p = bench(h, skip=('v', 'g'))
    b = h.mod('bicycle')
    d = dict(p)
    M, C1, K0, K2 = b.benchmark_par_to_canonical(d)
    rM, rC1, rK0, rK2 = canonical_reference(h, p)
    h.eq('M', M, rM)
    h.eq('C1', C1, rC1)
    h.eq('K0', K0, rK0)
    h.eq('K2', K2, rK2)
    h.eq('M symmetric', M[0, 1], M[1, 0])
    h.eq('K0 symmetric', K0[0, 1], K0[1, 0])
    h.true('argument keys unchanged', set(d) == set(p))
    for k in p:
        h.eq('argument %s unchanged' % k, d[k], p[k])
