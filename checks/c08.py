"""Eigenvalues and eigenvectors belong to the state matrix of the same
parameter values."""
from engine.harness import harness
from .c05 import Root, point, build as build_lean
from .c06 import model
from .c07 import same


class Eig:
    """Symbolic stand-in for numpy.linalg.eig: fresh values per call, the
    matrix it was given remembered."""

    def __init__(self, h):
        self.h, self.calls = h, []

    def __call__(self, a):
        h = self.h
        if getattr(a, 'ndim', 2) == 3:      # a stack of matrices
            r = [self(x) for x in a]
            return (h.arr([list(w) for w, _ in r]),
                    h.arr([[list(q) for q in v] for _, v in r]))
        k = len(self.calls)
        n = a.shape[0]
        w = h.arr([h.complex('w%d_%d' % (k, j)) for j in range(n)])
        v = h.arr([[h.complex('v%d_%d%d' % (k, r, j)) for j in range(n)]
                   for r in range(n)])
        self.calls.append((a.copy(), w, v))
        return w, v


def check_one(h, tag, eig, A, w, v, left):
    """w, v are a decomposition of A (or of its transpose)"""
    n = A.shape[0]
    h.true(tag + 'shape', w.shape == (n,) and v.shape == (n, n))
    At = A.T if left else A
    if not h.symbolic:          # the defining equation
        for j in range(n):
            h.eq('%seigen equation %d' % (tag, j), At @ v[:, j],
                 w[j] * v[:, j], tol=1e-6, scale=10.0)
            h.true(tag + 'nonzero', abs(v[:, j]).max() > 1e-8)
        return
    hit = [c for c in eig.calls if len(c[1]) == n and
           all(same(x, y) for x, y in zip(w, c[1]))]
    h.true(tag + 'values of a decomposition', len(hit) == 1)
    for a, ws, vs in hit:
        h.eq(tag + 'decomposed matrix', a, At)
        h.eq(tag + 'vectors', v, vs)


@harness('C08', 'calc_eigen', bounds='benchmark and feedback models, all '
         'parameters symbolic; scalar or arrays of length 2; left and right '
         'vectors', stubs='numpy.linalg.eig: arbitrary result; its accuracy '
         'is outside the claim', concolic=False)
def calc_eigen(h):
    which = h.choice('model', ['plain', 'feedback'])
    m, p = model(h, which)
    left = h.choice('left', [None, False, True])
    kw = {} if left is None else {'left': left}
    mode = h.choice('mode', ['none', 'scalar', 'v', 'mB', 'both'])
    x = [h.real('x%d' % i, -30, 30) for i in range(2)]
    y = [h.real('y%d' % i, -30, 30) for i in range(2)]
    over = {'none': {}, 'scalar': {'v': x[0]}, 'v': {'v': h.arr(x)},
            'mB': {'mB': h.arr(x)},
            'both': {'v': h.arr(x), 'mB': h.arr(y)}}[mode]
    eig = Eig(h)
    h.ext('numpy.linalg.eig', eig)
    w, v = m.calc_eigen(**kw, **over)
    A, _ = m.form_state_space_matrices(**over)
    if A.ndim == 2:
        check_one(h, '', eig, A, w, v, left)
    else:
        h.true('one set per value', len(w) == 2 and len(v) == 2)
        for i in range(2):
            check_one(h, '%d ' % i, eig, A[i], w[i], v[i], left)


@harness('C08', 'any_matrices', bounds='state matrix replaced by 1-6 '
         'arbitrary 2x2 matrices; left and right vectors',
         stubs='state matrices and numpy.linalg.eig: arbitrary',
         concolic=False)
def any_matrices(h):
    C = h.mod('models').Meijaard2007Model
    m = h.keep('model', lambda: C.__new__(C))
    left = h.choice('left', [None, False, True])
    kw = {} if left is None else {'left': left}
    n = h.choice('number', [0, 1, 2, 3, 6])
    A = [[[h.real('A%d%d%d' % (k, i, j), -5, 5) for j in range(2)]
          for i in range(2)] for k in range(max(n, 1))]
    B = h.arr([[[h.const(0)] * 2] * 2] * max(n, 1))
    A = h.arr(A)
    m.form_state_space_matrices = lambda **k: (
        (A[0], B[0]) if n == 0 else (A, B))
    eig = Eig(h)
    h.ext('numpy.linalg.eig', eig)
    w, v = m.calc_eigen(**kw)
    if n == 0:
        check_one(h, '', eig, A[0], w, v, left)
        return
    h.true('one set per value', len(w) == n and len(v) == n)
    for i in range(n):
        check_one(h, '%d ' % i, eig, A[i], w[i], v[i], left)


@harness('C08', 'lean', bounds='rider lean model (12 states), speed and two '
         'more parameters symbolic; scalar or array of length 2',
         stubs='numpy.linalg.eig as above; root finder as in C05',
         concolic=False)
def lean(h):
    r = Root(h)
    p, lam = point(h, 0, ('k9', 'g'))
    r.cands = [lam]
    m = build_lean(h, p)
    left = h.choice('left', [False, True])
    x = [h.real('x%d' % i, -30, 30) for i in range(2)]
    over = h.choice('mode', [{'v': x[0]}, {'v': h.arr(x)}])
    eig = Eig(h)
    h.ext('numpy.linalg.eig', eig)
    w, v = m.calc_eigen(left=left, **over)
    A, _ = m.form_state_space_matrices(**over)
    if not h.symbolic:
        h.true('shape', w.shape == A.shape[:-1] and v.shape == A.shape)
        return
    for i in range(1 if A.ndim == 2 else 2):
        check_one(h, '%d ' % i, eig, A if A.ndim == 2 else A[i],
                  w if A.ndim == 2 else w[i], v if A.ndim == 2 else v[i],
                  left)
