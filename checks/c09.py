"""Simulation integrates x' = A x + B u with the model's own matrices."""
from fractions import Fraction

from engine.harness import harness
from .common import stub, Result
from .c05 import Root, asin, close, point, build as build_lean
from .c06 import model
from .c08 import Eig


class Ivp:
    """Recording stand-in for scipy.integrate.solve_ivp: keeps the problem
    it was asked to solve and returns an arbitrary trajectory."""

    def __init__(self, h):
        self.h, self.calls = h, []

    def __call__(self, fun, t_span, y0, method='RK45', t_eval=None,
                 dense_output=False, events=None, vectorized=False,
                 args=None, **options):
        h, k = self.h, len(self.calls)
        n, m = len(y0), len(t_eval)
        y = h.arr([[h.real('y%d_%d_%d' % (k, i, j), -3, 3)
                    for j in range(m)] for i in range(n)])
        if args:
            f0 = fun
            fun = lambda t, x: f0(t, x, *args)
        self.calls.append(Result(fun=fun, span=t_span, y0=list(y0),
                                 t_eval=list(t_eval), y=y))
        return Result(y=y, t=t_eval, success=True, status=0, message='',
                      sol=None, t_events=None, nfev=1)


def law(h, n, m, zero=False, form=None):
    """An arbitrary affine control law u(t, x)"""
    if zero:
        return None
    F = [[h.real('F%d%d' % (i, j), -3, 3) if j in (0, n - 1) or n < 5
          else h.const(Fraction(i - j, 7)) for j in range(n)]
         for i in range(m)]
    f = [h.real('f%d' % i, -3, 3) for i in range(m)]
    f1 = [h.real('ft%d' % i, -3, 3) for i in range(m)]

    def u(t, x):
        return (form or h.arr)([sum(F[i][j] * x[j] for j in range(n)) + f[i]
                                + f1[i] * t for i in range(m)])
    return u


def problem(h, c, A, B, u, times, x0, tag=''):
    n = A.shape[0]
    h.eq(tag + 'time span', list(c.span), [times[0], times[-1]])
    h.eq(tag + 'evaluation times', c.t_eval, list(times))
    h.eq(tag + 'initial state', c.y0, list(x0))
    t = h.real('t', -9, 99)
    x = h.arr([h.real('x%d' % i, -3, 3) for i in range(n)])
    exp = [sum(A[i, j] * x[j] for j in range(n)) for i in range(n)]
    if u is not None:
        uu = u(t, x)
        exp = [exp[i] + sum(B[i, j] * uu[j] for j in range(B.shape[1]))
               for i in range(n)]
    h.eq(tag + 'right hand side', list(c.fun(t, x)), exp)


@harness('C09', 'simulate', bounds='benchmark and feedback models with all '
         'parameters symbolic, three or eight time points, any affine control '
         'law of time and state (as array or list) or none, any trajectory', stubs='solve_ivp: '
         'arbitrary trajectory; integration accuracy is outside the claim')
def simulate(h):
    which = h.choice('model', ['plain', 'feedback'])
    m, p = model(h, which)
    ctl = h.choice('control', [False, True])
    kind = h.choice('kind', ['array', 'list'])
    over = {'v': h.real('vv', -30, 30)} if h.choice('over', [0, 1]) else {}
    ivp = Ivp(h)
    stub(h, 'scipy.integrate.solve_ivp', ivp)
    times = [h.real('t0', -9, 1), h.real('t1', 1.5, 2), h.real('t2', 3, 90)]
    if kind == 'list':
        times += [times[-1] + h.real('dt', 0.01, 1) * k for k in range(1, 6)]
    x0 = [h.real('s%d' % i, -9, 9) for i in range(4)]
    u = law(h, 4, 2, not ctl, list if kind == 'list' else h.arr)
    tt = h.arr(times) if kind == 'array' else list(times)
    xx = h.arr(x0) if kind == 'array' else list(x0)
    states, inputs = m.simulate(tt, xx, input_func=u, **over) if ctl else \
        m.simulate(tt, xx, **over)
    A, B = m.form_state_space_matrices(**over)
    h.true('one integration', len(ivp.calls) == 1)
    c = ivp.calls[0]
    problem(h, c, A, B, u, times, x0)
    n = len(times)
    h.true('shapes', states.shape == (n, 4) and inputs.shape == (n, 2))
    for i in range(n):
        h.eq('state at time %d' % i, list(states[i]), list(c.y[:, i]))
        h.eq('input at time %d' % i, list(inputs[i]),
             list(u(times[i], c.y[:, i])) if u else [0, 0])
    h.eq('initial conditions kept', list(xx), x0)
    h.eq('times kept', list(tt), times)


@harness('C09', 'lean', bounds='rider lean model, speed, gravity and lean '
         'stiffness symbolic, others at a rational point',
         stubs='solve_ivp and the root finder as above')
def lean(h):
    r = Root(h)
    p, lam = point(h, 0, ('k9', 'g'))
    r.cands = [lam]
    m = build_lean(h, p)
    over = {}
    for k in h.choice('over', ['', 'v', 'rr', 'rr v', 'g v']).split():
        if k == 'rr':
            # another rear wheel goes with another pitch of the frame
            q = dict(p)
            other = asin(h, Fraction(7, 25))
            close(h, q, other)
            r.cands.append(other)
            over[k] = q['rr']
        else:
            over[k] = h.real('new_' + k, *{'v': (-30, 30), 'g': (1, 30)}[k])
    ctl = h.choice('control', [False, True])
    kind = h.choice('kind', ['array', 'list'])
    ivp = Ivp(h)
    stub(h, 'scipy.integrate.solve_ivp', ivp)
    times = [h.real('t0', -9, 1), h.real('t1', 1.5, 2), h.real('t2', 3, 90)]
    x0 = [h.real('s%d' % i, -9, 9) for i in range(12)]
    u = law(h, 12, 3, not ctl)
    xx = h.arr(x0) if kind == 'array' else list(x0)
    states, inputs = m.simulate(times, xx, input_func=u, **over)
    A, B = m.form_state_space_matrices(**over)
    c = ivp.calls[0]
    v = over.get('v', p['v'])
    # the wheel rate has to be consistent with the forward speed
    exp = list(x0)
    exp[9] = -v / over.get('rr', p['rr'])
    problem(h, c, A, B, u, times, exp)
    h.true('shapes', states.shape == (3, 12) and inputs.shape == (3, 3))
    for i in range(3):
        h.eq('state at time %d' % i, list(states[i]), list(c.y[:, i]))
        h.eq('input at time %d' % i, list(inputs[i]),
             list(u(times[i], c.y[:, i])) if u else [0, 0, 0])
    h.eq('initial conditions kept', list(xx), x0)


@harness('C09', 'integers', bounds='times and initial conditions given as '
         'whole numbers, arrays of integers or lists; three models',
         stubs='as above')
def integers(h):
    which = h.choice('model', ['plain', 'feedback', 'lean'])
    m, p = model(h, which)
    n = 12 if which == 'lean' else 4
    kind = h.choice('kind', ['array', 'list', 'range'])
    ivp = Ivp(h)
    stub(h, 'scipy.integrate.solve_ivp', ivp)
    mk = {'array': lambda r: h.np.array(list(r)), 'list': list,
          'range': lambda r: r}[kind]
    times, x0 = mk(range(9)), mk(range(1, n + 1))
    u = law(h, n, 3 if n == 12 else 2, not h.choice('control', [0, 1]))
    states, inputs = m.simulate(times, x0, input_func=u)
    A, B = m.form_state_space_matrices()
    exp = [h.const(i + 1) for i in range(n)]
    if which == 'lean':
        exp[9] = -p['v'] / p['rr']
    problem(h, ivp.calls[0], A, B, u, list(range(9)), exp)
    for i in range(9):
        h.eq('state at time %d' % i, list(states[i]),
             list(ivp.calls[0].y[:, i]))
        h.eq('input at time %d' % i, list(inputs[i]),
             list(u(i, ivp.calls[0].y[:, i])) if u else [0] * len(inputs[i]))
    h.true('initial conditions kept', list(x0) == list(range(1, n + 1)))


@harness('C09', 'modes', bounds='benchmark and feedback models, all '
         'parameters symbolic, two or six time points, any eigenvectors',
         stubs='solve_ivp and eig: arbitrary results', concolic=False)
def modes(h):
    which = h.choice('model', ['plain', 'feedback'])
    m, p = model(h, which)
    over = {'v': h.real('vv', -30, 30)} if h.choice('over', [0, 1]) else {}
    ivp, eig = Ivp(h), Eig(h)
    stub(h, 'scipy.integrate.solve_ivp', ivp)
    stub(h, 'numpy.linalg.eig', eig)
    times = [h.real('t0', -9, 1), h.real('t2', 3, 90)]
    if over:
        times += [times[-1] + h.real('dt', 0.01, 1) * k for k in range(1, 5)]
    n = len(times)
    res = m.simulate_modes(times, **over)
    A, B = m.form_state_space_matrices(**over)
    h.true('one run per mode', len(ivp.calls) == 4 and
           res.shape == (4, n, 4))
    a, w, v = eig.calls[-1]
    h.eq('decomposed matrix', a, A)
    for i, c in enumerate(ivp.calls):
        problem(h, c, A, B, None, times, [v[r, i].real for r in range(4)],
                'mode %d ' % i)
        for j in range(n):
            h.eq('mode %d state' % i, list(res[i, j]), list(c.y[:, j]))
