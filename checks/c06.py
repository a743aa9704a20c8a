"""Validation of parameter overrides, shared by all models."""
import warnings
from fractions import Fraction

from engine.harness import harness
from .common import bench, met, P27
from .c04 import GAINS
from .c05 import ORDER, Root, point, build as build_lean


def model(h, which, root=True):
    mods, ps = h.mod('models'), h.mod('parameter_sets')
    if which == 'lean':
        r = Root(h)
        p, lam = point(h, 0, ('k9', 'g'))
        r.cands = [lam]
        return build_lean(h, p), p
    p = bench(h)
    if which == 'plain':
        return met(h, 'model', lambda: mods.Meijaard2007Model(
            ps.Meijaard2007ParameterSet(dict(p), True)), p), p
    for g in GAINS:
        p[g] = h.real(g, -500, 500)
    return met(h, 'model', lambda: mods.Meijaard2007WithFeedbackModel(
        ps.Meijaard2007WithFeedbackParameterSet(dict(p), True)), p), p


MODELS = ('plain', 'feedback', 'lean')


def unchanged(h, m, p):
    got = m.parameter_set.parameters
    h.true('stored keys', set(got) == set(p))
    for k in p:
        h.eq('stored ' + k, got[k], p[k])


@harness('C06', 'unknown', bounds='three models; unknown names alone and '
         'together with valid scalars and arrays')
def unknown(h):
    m, p = model(h, h.choice('model', MODELS))
    kw = h.choice('kw', [{'zz': 1.0}, {'mass': [1.0, 2.0, 3.0]},
                         {'V': 2.0, 'v': 'x'}, {'bogus': [1.0], 'v': 'xy'}])
    x, y = h.real('x', -9, 9), h.real('y', -9, 9)
    kw = {k: x if v == 'x' else h.arr([x, y]) if v == 'xy' else v
          for k, v in kw.items()}
    good = {k: v for k, v in kw.items() if k == 'v'}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        A, B = m.form_state_space_matrices(**kw)
    h.true('warned', any('not a valid parameter' in str(x.message) or
                         [k for k in kw if k != 'v'][0] in str(x.message)
                         for x in w))
    A0, B0 = m.form_state_space_matrices(**good)
    h.eq('A', A, A0)
    h.eq('B', B, B0)
    unchanged(h, m, p)


@harness('C06', 'lengths', bounds='arrays of lengths 1 to 3 that differ, '
         'in either order, for every pair drawn from 6 parameters')
def lengths(h):
    which = h.choice('model', MODELS)
    m, p = model(h, which)
    names = {'plain': ('v', 'g', 'mB', 'w'),
             'feedback': ('v', 'g', 'mB', 'kTdel_phi', 'kTphi_deld'),
             'lean': ('v', 'g', 'mc', 'k9')}[which]
    a = h.choice('a', names)
    b = h.choice('b', [n for n in names if n != a])
    la, lb = h.choice('len', [(2, 3), (3, 2), (1, 2), (2, 1)])
    kw = {a: h.arr([h.real('a%d' % i, 1, 5) for i in range(la)]),
          b: [h.real('b%d' % i, 1, 5) for i in range(lb)]}
    with h.raises('refused', ValueError):
        m.form_state_space_matrices(**kw)
    with h.raises('refused by calc_eigen', ValueError):
        m.calc_eigen(**kw)
    unchanged(h, m, p)


@harness('C06', 'fixed_only', bounds='simulating with an array parameter '
         'is refused; three models')
def fixed_only(h):
    which = h.choice('model', MODELS)
    m, p = model(h, which)
    k = h.choice('key', ['g', 'mB' if which != 'lean' else 'k9'])
    kw = {k: h.arr([h.real('a', 1, 5), h.real('b', 1, 5)])}
    n = 12 if which == 'lean' else 4
    with h.raises('simulate', ValueError):
        m.simulate([0.0, 1.0], [0.0] * n, **kw)
    with h.raises('simulate_modes', ValueError):
        m.simulate_modes([0.0, 1.0], **kw)
    unchanged(h, m, p)


@harness('C06', 'integers', bounds='integer scalar overrides 1..3 for each '
         'parameter of the benchmark model')
def integers(h):
    m, p = model(h, 'plain')
    k = h.choice('key', [k for k in P27 if k != 'lam'])
    n = h.choice('n', [1, 3])
    A, B = m.form_state_space_matrices(**{k: n})
    A0, B0 = m.form_state_space_matrices(**{k: float(n)})
    h.eq('A', A, A0)
    h.eq('B', B, B0)
    unchanged(h, m, p)


@harness('C06', 'sequence', bounds='three successive evaluations with '
         'different overrides, then the defaults again; three models')
def sequence(h):
    which = h.choice('model', MODELS)
    m, p = model(h, which)
    k = h.choice('key', ('v', 'g', 'mB') if which != 'lean' else
                 ('v', 'g', 'k9'))
    A0, B0 = m.form_state_space_matrices()
    x, y = h.real('x', 1, 9), h.real('y', 1, 9)
    m.form_state_space_matrices(**{k: x})
    m.form_state_space_matrices(**{k: h.arr([x, y])})
    m.form_state_space_matrices(**{k: [y, x, y]})
    A1, B1 = m.form_state_space_matrices()
    h.eq('A', A1, A0)
    h.eq('B', B1, B0)
    unchanged(h, m, p)
