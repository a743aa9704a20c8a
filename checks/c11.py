"""Mass centres and inertia tensors of bodies and groups of bodies."""
import itertools

from engine.harness import harness
from .common import bench, met, princ, center, merged_center

GROUPS4 = [g for n in (2, 3, 4) for g in itertools.permutations('BFHR', n)]
GROUPS5 = [g for n in (2, 3, 4, 5) for g in itertools.combinations('DFHPR',
                                                                   n)]
GROUPS5 += [tuple(reversed(g)) for g in GROUPS5]


@harness('C11', 'single', bounds='every body of both parameterizations, all '
         'parameters symbolic')
def single(h):
    which = h.choice('set', ['benchmark', 'feedback', 'principal'])
    PS = h.mod('parameter_sets')
    if which == 'principal':
        p = princ(h)
        ps, bodies = met(h, 'set', lambda: PS.Moore2019ParameterSet(dict(p)),
                         p), 'DFHPR'
    elif which == 'benchmark':
        p = bench(h)
        ps, bodies = met(h, 'set', lambda: PS.Meijaard2007ParameterSet(
            dict(p), True), p), 'BFHR'
    else:
        p = bench(h)
        ps = PS.Meijaard2007ParameterSet(dict(p), True).to_parameterization(
            'Meijaard2007WithFeedback')
        bodies = 'BFHR'
    before = dict(ps.parameters)
    for b in bodies:
        h.eq('vector ' + b, ps.form_mass_center_vector(b), center(p, b))
        h.eq('center of one ' + b, ps.mass_center_of(b), center(p, b))
    if which != 'principal':
        for b in bodies:
            sym = b in 'FR'
            xx, yy = p['I%sxx' % b], p['I%syy' % b]
            zz = xx if sym else p['I%szz' % b]
            xz = 0 if sym else p['I%sxz' % b]
            h.eq('tensor ' + b, ps.form_inertia_tensor(b),
                 [[xx, 0, xz], [0, yy, 0], [xz, 0, zz]])
    h.true('parameters kept', set(before) == set(ps.parameters))
    h.eq('parameters', ps.parameters, before)


@harness('C11', 'groups', bounds='every ordered group of 2-4 benchmark '
         'bodies', shards=4)
def groups(h):
    g = h.choice('group', GROUPS4)
    p = bench(h)
    ps = met(h, 'set', lambda: h.mod(
        'parameter_sets').Meijaard2007ParameterSet(dict(p), True), p)
    h.eq('center', ps.mass_center_of(*g), merged_center(p, g))


@harness('C11', 'groups_principal', bounds='every group of 2-5 bodies of the '
         'principal parameterization in two orders', shards=4)
def groups_principal(h):
    g = h.choice('group', GROUPS5)
    p = princ(h)
    ps = met(h, 'set', lambda: h.mod(
        'parameter_sets').Moore2019ParameterSet(dict(p)), p)
    h.eq('center', ps.mass_center_of(*g), merged_center(p, g))


@harness('C11', 'changed', bounds='two sets of one parameterization with any '
         'parameters asked in turn, before and after one mass or coordinate '
         'is changed in place or all parameters are replaced')
def changed(h):
    which = h.choice('set', ['principal', 'benchmark'])
    PS = h.mod('parameter_sets')
    mk = (lambda q: PS.Moore2019ParameterSet(q)) if which == 'principal' \
        else (lambda q: PS.Meijaard2007ParameterSet(q, True))
    draw = princ if which == 'principal' else bench
    pars = [draw(h), draw(h, (), 'o_')]
    sets = [mk(dict(q)) for q in pars]
    bodies = 'DFHPR' if which == 'principal' else 'BFHR'
    group = h.choice('group', [bodies[:2], bodies[1:], bodies])

    def ask(i):
        p, ps = pars[i], sets[i]
        for b in bodies:
            h.eq('vector ' + b, ps.form_mass_center_vector(b), center(p, b))
        h.eq('center', ps.mass_center_of(*group), merged_center(p, group))
        if which == 'principal':
            return
        xx, yy, zz, xz = [p['IH' + a] for a in ('xx', 'yy', 'zz', 'xz')]
        h.eq('tensor', sets[i].form_inertia_tensor('H'),
             [[xx, 0, xz], [0, yy, 0], [xz, 0, zz]])
    ask(0)
    ask(1)
    how = h.choice('change', ['mH', 'xH', 'w', 'rF', 'all'])
    if how == 'all':
        pars.reverse()
        for q, ps in zip(pars, sets):
            ps.parameters = dict(q)
    else:
        pars[0] = dict(pars[0])
        pars[0][how] = h.real('new', 0.2, 1.5)
        sets[0].parameters[how] = pars[0][how]
    ask(0)
    ask(1)


@harness('C11', 'total', bounds='1-4 or 7 arbitrary point masses, lists or '
         'arrays, with an arbitrary shift and split of a mass')
def total(h):
    com = h.mod('com')
    n = h.choice('n', [1, 2, 3, 4, 7])
    kind = h.choice('kind', ['list', 'array'])
    m = [h.pos('m%d' % i) for i in range(n)]
    X = [[h.real('%s%d' % (a, i), -3, 3) for i in range(n)] for a in 'xyz']
    mk = h.arr if kind == 'array' else lambda v: v
    mT, cT = com.total_com(mk(X), mk(m))
    h.eq('mass', mT, sum(m))
    for a in range(3):
        h.eq('first moment %d' % a, mT * cT[a],
             sum(m[i] * X[a][i] for i in range(n)))
    # splitting one mass in two changes nothing
    s = h.real('s', 0.1, 0.9)
    mT2, cT2 = com.total_com(mk([r + [r[0]] for r in X]),
                             mk([m[0] * s] + m[1:] + [m[0] * (1 - s)]))
    h.eq('mass after splitting', mT2, mT)
    h.eq('center after splitting', cT2, cT)
