"""Conversions between parameterizations describe the same bicycle."""
from engine.harness import harness
from .common import bench, princ, merged_center, principal_tensor, P27, PRINC
from .c04 import GAINS

EXTRA = ['yD', 'yP', 'yH', 'yR', 'yF']


def reference(h, p):
    """benchmark parameters of a bicycle given by principal properties"""
    r = {k: p[k] for k in ('w', 'c', 'lam', 'g', 'v', 'rR', 'rF', 'mR', 'mF',
                           'mH', 'xH', 'zH')}
    r['mB'] = p['mD'] + p['mP']
    cx, cy, cz = merged_center(p, 'DP')
    r['xB'], r['zB'] = cx, cz
    xx = yy = zz = xz = 0
    for b in 'DP':
        a = principal_tensor(h, p, b)
        m, dx, dz = p['m' + b], p['x' + b] - cx, p['z' + b] - cz
        xx += a[0] + m * dz**2
        yy += a[1] + m * (dx**2 + dz**2)
        zz += a[2] + m * dx**2
        xz += a[3] - m * dx * dz
    r['IBxx'], r['IByy'], r['IBzz'], r['IBxz'] = xx, yy, zz, xz
    r['IHxx'], r['IHyy'], r['IHzz'], r['IHxz'] = principal_tensor(h, p, 'H')
    for b in 'RF':
        r['I%sxx' % b] = p['m' + b] * p['k%saa' % b]**2
        r['I%syy' % b] = p['m' + b] * p['k%syy' % b]**2
    return r


@harness('C12', 'principal', bounds='all 36 principal parameters symbolic; '
         'with and without the optional lateral coordinates')
def principal(h):
    p = princ(h)
    opt = h.choice('optional', [False, True])
    to = h.choice('to', ['Meijaard2007', 'Meijaard2007WithFeedback'])
    PS = h.mod('parameter_sets')
    q = dict(p)
    if opt:
        q.update({k: h.const(0) for k in EXTRA})
    ps = PS.Moore2019ParameterSet(q)
    got = ps.to_parameterization(to)
    h.true('class', type(got).__name__ == to + 'ParameterSet')
    h.true('name', got.parameterization == to)
    h.true('includes the rider', got.includes_rider is True)
    ref = reference(h, p)
    for k in P27:
        h.eq(k, got.parameters[k], ref[k])
    if to != 'Meijaard2007':
        for k in GAINS:
            h.eq(k, got.parameters[k], 0)
    h.true('source keys kept', set(ps.parameters) == set(q) and
           set(q) == set(p) | (set(EXTRA) if opt else set()))
    for k in p:
        h.eq('source ' + k, ps.parameters[k], p[k])
    # group centres agree in both descriptions
    h.eq('center of the rear frame and rider', got.mass_center_of('B'),
         ps.mass_center_of('D', 'P'))
    h.eq('center of everything', got.mass_center_of(*'BFHR'),
         ps.mass_center_of(*'DFHPR'))


@harness('C12', 'feedback', bounds='all 27 parameters symbolic, with or '
         'without rider')
def feedback(h):
    p = bench(h)
    rider = h.choice('rider', [True, False])
    ps = h.mod('parameter_sets').Meijaard2007ParameterSet(dict(p), rider)
    got = ps.to_parameterization('Meijaard2007WithFeedback')
    h.true('class', type(got).__name__ ==
           'Meijaard2007WithFeedbackParameterSet')
    h.true('rider', got.includes_rider is rider)
    h.true('keys', set(got.parameters) == set(P27) | set(GAINS))
    for k in P27:
        h.eq(k, got.parameters[k], p[k])
    for k in GAINS:
        h.eq(k, got.parameters[k], 0)
    h.true('source keys', set(ps.parameters) == set(P27))
    got.parameters['mB'] = got.parameters['mB'] + 1
    h.eq('independent of the source', ps.parameters['mB'], p['mB'])


@harness('C12', 'moore2012', bounds='all 27 parameters symbolic, with or '
         'without rider; steer axis tilt up to 1.2 rad')
def moore2012(h):
    p = bench(h)
    rider = h.choice('rider', [True, False])
    ps = h.mod('parameter_sets').Meijaard2007ParameterSet(dict(p), rider)
    got = ps.to_parameterization('Moore2012')
    h.true('class', type(got).__name__ == 'Moore2012ParameterSet')
    h.true('rider', got.includes_rider is rider)
    q = got.parameters
    s, c = h.sin(p['lam']), h.cos(p['lam'])
    for a, b in (('rr', 'rR'), ('rf', 'rF'), ('mc', 'mB'), ('md', 'mR'),
                 ('me', 'mH'), ('mf', 'mF'), ('g', 'g'), ('v', 'v'),
                 ('id11', 'IRxx'), ('id22', 'IRyy'), ('if11', 'IFxx'),
                 ('if22', 'IFyy'), ('ic22', 'IByy'), ('ie22', 'IHyy')):
        h.eq(a, q[a], p[b])
    # frame axes: e1 perpendicular to the steer axis (forward, down), e3
    # along the steer axis (down, forward)
    e1, e3 = (c, -s), (s, c)
    # rear wheel centre + d1 e1 + d2 e3 + d3 e1 is the front wheel centre
    for i, (a, b) in enumerate(((0, p['w']), (-p['rR'], -p['rF']))):
        h.eq('closure %d' % i, a + (q['d1'] + q['d3']) * e1[i] +
             q['d2'] * e3[i], b)
    # the steer axis passes the trail point at distance c behind the front
    # contact: on the line through the rear centre + d1 e1 along e3
    px, pz = q['d1'] * e1[0], -p['rR'] + q['d1'] * e1[1]
    h.eq('trail point on the steer axis', (p['w'] + p['c'] - px) * e3[1] -
         (0 - pz) * e3[0], 0)
    # mass centres
    for i in range(2):
        h.eq('frame center %d' % i, (0, -p['rR'])[i] + q['l1'] * e1[i] +
             q['l2'] * e3[i], (p['xB'], p['zB'])[i])
        h.eq('fork center %d' % i, (p['w'], -p['rF'])[i] + q['l3'] * e1[i] +
             q['l4'] * e3[i], (p['xH'], p['zH'])[i])
    # inertia: turning back the frame axes gives the original tensor
    for n, b in (('c', 'B'), ('e', 'H')):
        i11, i33, i31 = q['i%s11' % n], q['i%s33' % n], q['i%s31' % n]
        T = lambda i, j: (i11 * e1[i] * e1[j] + i33 * e3[i] * e3[j] +
                          i31 * (e1[i] * e3[j] + e3[i] * e1[j]))
        h.eq('Ixx ' + b, T(0, 0), p['I%sxx' % b])
        h.eq('Izz ' + b, T(1, 1), p['I%szz' % b])
        h.eq('Ixz ' + b, T(0, 1), p['I%sxz' % b])
    for k in P27:
        h.eq('source ' + k, ps.parameters[k], p[k])


@harness('C12', 'identity', bounds='each of the five parameterizations '
         'converted to itself and to an unknown or impossible one')
def identity(h):
    PS = h.mod('parameter_sets')
    which = h.choice('set', ['Meijaard2007', 'Meijaard2007WithFeedback',
                             'Moore2019', 'Moore2012'])
    p = bench(h)
    b = PS.Meijaard2007ParameterSet(dict(p), True)
    if which == 'Moore2019':
        ps = PS.Moore2019ParameterSet(princ(h))
    else:
        ps = b.to_parameterization(which)
    h.true('parameterization', ps.parameterization == which)
    h.true('itself', ps.to_parameterization(which) is ps)
    for bad in ('Nonsense', 'MooreRiderLean2012', ''):
        with h.raises('refused ' + bad, ValueError):
            ps.to_parameterization(bad)


@harness('C12', 'rider_lean', bounds='a rider lean set converted to itself '
         'and to others')
def rider_lean(h):
    PS = h.mod('parameter_sets')
    keys = list(PS.MooreRiderLean2012ParameterSet.par_strings)
    p = {k: h.real(k, 0.1, 2) for k in keys}
    ps = PS.MooreRiderLean2012ParameterSet(p)
    h.true('itself', ps.to_parameterization('MooreRiderLean2012') is ps)
    for bad in ('Meijaard2007', 'Moore2012', 'x'):
        with h.raises('refused ' + bad, ValueError):
            ps.to_parameterization(bad)
    for k in keys:
        h.eq(k, ps.parameters[k], p[k])


@harness('C12', 'required', bounds='every required parameter of every '
         'parameterization missing or not a float')
def required(h):
    PS = h.mod('parameter_sets')
    name = h.choice('set', ['Meijaard2007', 'Meijaard2007WithFeedback',
                            'Moore2019', 'Moore2012', 'MooreRiderLean2012'])
    cls = getattr(PS, name + 'ParameterSet')
    keys = list(cls.par_strings)
    good = {k: 1.0 + i for i, k in enumerate(keys)}
    args = () if name in ('Moore2019', 'MooreRiderLean2012') else (True,)
    ps = cls(dict(good), *args)
    h.true('accepted', ps.parameters == good)
    h.true('labelled', ps.parameterization == name)
    for k in keys:
        bad = dict(good)
        del bad[k]
        with h.raises('missing ' + k, ValueError):
            cls(bad, *args)
        for v in ('1.0', None, [1.0]):
            bad = dict(good)
            bad[k] = v
            with h.raises('invalid ' + k, ValueError):
                cls(bad, *args)


@harness('C12', 'dynamics', bounds='principal parameters: masses, centers '
         'and radii of the rear frame and rider symbolic, the rest at a '
         'fixed rational point')
def dynamics(h):
    """the linear model of the converted set is that of the bicycle built
    from its bodies"""
    from .common import canonical_reference
    from fractions import Fraction
    fixed = {k: Fraction(int((lo * 3 + hi) * 250), 1000)
             for k, (lo, hi) in PRINC.items()}
    p = princ(h)
    for k in p:
        if not (k[1:] in ('D', 'P') or k[1:3] in ('Da', 'Db', 'Pa', 'Pb') or
                k in ('alphaD', 'lam', 'c', 'w')):
            p[k] = h.const(fixed[k])
    ps = h.mod('parameter_sets').Moore2019ParameterSet(dict(p))
    b = ps.to_parameterization('Meijaard2007')
    m = h.mod('models').Meijaard2007Model(b)
    R = canonical_reference(h, reference(h, p))
    for n, a, r in zip(('M', 'C1', 'K0', 'K2'),
                       m.form_reduced_canonical_matrices(), R):
        h.eq(n, a, r)


@harness('C12', 'changed', bounds='a set of any parameters converted, changed '
         'in place or replaced, and converted again; two sets in turn')
def changed(h):
    which = h.choice('set', ['principal', 'benchmark', 'lean'])
    PS = h.mod('parameter_sets')
    to = {'principal': 'Meijaard2007', 'lean': 'Moore2012',
          'benchmark': 'Meijaard2007WithFeedback'}[which]
    draw = princ if which == 'principal' else bench
    pars = [draw(h), draw(h, (), 'o_')]
    sets = [PS.Moore2019ParameterSet(dict(q)) if which == 'principal' else
            PS.Meijaard2007ParameterSet(dict(q), i == 0)
            for i, q in enumerate(pars)]

    def ask(i):
        p, got = pars[i], sets[i].to_parameterization(to)
        q = got.parameters
        h.true('rider', got.includes_rider is (
            True if which == 'principal' else i == 0))
        if which == 'principal':
            ref = reference(h, p)
            for k in ('mB', 'xB', 'zB', 'IByy', 'IBxz', 'IHzz', 'w', 'IRyy'):
                h.eq(k, q[k], ref[k])
        elif which == 'benchmark':
            for k in P27:
                h.eq(k, q[k], p[k])
            for k in GAINS:
                h.eq(k, q[k], 0)
        else:
            s, c = h.sin(p['lam']), h.cos(p['lam'])
            h.eq('mc', q['mc'], p['mB'])
            h.eq('closure', (q['d1'] + q['d3']) * c + q['d2'] * s, p['w'])
            h.eq('frame center', q['l1'] * c + q['l2'] * s, p['xB'])
        q['mB' if which != 'lean' else 'mc'] = h.const(77)
    ask(0)
    ask(1)
    how = h.choice('change', ['w', 'rR', 'all'])
    if how == 'all':
        pars.reverse()
        for q, ps in zip(pars, sets):
            ps.parameters = dict(q)
    else:
        pars[0] = dict(pars[0])
        pars[0][how] = h.real('new', 0.3, 0.4)
        sets[0].parameters[how] = pars[0][how]
    ask(0)
    ask(1)
    ask(0)
