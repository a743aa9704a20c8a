"""Inputs and reference formulas shared by the harnesses.  The references are
written from the published definitions, not from the package's source."""
import importlib
import math
import sys

# parameter: (low, high) declared input ranges for the benchmark bicycle
BENCH = {
    'IBxx': (0.01, 300), 'IBxz': (-50, 50), 'IByy': (0.01, 300),
    'IBzz': (0.01, 300), 'IFxx': (0, 5), 'IFyy': (0, 9),
    'IHxx': (0.001, 20), 'IHxz': (-3, 3), 'IHyy': (0.001, 20),
    'IHzz': (0.001, 20), 'IRxx': (0, 5), 'IRyy': (0, 9),
    'c': (-0.5, 1.5), 'g': (0.1, 30), 'lam': (-1.2, 1.4),
    'mB': (0.1, 500), 'mF': (0.01, 60), 'mH': (0.01, 60), 'mR': (0.01, 60),
    'rF': (0.05, 1.5), 'rR': (0.05, 1.5), 'v': (-60, 60), 'w': (0.2, 5),
    'xB': (-2, 5), 'xH': (-1, 6), 'zB': (-4, 0), 'zH': (-4, 0),
}

P27 = sorted(BENCH)


def bench(h, skip=(), prefix=''):
    p = {}
    for k, (lo, hi) in BENCH.items():
        if k in skip:
            continue
        nm = prefix + k
        p[k] = h.angle(nm, lo, hi) if k == 'lam' else h.real(nm, lo, hi)
    return p


def canonical_reference(h, p):
    """M, C1, K0, K2 of Meijaard, Papadopoulos, Ruina & Schwab (2007),
    Appendix A: built from body lists with the parallel axis theorem."""
    s, c = h.sin(p['lam']), h.cos(p['lam'])
    # (mass, x, z, Ixx, Izz, Ixz) about each mass centre; z down, wheel
    # centres above the ground have negative z
    R = (p['mR'], 0, -p['rR'], p['IRxx'], p['IRxx'], 0)
    B = (p['mB'], p['xB'], p['zB'], p['IBxx'], p['IBzz'], p['IBxz'])
    H = (p['mH'], p['xH'], p['zH'], p['IHxx'], p['IHzz'], p['IHxz'])
    F = (p['mF'], p['w'], -p['rF'], p['IFxx'], p['IFxx'], 0)

    def assemble(bodies, about=None):
        m = sum(b[0] for b in bodies)
        x = sum(b[0] * b[1] for b in bodies) / m
        z = sum(b[0] * b[2] for b in bodies) / m
        ox, oz = (x, z) if about is None else about
        ixx = sum(b[3] + b[0] * (b[2] - oz)**2 for b in bodies)
        izz = sum(b[4] + b[0] * (b[1] - ox)**2 for b in bodies)
        ixz = sum(b[5] - b[0] * (b[1] - ox) * (b[2] - oz) for b in bodies)
        return m, x, z, ixx, izz, ixz

    mT, xT, zT, ITxx, ITzz, ITxz = assemble((R, B, H, F), (0, 0))
    mA, xA, zA, IAxx, IAzz, IAxz = assemble((H, F))
    # distance of the front assembly's mass centre ahead of the steer axis
    uA = (xA - p['w'] - p['c']) * c - zA * s
    IAll = mA * uA**2 + IAxx * s**2 + 2 * IAxz * s * c + IAzz * c**2
    IAlx = -mA * uA * zA + IAxx * s + IAxz * c
    IAlz = mA * uA * xA + IAxz * s + IAzz * c
    mu = p['c'] * c / p['w']
    SR, SF = p['IRyy'] / p['rR'], p['IFyy'] / p['rF']
    ST = SR + SF
    SA = mA * uA + mu * mT * xT
    M = [[ITxx, IAlx + mu * ITxz],
         [IAlx + mu * ITxz, IAll + 2 * mu * IAlz + mu**2 * ITzz]]
    K0 = [[mT * zT, -SA], [-SA, -SA * s]]
    K2 = [[0, (ST - mT * zT) * c / p['w']], [0, (SA + SF * s) * c / p['w']]]
    C1 = [[0, mu * ST + SF * c + ITxz * c / p['w'] - mu * mT * zT],
          [-(mu * ST + SF * c),
           IAlz * c / p['w'] + mu * (SA + ITzz * c / p['w'])]]
    return M, C1, K0, K2


HOW = ['none', 'all', 'some', 'others']


def uncertain(h, par, how, std=0.001):
    """the parameters with uncertainties: none of them, all, every second in
    alphabetical order or the others"""
    pick = {'none': (), 'all': (0, 1), 'some': (0,), 'others': (1,)}[how]
    on = {k for i, k in enumerate(sorted(par)) if i % 2 in pick}
    return {k: h.ufloat(v, h.const(std)) if k in on else v
            for k, v in par.items()}


def stub(h, dotted, fn):
    """Replace an external routine, in both the symbolic and the concrete
    run; in the latter wherever the package's modules hold a reference."""
    if h.symbolic:
        h.ext(dotted, fn)
        return
    for m in ('bicycle', 'models', 'main', 'period', 'rider'):
        h.mod(m)        # a later import must not pick up the stand-in
    modname, _, attr = dotted.rpartition('.')
    owner = importlib.import_module(modname)
    old = getattr(owner, attr)
    h.patch(owner, attr, fn)
    for name, m in list(sys.modules.items()):
        if name.startswith('bicycleparameters') and m is not None:
            for k, v in list(vars(m).items()):
                if v is old:
                    h.patch(m, k, fn)


def pyplot(h, *modules):
    """A recording pyplot; returns it."""
    p = h.plt()
    for m in modules:
        mod = h.mod(m)
        for k in ('plt',):
            if hasattr(mod, k):
                h.patch(mod, k, p)
    return p


class Result:
    def __init__(self, **k):
        self.__dict__.update(k)


# range of the principal parameterization (bicycle and rider bodies D, P, H
# and the wheels F, R)
PRINC = {
    'alphaD': (-1.5, 1.5), 'alphaH': (-1.5, 1.5), 'alphaP': (-1.5, 1.5),
    'c': (-0.1, 0.4), 'g': (1, 20),
    'kDaa': (0.05, 1), 'kDbb': (0.05, 1), 'kDyy': (0.05, 1),
    'kFaa': (0.05, 0.5), 'kFyy': (0.05, 0.5),
    'kHaa': (0.05, 1), 'kHbb': (0.05, 1), 'kHyy': (0.05, 1),
    'kPaa': (0.05, 1), 'kPbb': (0.05, 1), 'kPyy': (0.05, 1),
    'kRaa': (0.05, 0.5), 'kRyy': (0.05, 0.5), 'lP': (0.2, 2),
    'lam': (-0.6, 1.2), 'mD': (1, 40), 'mF': (0.2, 20), 'mH': (0.2, 20),
    'mP': (1, 150), 'mR': (0.2, 20), 'rF': (0.1, 0.6), 'rR': (0.1, 0.6),
    'v': (-12, 12), 'w': (0.5, 2), 'wP': (0.1, 1),
    'xD': (-0.5, 1.5), 'xH': (0.1, 1.8), 'xP': (-0.5, 1.5),
    'zD': (-2, -0.1), 'zH': (-1.8, -0.1), 'zP': (-2, -0.1),
}


def princ(h, skip=(), prefix=''):
    p = {}
    for k, (lo, hi) in PRINC.items():
        if k in skip:
            continue
        p[k] = (h.angle if k == 'lam' or k.startswith('alpha') else
                h.real)(prefix + k, lo, hi)
    return p


def center(p, body):
    """(x, y, z) of a body's mass centre in either parameterization"""
    if body == 'R':
        return [0, 0, -p['rR']]
    if body == 'F':
        return [p['w'], 0, -p['rF']]
    return [p['x' + body], 0, p['z' + body]]


def merged_center(p, bodies):
    m = sum(p['m' + b] for b in bodies)
    return [sum(p['m' + b] * center(p, b)[i] for b in bodies) / m
            for i in range(3)]


def principal_tensor(h, p, body):
    """xx, yy, zz, xz about the mass centre: sum of m k^2 e e^T with the
    first axis turned by alpha about y from x (towards -z)"""
    s, c = h.sin(p['alpha' + body]), h.cos(p['alpha' + body])
    m = p['m' + body]
    a, y, b = [m * p['k%s%s' % (body, k)]**2 for k in ('aa', 'yy', 'bb')]
    return a * c**2 + b * s**2, y, a * s**2 + b * c**2, (b - a) * s * c


def shapes(ax):
    """patches added to recorded axes: [(kind, {geometry})]"""
    sig = {'Circle': ('xy', 'radius'), 'Ellipse': ('xy', 'width', 'height',
                                                   'angle'),
           'Wedge': ('center', 'r', 'theta1', 'theta2'),
           'Rectangle': ('xy', 'width', 'height'), 'Polygon': ('xy',)}
    out = []
    for a, k in ax.named('add_patch'):
        p = a[0]
        if 'patch' in getattr(p, '__dict__', {}):
            kind, pa, pk = p.patch
            d = dict(zip(sig.get(kind, ()), pa))
            d.update(pk)
            if kind == 'Ellipse':
                d.setdefault('angle', 0)
        else:
            kind = type(p).__name__
            d = {}
            if kind == 'Circle':
                d = {'xy': p.center, 'radius': p.radius}
            elif kind == 'Ellipse':
                d = {'xy': p.center, 'width': p.width, 'height': p.height,
                     'angle': p.angle}
            elif kind == 'Wedge':
                d = {'center': p.center, 'r': p.r, 'theta1': p.theta1,
                     'theta2': p.theta2}
        out.append((kind, d))
    return out


def met(h, name, make, par):
    """a model or parameter set; a second use of the code meets the one of
    the first, its parameters changed"""
    m = h.keep(name, make)
    ps = getattr(m, 'parameter_set', m)
    if h.kept:
        ps.parameters.update(par)
    return m
