"""The web application shows the bicycle in its tables."""
from fractions import Fraction

from engine.harness import harness
from .common import bench

LABELS = {
    'wheel': ('Radius', 'Mass', 'Ixx', 'Iyy'),
    'frame': ('Center of Mass X', 'Center of Mass Z', 'Total Mass', 'Ixx',
              'Iyy', 'Izz', 'Ixz'),
    'general': ('Wheel Base', 'Trail', 'Tilt', 'Gravity')}
CELLS = {
    ('wheel', 'fW'): ('rF', 'mF', 'IFxx', 'IFyy'),
    ('wheel', 'rW'): ('rR', 'mR', 'IRxx', 'IRyy'),
    ('frame', 'rB'): ('xB', 'zB', 'mB', 'IBxx', 'IByy', 'IBzz', 'IBxz'),
    ('frame', 'fA'): ('xH', 'zH', 'mH', 'IHxx', 'IHyy', 'IHzz', 'IHxz'),
    ('general', 'data'): ('w', 'c', 'lam', 'g')}
TABLES = ('wheel', 'frame', 'general')


class World:
    """the application with one bicycle of any parameters"""

    def __init__(self, h, unc):
        self.h = h
        self.app = h.mod('app')
        self.p = bench(h, ['v'])
        self.par = {k: h.ufloat(v, h.const(Fraction(1, 1000))) if unc and
                    k not in 'gw' else v for k, v in self.p.items()}
        self.bikes = {'Bike': self.par}
        world = self
        self.opened, self.geo, self.eig = [], [], []

        class Bike:
            def __init__(self, name, pathToData=None, **k):
                world.opened.append((name, pathToData))
                self.parameters = {'Benchmark': dict(world.bikes[name])}

            def seen(self):
                return {k: h.num(v) for k, v in
                        self.parameters['Benchmark'].items()}

            def _plot_bicycle_geometry_plotly(
                    self, show=True, pendulum=True, centerOfMass=True,
                    inertiaEllipse=True):
                world.geo.append((self.seen(), show, centerOfMass,
                                  inertiaEllipse))
                return 'geometry'

            def _plot_eigenvalues_vs_speed_plotly(
                    self, speeds, fig=None, show=True, largest=False,
                    stability_region=True):
                world.eig.append((self.seen(), show, speeds, largest,
                                  stability_region, fig))
                return 'eigenvalues'
        h.patch(self.app.bp, 'Bicycle', Bike)

    def tables(self, clicks=0, name='Bike'):
        return dict(zip(TABLES, self.app.populate_wheel_data(name, clicks)))

    def update(self, tables, options, slider, trigger, name='Bike', more=()):
        del self.geo[:], self.eig[:]

        class Context:
            inputs = {'bike-dropdown.value': name,
                      'geometry-checklist.value': options,
                      'range-slider.value': slider}
            triggered = [{'prop_id': t, 'value': None}
                         for t in (trigger,) + tuple(more)]
            triggered_id = trigger.split('.')[0]
            states = {}
        for k in TABLES:
            Context.inputs[k + '-table.data'] = tables[k]
        self.h.patch(self.app.dash, 'callback_context', Context())
        return self.app.plot_update(name, tables['wheel'], tables['frame'],
                                    tables['general'], options, slider)


def entries():
    for (t, col), names in CELLS.items():
        for i, n in enumerate(names):
            yield t, i, col, n


@harness('C24', 'tables', bounds='any parameters, numbers with and without '
         'uncertainty', stubs='bicycle object: any benchmark parameters; '
         'dash recorded')
def tables(h):
    w = World(h, h.choice('uncertain', [False, True]))
    t = w.tables(h.choice('clicks', [0, 1]))
    h.true('the chosen bicycle of the application', len(w.opened) > 0 and
           all(o == ('Bike', w.app.PATH_TO_APP_DATA) for o in w.opened))
    for k in TABLES:
        h.true('rows of ' + k, len(t[k]) == len(LABELS[k]))
        for row, lab in zip(t[k], LABELS[k]):
            h.true('label', lab in row['label'])
            h.same('columns', sorted(row), sorted(['label'] + [
                c for a, c in CELLS if a == k]))
    for k, i, col, n in entries():
        v = t[k][i][col]
        h.true('plain number', not hasattr(v, 'std_dev'))
        h.eq(n, v * h.pi / 180 if n == 'lam' else v, w.p[n])


TRIGGERS = ('wheel-table.data', 'frame-table.data', 'general-table.data',
            'geometry-checklist.value', 'range-slider.value')
OPTIONS = ([], ['centers'], ['ellipse', 'centers'], ['stability'],
           ['centers', 'stability', 'ellipse'])
SLIDERS = ((0, 10), (-45, 45), (-10, 0), (5, 5), (5, 10))


def figures(h, w, got, want, options, slider):
    h.same('both figures', sorted(got), ['eigenvalues', 'geometry'])
    (seen, show, com, ell), = w.geo
    h.true('mass centers when ticked', bool(com) is ('centers' in options))
    h.true('ellipses when ticked', bool(ell) is ('ellipse' in options))
    (seen2, show2, v, largest, region, fig), = w.eig
    h.true('stability when ticked', bool(region) is ('stability' in options))
    h.true('shown in the page only', not show and not show2 and not largest
           and fig is None)
    v = [float(x) for x in v]
    h.eq('speeds', [v[0], v[-1]], list(slider))
    h.true('fine speeds', all(0 <= b - a < 0.15 for a, b in zip(v, v[1:])))
    for nm, s in (('geometry', seen), ('eigenvalues', seen2)):
        h.same('parameters', sorted(s), sorted(want))
        for k in want:
            h.eq('%s of %s' % (k, nm), s[k], want[k])


@harness('C24', 'chosen', bounds='any parameters; bicycle chosen, or '
         'anything else changed with the tables as they were filled',
         stubs='as above; figures recorded (C27)', shards=2)
def chosen(h):
    w = World(h, h.choice('uncertain', [False, True]))
    trig = h.choice('trigger', ('bike-dropdown.value',) + TRIGGERS)
    options = h.choice('options', OPTIONS)
    slider = h.choice('slider', SLIDERS if trig == TRIGGERS[-1] else
                      SLIDERS[:1])
    # the tables are filled anew when a bicycle is chosen
    got = w.update(w.tables(), list(options), list(slider), trig,
                   more=TRIGGERS[:3] if trig not in TRIGGERS and
                   'ellipse' in options else ())
    figures(h, w, got, w.p, options, slider)


@harness('C24', 'edited', bounds='any parameters and any values typed into '
         'every table', stubs='as above')
def edited(h):
    w = World(h, h.choice('uncertain', [False, True]))
    trig = h.choice('trigger', TRIGGERS)
    t = w.tables()
    want = {}
    for k, i, col, n in entries():
        x = h.angle('new_lam', -0.6, 1.2) if n == 'lam' else \
            h.real('new_' + n, 0.1, 9)
        want[n] = x
        t[k][i][col] = x * 180 / h.pi if n == 'lam' else x
    got = w.update(t, ['centers'], [0, 10], trig)
    figures(h, w, got, want, ['centers'], (0, 10))
    h.eq('bicycle as it was', [h.num(w.par[k]) for k in sorted(w.p)],
         [w.p[k] for k in sorted(w.p)])


@harness('C24', 'history', bounds='two bicycles of any parameters; sequences '
         'of three to six choices, edits of one cell or all cells, changes '
         'of options, and resets', stubs='as above')
def history(h):
    w = World(h, h.choice('uncertain', [False, True]))
    w.bikes['Other'] = {k: h.real('other_' + k, 0.1, 0.9) for k in w.p}
    pure = {'Bike': w.p, 'Other': w.bikes['Other']}
    steps = h.choice('steps', [
        'choose edit reset option', 'edit other option', 'edit edit',
        'option other edit first slider', 'choose other first other',
        'edit option reset edit other first', 'all slider edit',
        'all other all reset', 'choose slider choose edit edit'])
    name, t = 'Bike', w.tables()
    shown = dict(w.p)
    options, slider = [], (0, 10)
    for step, what in enumerate(steps.split()):
        trig = 'frame-table.data'
        if what in ('choose', 'other', 'first'):
            name = {'other': 'Other', 'first': 'Bike'}.get(what, name)
            t, shown = w.tables(0, name), dict(pure[name])
            trig = 'bike-dropdown.value'
        elif what == 'reset':
            t, shown = w.tables(step, name), dict(pure[name])
        elif what == 'option':
            options = [x for x in ('centers', 'stability')
                       if x not in options]
            trig = 'geometry-checklist.value'
        elif what == 'slider':
            slider = (-5, 5 + step)
            trig = 'range-slider.value'
        else:
            cells = [e for i, e in enumerate(entries())
                     if what == 'all' or i == 7 + 4 * step]
            for k, i, col, n in cells:
                x = h.angle('lam%d' % step, -0.6, 1.2) if n == 'lam' else \
                    h.real('%s%d' % (n, step), 0.1, 9)
                shown[n] = x
                t[k][i][col] = x * 180 / h.pi if n == 'lam' else x
                trig = k + '-table.data'
        # the page sends copies
        sent = {k: [dict(r) for r in t[k]] for k in t}
        got = w.update(sent, list(options), list(slider), trig, name)
        figures(h, w, got, shown, options, slider)
