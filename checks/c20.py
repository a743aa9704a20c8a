"""Saving, loading and displaying parameter sets."""
import os
import re

from engine.harness import harness
from .common import bench, princ

SETS = ['Meijaard2007', 'Meijaard2007WithFeedback', 'Moore2019', 'Moore2012',
        'MooreRiderLean2012']


def fresh(h, name, rider, lo=-50, hi=50):
    """a parameter set with arbitrary values"""
    cls = getattr(h.mod('parameter_sets'), name + 'ParameterSet')
    p = {k: h.real(k, lo, hi) for k in cls.par_strings}
    args = () if name in ('Moore2019', 'MooreRiderLean2012') else (rider,)
    return cls, p, cls(p, *args)


@harness('C20', 'yaml', bounds='each of the five parameterizations, all '
         'values arbitrary, with and without rider; file new or overwritten')
def yaml_(h):
    name = h.choice('set', SETS)
    rider = h.choice('rider', [True, False])
    cls, p, ps = fresh(h, name, rider)
    f = os.path.join(h.scratch(), 'p.yml')
    if h.choice('exists', [False, True]):
        with open(f, 'w') as g:
            g.write('values: {old: 1.0}\n' * 50)
    keep = dict(p)
    ps.to_yaml(f)
    h.true('set unchanged', list(ps.parameters) == list(keep) and
           all(ps.parameters[k] is keep[k] for k in keep))
    data = h.mod('parameter_sets').yaml.safe_load(open(f))
    h.same('labelled', data['parameterization'], name)
    h.same('names', sorted(data['values']), sorted(p))
    for k in p:
        h.eq('stored ' + k, data['values'][k], p[k], tol=1e-13)
    new = cls._from_yaml(f)
    h.same('same kind', new.parameterization, name)
    h.same('names loaded', sorted(new.parameters), sorted(p))
    for k in p:
        h.eq('loaded ' + k, new.parameters[k], p[k], tol=1e-13)
    if name.startswith('Meijaard') or name == 'Moore2012':
        h.same('rider', bool(new.includes_rider), rider)


@harness('C20', 'converted', bounds='a principal set with arbitrary values '
         'converted to the benchmark parameterizations, or a benchmark set to '
         'that of 2012, saved and loaded')
def converted(h):
    PS = h.mod('parameter_sets')
    name = h.choice('target', ['Meijaard2007', 'Meijaard2007WithFeedback',
                               'Moore2012'])
    if name == 'Moore2012':
        ps = PS.Meijaard2007ParameterSet(bench(h), True)
        ps = ps.to_parameterization(name)
    else:
        ps = PS.Moore2019ParameterSet(princ(h)).to_parameterization(name)
    f = os.path.join(h.scratch(), 'p.yml')
    ps.to_yaml(f)
    new = type(ps)._from_yaml(f)
    h.true('rider', new.includes_rider)
    for k in ps.par_strings:
        h.eq(k, new.parameters[k], ps.parameters[k], tol=1e-13)


@harness('C20', 'ini', bounds='each of the five parameterizations, all values '
         'arbitrary between 0.001 and 50 in size')
def ini(h):
    name = h.choice('set', SETS)
    sign = h.choice('sign', [1, -1])
    cls, p, ps = fresh(h, name, True, *((0.001, 50) if sign > 0 else
                                        (-50, -0.001)))
    f = os.path.join(h.scratch(), 'p.ini')
    ps.to_ini(f)
    with open(f) as g:
        lines = [x for x in g.read().split('\n') if x.strip()]
    got = {}
    for x in lines:
        k, _, v = x.partition('=')
        h.true('once ' + k, k.strip() not in got)
        got[k.strip()] = h.parse(v.strip())
    h.same('names', sorted(got), sorted(p))
    for k in p:
        h.eq(k, got[k], p[k], tol=1e-11)


def letters(symbol):
    """a LaTeX symbol without its typography, as the names are built"""
    s = symbol.replace('\\lambda', 'lam').replace('\\delta', 'del')
    s = s.replace('\\dot{del}', 'deld').replace('\\dot{\\phi}', 'phid')
    return re.sub(r'[\\_{}$ ]', '', s).lower()


@harness('C20', 'table', bounds='each of the five parameterizations, all '
         'values arbitrary')
def table(h):
    name = h.choice('set', SETS)
    cls, p, ps = fresh(h, name, True)
    html = ps._repr_html_()
    rows = re.findall(r'<tr><td>\\\((.*?)\\\)</td><td>(.*?)</td></tr>', html)
    h.true('caption', '<caption>%s</caption>' % name in html)
    shown = {letters(r[0]): r[1] for r in rows}
    h.same('one row and symbol per parameter',
           (len(rows), sorted(shown)),
           (len(p), sorted(k.replace('_', '').lower() for k in p)))
    for k in p:
        v = shown[k.replace('_', '').lower()]
        h.le('value of ' + k, abs(h.parse(v) - p[k]), h.const(0.00051))


@harness('C20', 'again', bounds='each of the five parameterizations, any '
         'values; displayed, saved and loaded, changed in place or replaced, '
         'then displayed, saved (to the same or another file) and loaded '
         'again')
def again(h):
    name = h.choice('set', SETS)
    cls, p, ps = fresh(h, name, True, 0.001, 50)
    folder = h.scratch()
    files = [os.path.join(folder, f) for f in ('a', 'b')]
    if h.choice('same file', [False, True]):
        files = files[:1] * 2
    how = h.choice('change', ['in place', 'replaced', 'other set'])
    p, new = dict(p), dict(p)
    for k in sorted(p)[:9]:
        new[k] = h.real('new_' + k, 0.001, 50)

    def ask(ps, f, want):
        ps.to_yaml(f + '.yml')
        ps.to_ini(f + '.ini')
        got = cls._from_yaml(f + '.yml').parameters
        h.same('names loaded', sorted(got), sorted(want))
        with open(f + '.ini') as g:
            lines = [x.partition('=') for x in g.read().split('\n')
                     if '=' in x]
        ini = {a.strip(): h.parse(b.strip()) for a, _, b in lines}
        h.same('names in the ini file', sorted(ini), sorted(want))
        rows = re.findall(r'<tr><td>\\\((.*?)\\\)</td><td>(.*?)</td></tr>',
                          ps._repr_html_())
        shown = {letters(r[0]): r[1] for r in rows}
        for k in want:
            h.eq('loaded ' + k, got[k], want[k], tol=1e-13)
            h.eq('ini ' + k, ini[k], want[k], tol=1e-11)
            v = shown[k.replace('_', '').lower()]
            h.le('shown ' + k, abs(h.parse(v) - want[k]), h.const(0.00051))
    ask(ps, files[0], p)
    if how == 'in place':
        ps.parameters.update(new)
    elif how == 'replaced':
        ps.parameters = dict(new)
    else:
        ps = cls(new) if name in ('Moore2019', 'MooreRiderLean2012') else \
            cls(new, True)
    ask(ps, files[1], new)
    old = cls._from_yaml(files[0] + '.yml').parameters
    want = new if files[0] == files[1] else p
    for k in want:
        h.eq('first file ' + k, old[k], want[k], tol=1e-13)
