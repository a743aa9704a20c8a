"""Tables of the parameters of bicycles."""
import os
import re

from engine.harness import harness

LATEX = {'mB': 'm_B', 'IBxz': 'I_{Bxz}', 'TcB1': 'T^c_{B1}',
         'alphaH2': r'\alpha_{H2}', 'aB1': 'a_{B1}',
         'lam': r'\lambda', 'w': 'w', 'c': 'c', 'hbb': 'h_{bb}',
         'LhbR': 'l_{hbR}', 'rF': 'r_F', 'g': 'g', 'lamst': r'\lambda_{st}',
         'TtP1': 'T^t_{P1}', 'dP': 'd_P', 'gamma': r'\gamma', 'f': 'f',
         'alphaB10': r'\alpha_{B10}', 'TtH12': 'T^t_{H12}',
         'aB11': 'a_{B11}'}


class Bike:
    def __init__(self, name, **sets):
        self.bicycleName = name
        self.parameters = sets


@harness('C23', 'rounding', bounds='any nominal value within 1000, any '
         'uncertainty from 1e-6 to 50 or none at all')
def rounding(h):
    zero = h.choice('zero', [False, True])
    nom = h.real('nominal', -1000, 1000)
    u = h.const(0) if zero else h.real('uncertainty', 0.000001, 50)
    text = h.mod('tables').uround(h.ufloat(nom, u))
    parts = text.split('+/-')
    h.true('value and uncertainty', len(parts) == 2)
    v, s = [h.parse(t) for t in parts]
    if zero:
        h.eq('value', v, nom)
        h.eq('no uncertainty', s, 0)
        return
    k = h.decimals(parts[1])
    h.true('same decimals', h.decimals(parts[0]) == k)
    # the last decimal is the first digit of the uncertainty
    one = h.const(1)
    h.true('digit shown', bool(u * 10**k >= one - h.const(1e-9)))
    if k:
        h.true('no further digit', bool(u * 10**(k - 1) < one +
                                        h.const(1e-9)))
    h.le('value rounded', (v - nom)**2 * 4 * 100**k, 1 + 1e-6)
    h.le('uncertainty rounded', (s - u)**2 * 4 * 100**k, 1 + 1e-6)


@harness('C23', 'digits', bounds='any nominal value within 1000 with an '
         'uncertainty that is a power of ten or just below one')
def digits(h):
    s, k = h.choice('uncertainty', [
        (0.0001, 4), (0.001, 3), (0.01, 2), (0.1, 1), (1.0, 0), (10.0, 0),
        (0.25, 1), (0.95, 1), (0.0975, 2)])
    nom = h.real('nominal', -1000, 1000)
    text = h.mod('tables').uround(h.ufloat(nom, h.const(s)))
    h.true('decimals', [h.decimals(t) for t in text.split('+/-')] == [k] * 2)


@harness('C23', 'plain', bounds='any number without uncertainty')
def plain(h):
    x = h.real('x', -1000, 1000)
    h.eq('in full', h.parse(h.mod('tables').uround(x)), x)


def cell(h, nm, kind):
    """(value put into the parameters, expected value and uncertainty)"""
    if kind == 'absent':
        return None, ('NA', 'NA')
    v = h.real(nm, -5, 5)
    if kind == 'plain':
        return v, (v, 'NA')
    s = h.real(nm + '_s', 0.02, 0.9)
    return h.ufloat(v, s), (v, s)


KINDS = ['absent', 'plain', 'uncertain']


def shown(h, nm, got, want):
    """a cell shows a number to within its rounding, or NA"""
    for part, t, w in zip(('value', 'uncertainty'), got, want):
        if w == 'NA':
            h.true('%s %s' % (nm, part), t.strip() == 'NA')
        else:
            h.true('%s %s' % (nm, part), t.strip() != 'NA')
            d = h.parse(t.strip()) - w
            h.le('%s %s' % (nm, part), d * d, 0.0030 if want[1] != 'NA'
                 else 1e-18)


def world(h, kinds, names=('Bike', 'Longer bicycle name'), more=('g', 'w', 'c')):
    """two bicycles; kinds of the cells of mB and IBxx"""
    bikes, want = [], {}
    for i, n in enumerate(names):
        par = {}
        for j, var in enumerate(('mB', 'IBxx')):
            x, w = cell(h, '%s%d' % (var, i), kinds[2 * i + j])
            want.setdefault(var, []).append(w)
            if x is not None:
                par[var] = x
        # each has one the other has not
        x = h.real('m%d' % i, 0, 9)
        par[more[i]] = x
        want[more[i]] = [(x, 'NA') if k == i else ('NA', 'NA')
                         for k in range(len(names))]
        bikes.append(Bike(n, Benchmark=par, Measured={'other': x}))
    want = {k: v for k, v in want.items() if any(c[0] != 'NA' for c in v)}
    return bikes, want


@harness('C23', 'data', bounds='two bicycles, every combination of absent, '
         'plain and uncertain entries of two parameters and parameters only '
         'one of them has; any values; plain and LaTeX names')
def data(h):
    kinds = [h.choice('kind%d' % i, KINDS) for i in range(4)]
    latex = h.choice('latex', [False, True])
    bikes, want = world(h, kinds)
    t = h.mod('tables').Table('Benchmark', latex, bikes)
    names = sorted(want, key=str.lower)
    h.same('variables', list(t.allVariables), names)
    rows = t.tableData
    h.true('one row per variable', len(rows) == len(names))
    for row, n in zip(rows, names):
        h.true('name', row[0] == (LATEX['IBxz'].replace('xz', 'xx')
                                  if n == 'IBxx' else LATEX[n])
               if latex else row[0] == n)
        h.true('two cells per bicycle', len(row) == 5)
        for i in range(2):
            shown(h, '%s of bicycle %d' % (n, i), row[1 + 2 * i:3 + 2 * i],
                  want[n][i])


@harness('C23', 'three', bounds='three or four bicycles, every combination of absent, '
         'plain and uncertain entries of one parameter, some of another; any '
         'values; created once, again or refreshed after values were changed')
def three(h):
    kinds = [h.choice('kind%d' % i, KINDS) for i in range(3)]
    turn = h.choice('turn', 4)
    names = ('First', 'Second one', '3')
    if turn == 1:
        kinds.append('uncertain')
        names += ('fourth',)
    kinds = [k for i, own in enumerate(kinds)
             for k in (own, KINDS[(i + turn) % 3])]
    bikes, want = world(h, kinds, names, ('g', 'w', 'c', 'rF'))
    T = h.mod('tables').Table
    t = T('Benchmark', False, bikes)
    if turn == 2:
        # a changed value shows in the table created afterwards
        x = h.real('changed', -5, 5)
        bikes[1].parameters['Benchmark']['w'] = x
        want['w'][1] = (x, 'NA')
        t = T('Benchmark', False, bikes)
    elif turn == 3:
        # ... and in the refreshed one, with a parameter given and one taken
        x = h.real('changed', -5, 5)
        bikes[2].parameters['Benchmark']['c'] = x
        want['c'][2] = (x, 'NA')
        bikes[0].parameters['Benchmark']['rR'] = x
        want['rR'] = [(x, 'NA')] + [('NA', 'NA')] * (len(bikes) - 1)
        bikes[1].parameters['Benchmark'] = {
            k: v for k, v in bikes[1].parameters['Benchmark'].items()
            if k != 'w'}
        del want['w']
        t.generate_variable_list()
        t.generate_table_data()
        h.true('refreshed text', 'rR' in t.create_rst_table())
    names = sorted(want, key=str.lower)
    h.same('variables', list(t.allVariables), names)
    h.same('rows', [r[0] for r in t.tableData], names)
    for row in t.tableData:
        h.true('two cells per bicycle', len(row) == 1 + 2 * len(bikes))
        for i in range(len(bikes)):
            shown(h, '%s of bicycle %d' % (row[0], i),
                  row[1 + 2 * i:3 + 2 * i], want[row[0]][i])


NAMES = ['rF', 'rR', 'rb', 'IBxx', 'IBxz', 'IBzz', 'ibyy', 'LhbF', 'LhbR',
         'lcs', 'lamst', 'lam', 'lsp', 'l', 'TcB1', 'TcF1', 'TcB2', 'tcD',
         'alphaB1', 'aB1', 'aF', 'dP', 'd', 'ds1', 'mB', 'mF', 'MH', 'w',
         'whb', 'g', 'gamma', 'c', 'hbb', 'xB', 'zB', 'Xcl', 'z_B', 'za']


@harness('C23', 'order', bounds='38 names of various cases in four orders, '
         'shared by two bicycles in three ways; any values')
def order(h):
    names = list(NAMES)
    turn = h.choice('order', ['as is', 'reversed', 'by end', 'by case'])
    if turn == 'reversed':
        names.reverse()
    elif turn == 'by end':
        names.sort(key=lambda s: s[::-1])
    elif turn == 'by case':
        names.sort()
    share = h.choice('share', ['all', 'halves', 'alternate'])
    mine = {'all': (names, names), 'halves': (names[:19], names[19:]),
            'alternate': (names[::2], names[1::2])}[share]
    x = [h.real('x', -9, 9), h.real('y', -9, 9)]
    t = h.mod('tables').Table('Measured', False, [
        Bike('one', Measured={n: x[0] for n in mine[0]}),
        Bike('two', Measured={n: x[1] for n in mine[1]})])
    want = sorted(NAMES, key=str.lower)
    h.same('variables', list(t.allVariables), want)
    h.same('rows', [r[0] for r in t.tableData], want)
    for row in t.tableData:
        for i in range(2):
            shown(h, row[0], row[1 + 2 * i:3 + 2 * i],
                  (x[i], 'NA') if row[0] in mine[i] else ('NA', 'NA'))


@harness('C23', 'rst', bounds='one to three bicycles with names of various '
         'lengths, any values; plain and LaTeX names; returned and written '
         'to a file; created once or twice')
def rst(h):
    latex = h.choice('latex', [False, True])
    names = h.choice('names', [('Bike', 'B'), ('A bicycle with a name that '
                     'is longer than its columns', 'Odd name'),
                     ('Two', 'A very very very very long name')])
    kinds = h.choice('kinds', [('uncertain', 'plain', 'absent', 'uncertain'),
                               ('plain',) * 4])
    more = h.choice('variables', [('g', 'w'), ('lam', 'rF'), ('lamst', 'f'),
                    ('TcB1', 'alphaH2'), ('hbb', 'aB1'), ('dP', 'TtP1'),
                    ('LhbR', 'c'), ('gamma', 'IBxz'), ('alphaB10', 'aB11'),
                    ('TtH12', 'dP')])
    bikes, want = world(h, kinds, names, more)
    one = h.choice('bicycles', [1, 2])
    if one == 1:
        bikes = bikes[:1]
        want = {k: v[:1] for k, v in want.items() if v[0][0] != 'NA'}
    t = h.mod('tables').Table('Benchmark', latex, tuple(bikes))
    path = os.path.join(h.scratch(), 'table.rst')
    text = t.create_rst_table(path if h.choice('file', [True, False])
                              else None)
    if os.path.exists(path):
        with open(path) as f:
            h.same('file', f.read(), text)
    if h.choice('again', [True, False]):
        h.same('created again', t.create_rst_table(), text)
    lines = text.split('\n')
    h.true('aligned', len(set(len(x) for x in lines)) == 1)
    marks = [x for x in lines if x[0] == '+']
    h.true('header is set apart', [i for i, x in enumerate(marks)
                                   if '=' in x] == [1])
    full = marks[1].replace('=', '-')
    h.true('column marks', all(x == full for x in marks[2:]))
    at = [i for i, ch in enumerate(full) if ch == '+']
    h.true('columns', len(at) == 2 + 2 * len(bikes))
    top = [i for i, ch in enumerate(marks[0]) if ch == '+']
    h.true('each bicycle spans two columns', top == [at[0]] + at[1::2])
    rows = [x for x in lines if x[0] != '+']
    h.true('a rule between rows', len(marks) == len(rows) + 1 and
           all(lines[i][0] == ('+' if i % 2 == 0 else '|')
               for i in range(len(lines))))

    def cells(line, bars):
        h.true('bars', all(line[i] == '|' for i in bars))
        return [line[a + 1:b].strip() for a, b in zip(bars, bars[1:])]
    h.same('bicycle names', cells(rows[0], top), [''] + [
        b.bicycleName for b in bikes])
    head = cells(rows[1], at)
    h.same('column heads', [head[0]] + [re.sub(r'\W|math', '', x)
                                        for x in head[1:]],
           ['Variable'] + ['v', 'sigma'] * len(bikes))
    order = sorted(want, key=str.lower)
    h.true('one row per variable', len(rows) == 2 + len(order))
    for line, n in zip(rows[2:], order):
        c = cells(line, at)
        h.true('name', c[0] == (':math:`%s`' % (
            'I_{Bxx}' if n == 'IBxx' else LATEX[n]) if latex else n))
        for i in range(len(bikes)):
            shown(h, '%s of bicycle %d' % (n, i), c[1 + 2 * i:3 + 2 * i],
                  want[n][i])
