"""Parameter and measurement files."""
import contextlib
import os

from engine.harness import harness
from .common import stub


def text(h, v, fmt='{}'):
    """decimal text of a number; a token in the symbolic run"""
    return fmt.format(v) if h.symbolic else repr(float(v))


def same_number(h, name, a, b, std=None):
    """equal up to the rounding of the written text: two significant digits
    of the standard deviation"""
    a, b = h.num(a), h.num(b)
    if std is None:
        h.eq(name, a, b, tol=1e-12)
    else:
        h.le(name, abs(a - b), 0.06 * std)
        

NAMES = ['a', 'b', 'mB', 'IBxx', 'TtB1', 'z9']


@harness('C19', 'round_trip', bounds='sets of 1-4 parameters, any values '
         'above 0.001 in size, with and without uncertainty; new or existing '
         'file with consent; file names with and without a folder')
def round_trip(h):
    io = h.mod('io')
    n = h.choice('parameters', [1, 2, 3, 4])
    kind = h.choice('kinds', ['plain', 'uncertain', 'mixed'])
    exists = h.choice('exists', [False, True])
    par, std = {}, {}
    for i in range(n):
        k = NAMES[(2 * i + 1) % 6]
        v = h.real(k, 0.001, 50)
        if h.choice('sign' , [1, -1]) < 0:
            v = -v
        if kind == 'uncertain' or kind == 'mixed' and i % 2:
            std[k] = h.real('s_' + k, 0.0001, 1)
            par[k] = h.ufloat(v, std[k])
        else:
            par[k] = v
    d = os.path.join(h.scratch(), 'Parameters')
    f = os.path.join(d, 'x.txt')
    bare = h.choice('no folder in the name', [False, True])
    if exists or bare:
        os.makedirs(d)
    if exists:
        with open(f, 'w') as g:
            g.write('old = 1.0\n')
        answers = ['', 'maybe', 'y']
        h.patch(io if not h.symbolic else io, 'input',
                lambda *a: answers.pop(0))
    with contextlib.chdir(d if bare else '/'):
        name = 'x.txt' if bare else f
        h.true('saved', io.write_parameter_text_file(name, par) is True)
        got = io.load_parameter_text_file(name)
    h.same('files', os.listdir(d), ['x.txt'])
    h.same('names', sorted(got), sorted(par))
    for k in par:
        same_number(h, k, got[k], par[k], std.get(k))
        if k in std:
            h.le('uncertainty ' + k, abs(got[k].std_dev - std[k]),
                 0.06 * std[k])


@harness('C19', 'consent', bounds='every sequence of up to three answers')
def consent(h):
    io = h.mod('io')
    seq = h.choice('answers', [s + e for s in ([], [''], ['x'], ['Y', 'no'])
                               for e in (['y'], ['n'])])
    d = h.scratch()
    f = os.path.join(d, 'x.txt')
    old = 'mB = 1.0\n# comment\n'
    with open(f, 'w') as g:
        g.write(old)
    left = list(seq)
    h.patch(io, 'input', lambda *a: left.pop(0))
    v = h.real('v', 0.1, 5)
    saved = io.write_parameter_text_file(f, {'mB': v})
    h.same('asked until answered', left, [])
    h.true('reported', saved is (seq[-1] == 'y'))
    if seq[-1] == 'n':
        with open(f) as g:
            h.same('kept', g.read(), old)
    else:
        h.eq('written', io.load_parameter_text_file(f)['mB'], v)
    h.same('no other file', os.listdir(d), ['x.txt'])


@harness('C19', 'format', bounds='any values; spacing, comments, blank '
         'lines, missing final line end; 1-4 comma separated repetitions '
         'that are averaged')
def format_(h):
    io = h.mod('io')
    n = h.choice('repetitions', [1, 2, 3, 4])
    unc = h.choice('uncertain', [False, True])
    eq = h.choice('equals', ['=', ' = ', '= ', '  =\t'])
    comma = h.choice('comma', [',', ', ', ' , '])
    pm = h.choice('plus minus', ['+/-']) if unc else ''
    extra = h.choice('extra', ['none', 'comment', 'trailing', 'blank',
                               'indented', 'no line end'])
    v = [h.real('v%d' % i, 0.1, 5) for i in range(n)]
    s = [h.real('s%d' % i, 0.01, 0.5) for i in range(n)]
    other = h.real('other', -5, -0.1)
    items = [text(h, a) + (pm + text(h, b) if unc else '')
             for a, b in zip(v, s)]
    line = 'mB' + eq + comma.join(items)
    lines = [line, 'xc' + eq + text(h, other)]
    if extra == 'comment':
        lines.insert(1, '# mB = 3.0')
    elif extra == 'trailing':
        lines[0] += ' # kg = 3'
    elif extra == 'blank':
        lines[1:1] = ['', '   ']
    elif extra == 'indented':
        lines.insert(0, '  # note')
    f = os.path.join(h.scratch(), 'm.txt')
    with open(f, 'w') as g:
        g.write('\n'.join(lines) + ('' if extra == 'no line end' else '\n'))
    got = io.load_parameter_text_file(f)
    h.same('names', sorted(got), ['mB', 'xc'])
    h.eq('mean', h.num(got['mB']), sum(v) / n)
    h.eq('other', got['xc'], other)
    if unc:
        h.eq('uncertainty', got['mB'].std_dev**2,
             sum(a**2 for a in s) / n**2, tol=1e-6)


@harness('C19', 'periods', bounds='files with other measurements, comments '
         'and old periods in any position; any new periods; final line end '
         'present or not')
def periods(h):
    io = h.mod('io')
    old = h.choice('old periods', ['none', 'first', 'middle', 'last'])
    end = h.choice('line end', [True, False])
    lines = ['mB = ' + text(h, h.real('mB', 1, 9)),
             '# Tools: scale', 'aB1 = 0.1, 0.3 # twice']
    i = {'first': 0, 'middle': 2, 'last': 3}.get(old)
    if i is not None:
        lines[i:i] = ['TtB1 = 9.0', 'TcB1=8.0+/-0.1']
    f = os.path.join(h.scratch(), 'm.txt')
    with open(f, 'w') as g:
        g.write('\n'.join(lines) + ('\n' if end else ''))
    new = {'TtB1': h.real('TtB1', 0.5, 5), 'TcR1': h.real('TcR1', 0.5, 5),
           'mB': 77.0}
    keep = dict(new)
    io.write_periods_to_file(f, new)
    h.same('untouched', new, keep)
    got = io.load_parameter_text_file(f)
    h.same('names', sorted(got), ['TcR1', 'TtB1', 'aB1', 'mB'])
    for k in ('TtB1', 'TcR1'):
        h.eq(k, got[k], new[k], tol=1e-12)
    h.eq('mB', got['mB'], h.real('mB', 1, 9))
    h.eq('aB1', got['aB1'], h.const(0.2))
    with open(f) as g:
        txt = g.read()
    for ln in lines:
        if not ln.startswith('T'):
            h.true('kept: ' + ln.split()[0], ln in txt.split('\n'))


@harness('C19', 'nominal', bounds='dictionaries of numbers, numbers with '
         'uncertainty and sequences of them')
def nominal(h):
    io = h.mod('io')
    a, b, c = [h.real(k, -5, 5) for k in 'abc']
    u = lambda x: h.ufloat(x, h.const(0.1))
    d = {'plain': a, 'unc': u(b), 'many': [u(a), u(c)],
         'numbers': [b, c], 'mixed': [a, u(b)],
         'array': h.np.array([u(c), u(b)], dtype=object), 'int': 3}
    keep = dict(d)
    got = io.remove_uncertainties(d)
    h.same('untouched', list(d), list(keep))
    h.true('same objects', all(d[k] is keep[k] for k in d))
    want = {'plain': a, 'unc': b, 'many': [a, c], 'numbers': [b, c],
            'mixed': [a, b], 'array': [c, b], 'int': 3}
    h.same('names', sorted(got), sorted(want))
    for k in want:
        g = got[k]
        for i, (x, y) in enumerate(zip(
                list(g) if isinstance(want[k], list) else [g],
                want[k] if isinstance(want[k], list) else [want[k]])):
            h.true('no uncertainty left in ' + k,
                   not hasattr(x, 'std_dev'))
            h.eq(k + str(i), x, y)


@harness('C19', 'file_names', bounds='every part, pendulum and orientation '
         'with three bicycle names and trial numbers up to four digits',
         noreach=True)
def file_names(h):
    io = h.mod('io')
    bike = h.choice('bicycle', ['Browser', 'Rigidcl', 'Balanceassistv1'])
    part = h.choice('part', ['Fork', 'Handlebar', 'Frame', 'Rwheel', 'Fwheel',
                             'Flywheel', 'Rod'])
    pend = h.choice('pendulum', ['Compound', 'Torsional'])
    o = h.choice('orientation', ['First', 'Second', 'Third', 'Fourth',
                                 'Fifth', 'Sixth'])
    trial = h.choice('trial', ['1', '9', '10', '2048'])
    h.same('fields', io.filename_to_dict(bike + part + pend + o + trial +
                                         '.mat'),
           {'bicycle': bike, 'part': part, 'pendulum': pend,
            'angleOrder': o, 'trial': trial})


@harness('C19', 'mat_file', bounds='signal files with time or sample rate '
         'or both, notes empty or not', stubs='scipy.io.loadmat')
def mat_file(h):
    io = h.mod('io')
    notes = h.choice('notes', ['empty', 'text'])
    base = h.choice('time base', ['rate', 'time', 'both'])
    y = h.arr([h.real('y%d' % i, -3, 3) for i in range(3)])
    d = {'__globals__': [], '__header__': b'', '__version__': '1.0',
         'data': y, 'part': 'Frame', 'angle': 'First',
         'notes': h.np.array([], dtype='<U1') if notes == 'empty' else 'ok'}
    if base != 'time':
        d['sampleRate'] = d['duration'] = 30
    if base != 'rate':
        d['time'] = h.arr([h.real('t%d' % i, -3, 3) for i in range(3)])
    asked = []

    def loadmat(path, mdict=None, **k):
        asked.append((path, sorted(k.items())))
        if mdict is None:
            return dict(d)
        mdict.update(d)
        return mdict
    stub(h, 'scipy.io.loadmat', loadmat)
    got = io.load_pendulum_mat_file('a.mat')
    h.true('file read with plain values and strings', asked[0][0] == 'a.mat'
           and dict(asked[0][1]).get('squeeze_me') is True)
    want = {'data', 'part', 'angle', 'notes'}
    want |= {'time'} if base != 'rate' else {'sampleRate', 'duration'}
    h.same('entries', set(got), want)
    h.eq('signal', got['data'], y)
    h.same('notes', got['notes'], '' if notes == 'empty' else 'ok')
    if base != 'rate':
        h.eq('time', got['time'], d['time'])
    else:
        h.same('rate', got['sampleRate'], 30)
