"""Executes the package's source from /repo's working tree with the shim
modules in place of numpy, math, uncertainties, ... (symbolic load), or
imports it unchanged (real load)."""
import ast
import builtins
import importlib.util
import os
import sys
import types

from . import shims
from . import sym as S

REPO = os.environ.get('VERIF_REPO', '/repo')
# external pure-Python packages executed symbolically as well
FOLLOW = ('bicycleparameters', 'dtk.bicycle')

REG = {}        # private module registry
ENTERED = set()  # functions of the package entered during symbolic runs


def _mod_op(l, r):
    if isinstance(l, str) and (isinstance(r, shims.NUM) or (
            isinstance(r, tuple) and any(isinstance(x, shims.NUM)
                                         for x in r))):
        import re
        args = list(r) if isinstance(r, tuple) else [r]

        def sub(m):
            if m.group(0) == '%%':
                return '%'
            a = args.pop(0)
            if isinstance(a, shims.NUM):
                return format(a, m.group(0)[1:])
            return m.group(0) % a
        return re.sub(r'%(?:%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])', sub, l)
    return l % r


class _T(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                ast.Name('__verif_mod__', ast.Load()),
                [node.left, node.right], []), node)
        return node


def _absname(name, globals_, level):
    if level == 0:
        return name
    pkg = globals_.get('__package__') or ''
    parts = pkg.split('.')
    if level > 1:
        parts = parts[:-(level - 1)]
    base = '.'.join(parts)
    return base + ('.' + name if name else '')


def _follow(name):
    return any(name == f or name.startswith(f + '.') for f in FOLLOW)


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    full = _absname(name, globals or {}, level)
    if _follow(full):
        m = load(full)
        if fromlist:
            for f in fromlist:
                if not hasattr(m, f):
                    sub = full + '.' + f
                    if _find(sub):
                        setattr(m, f, load(sub))
            return m
        if '.' in full and level == 0:
            return load(full.split('.')[0]) if _follow(full.split('.')[0]) \
                else _pkg(full)
        return m
    if full == 'dtk':
        ns = types.ModuleType('dtk')
        for f in fromlist or ():
            setattr(ns, f, load('dtk.bicycle') if f == 'bicycle' else
                    shims.MODS.setdefault('dtk.' + f,
                                          shims.OptModule('dtk.' + f)))
        return ns
    sh = shims.resolve(full)
    if sh is not None:
        if fromlist:
            for f in fromlist:
                sub = full + '.' + f
                if sub in ('matplotlib.pyplot', 'matplotlib.patches',
                           'plotly.graph_objects', 'plotly.express',
                           'scipy.integrate', 'scipy.optimize') or \
                        sub in shims.MODS:
                    try:
                        setattr(sh, f, shims.resolve(sub))
                    except AttributeError:
                        pass
            return sh
        if '.' in full:
            top = shims.resolve(full.split('.')[0])
            cur = top
            for i, part in enumerate(full.split('.')[1:], 1):
                sub = shims.resolve('.'.join(full.split('.')[:i + 1]))
                if not isinstance(cur, (shims.NPModule,)):
                    try:
                        cur.__dict__[part] = sub
                    except Exception:
                        pass
                cur = sub
            return top
        return sh
    return builtins.__import__(name, globals, locals, fromlist, level)


def _pkg(full):
    top = types.ModuleType(full.split('.')[0])
    cur = top
    parts = full.split('.')
    for i in range(1, len(parts)):
        nm = '.'.join(parts[:i + 1])
        sub = load(nm) if _follow(nm) else types.ModuleType(nm)
        setattr(cur, parts[i], sub)
        cur = sub
    return top


def _find(full):
    if full.startswith('bicycleparameters'):
        p = os.path.join(REPO, *full.split('.'))
        if os.path.isdir(p) and os.path.exists(p + '/__init__.py'):
            return p + '/__init__.py', True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None
    try:
        sp = importlib.util.find_spec(full)
    except Exception:
        return None
    if sp is None or not sp.origin:
        return None
    return sp.origin, bool(sp.submodule_search_locations)


_B = None


def sym_builtins():
    global _B
    if _B is None:
        _B = dict(builtins.__dict__)
        _B['__import__'] = sym_import
        _B['float'] = shims.FloatShim
        _B['complex'] = shims.ComplexShim
        _B['__verif_mod__'] = _mod_op
        _B['print'] = lambda *a, **k: None
    return _B


def load(full):
    if full in REG:
        return REG[full]
    found = _find(full)
    if found is None:
        raise ImportError('No module named %r' % full)
    path, ispkg = found
    m = types.ModuleType(full)
    m.__file__ = path
    m.__package__ = full if ispkg else full.rpartition('.')[0]
    if ispkg:
        m.__path__ = [os.path.dirname(path)]
    REG[full] = m
    with open(path) as f:
        src = f.read()
    m.__dict__['__builtins__'] = sym_builtins()
    try:
        if len(src) < 200000:
            tree = _T().visit(ast.parse(src, path))
            ast.fix_missing_locations(tree)
            code = compile(tree, path, 'exec')
        else:
            code = compile(src, path, 'exec')
        exec(code, m.__dict__)
    except BaseException:
        REG.pop(full, None)
        raise
    parent, _, leaf = full.rpartition('.')
    if parent and parent in REG:
        setattr(REG[parent], leaf, m)
    return m


def sym_module(name):
    if name == 'bicycleparameters':
        return load(name)
    return load('bicycleparameters.' + name)


def real_module(name):
    import importlib
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return importlib.import_module('bicycleparameters' if name ==
                                   'bicycleparameters' else
                                   'bicycleparameters.' + name)


def start_trace():
    """Record the package functions entered (for the evidence)."""
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, 'verif')
    except ValueError:
        return
    root = os.path.join(REPO, 'bicycleparameters')

    def on_start(code, off):
        if code.co_filename.startswith(root):
            ENTERED.add('%s:%s' % (os.path.basename(code.co_filename),
                                   code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, on_start)
    mon.set_events(tid, mon.events.PY_START)
