"""Stand-ins for the third-party modules the package imports, used when the
package source is executed symbolically.  They implement the same algebra on
object arrays holding Sym values.  External numerics (eigen-solvers, root
finders, integrators, optimisers) are handlers a harness installs in EXT."""
import builtins
import functools
import math as _math
import numbers
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import Sym, CSym, BoolSym, Unsupported, lift

EXT = {}


def ext(name):
    def call(*a, **k):
        f = EXT.get(name)
        if f is None:
            raise Unsupported('external routine %s has no stub here' % name)
        return f(*a, **k)
    call.__name__ = name.split('.')[-1]
    return call


# --------------------------------------------------------------------------
# float
# --------------------------------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, Sym))

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.float) or o is Sym or o is cls

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, str):
            t = S.CTX.tokens.get(x) if S.CTX is not None else None
            if t is not None:
                return t
            return builtins.float(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            if x.size == 1:
                return cls(x.ravel()[0])
            raise TypeError('only length-1 arrays can be converted to '
                            'Python scalars')
        if isinstance(x, U):
            raise TypeError("can't convert an affine function to float")
        if isinstance(x, CSym):
            raise TypeError("can't convert complex to float")
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class FloatShim(metaclass=_FloatMeta):
    fromhex = builtins.float.fromhex


FloatShim.__name__ = 'float'


class _ComplexMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.complex, CSym))

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.complex) or o is CSym or o is cls

    def __call__(cls, re=0.0, im=None):
        if isinstance(re, np.ndarray) and re.size == 1:
            re = re.item()
        if not has_sym(re) and not has_sym(im):
            return builtins.complex(re) if im is None else \
                builtins.complex(re, im)
        i = CSym(0, 1)
        z = re if isinstance(re, CSym) else CSym(re, 0)
        return z if im is None else z + i * im

    def __eq__(cls, o):
        return o is cls or o is builtins.complex

    def __hash__(cls):
        return hash(builtins.complex)


class ComplexShim(metaclass=_ComplexMeta):
    pass


ComplexShim.__name__ = 'complex'


# --------------------------------------------------------------------------
# first-order uncertain numbers
# --------------------------------------------------------------------------
class U:
    """Stand-in for uncertainties.UFloat: nominal value and first-order
    sensitivities to independent variables (the documented contract of that
    package), on symbolic values."""
    _n = 0

    def __init__(self, nom, ders, tag=None):
        self._nom = lift(nom)
        self.ders = ders        # {var id: (coefficient Sym, std Sym)}
        self.tag = tag

    @classmethod
    def var(cls, nom, std, tag=None):
        cls._n += 1
        return cls(nom, {cls._n: (lift(1), lift(std))}, tag)

    nominal_value = property(lambda s: s._nom)
    n = property(lambda s: s._nom)

    @property
    def std_dev(self):
        t = lift(0)
        for c, s in self.ders.values():
            t = t + (c * s) ** 2
        return t.sqrt()
    s = std_dev

    @staticmethod
    def lift(x):
        if isinstance(x, U):
            return x
        v = lift(x) if not isinstance(x, np.ndarray) else None
        return None if v is None else U(v, {})

    def _lin(self, nom, a, o=None, b=None):
        d = {k: (a * c, s) for k, (c, s) in self.ders.items()}
        if o is not None:
            for k, (c, s) in o.ders.items():
                if k in d:
                    d[k] = (d[k][0] + b * c, s)
                else:
                    d[k] = (b * c, s)
        return U(nom, d)

    def _bin(op):
        def f(self, o):
            o = U.lift(o)
            if o is None:
                return NotImplemented
            return op(self, o)
        return f

    __add__ = _bin(lambda a, b: a._lin(a._nom + b._nom, lift(1), b, lift(1)))
    __radd__ = __add__
    __sub__ = _bin(lambda a, b: a._lin(a._nom - b._nom, lift(1), b, lift(-1)))
    __rsub__ = _bin(lambda a, b: b._lin(b._nom - a._nom, lift(1), a,
                                        lift(-1)))
    __mul__ = _bin(lambda a, b: a._lin(a._nom * b._nom, b._nom, b, a._nom))
    __rmul__ = __mul__
    __truediv__ = _bin(lambda a, b: a._lin(
        a._nom / b._nom, 1 / b._nom, b, -a._nom / (b._nom * b._nom)))
    __rtruediv__ = _bin(lambda a, b: b / a)

    def __pow__(self, e):
        if isinstance(e, U):
            if e.ders:
                raise Unsupported('uncertain exponent')
            e = e._nom
        if isinstance(e, Sym):
            e = e.const()
        nom = self._nom ** e
        f = Fraction(float(e)).limit_denominator(1000)
        if f == 0:
            return U(lift(1), {})
        return self._lin(nom, lift(f) * self._nom ** (f - 1))

    def __neg__(self):
        return self._lin(-self._nom, lift(-1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self._nom >= 0 else -self

    def fn(self, name):
        x = self._nom
        if name == 'sin':
            return self._lin(x.sin(), x.cos())
        if name == 'cos':
            return self._lin(x.cos(), -x.sin())
        if name == 'tan':
            return self._lin(x.tan(), 1 / x.cos()**2)
        if name == 'sqrt':
            r = x.sqrt()
            return self._lin(r, 1 / (2 * r))
        if name == 'exp':
            return self._lin(x.exp(), x.exp())
        if name == 'arctan':
            return self._lin(x.arctan(), 1 / (1 + x * x))
        if name == 'arcsin':
            return self._lin(x.arcsin(), 1 / (1 - x * x).sqrt())
        if name == 'arccos':
            return self._lin(x.arccos(), -1 / (1 - x * x).sqrt())
        raise Unsupported('uncertain %s' % name)

    for _f in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'arctan', 'arcsin',
               'arccos'):
        locals()[_f] = (lambda nm: lambda self: self.fn(nm))(_f)

    def __lt__(self, o):
        return self._nom < U.lift(o)._nom

    def __le__(self, o):
        return self._nom <= U.lift(o)._nom

    def __gt__(self, o):
        return self._nom > U.lift(o)._nom

    def __ge__(self, o):
        return self._nom >= U.lift(o)._nom

    def __eq__(self, o):
        o = U.lift(o)
        return False if o is None else bool(self._nom == o._nom) and \
            set(self.ders) == set(o.ders)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True

    def __str__(self):
        c = S.CTX
        return c.token(self._nom, 'ustr') + '+/-' + c.token(self.std_dev,
                                                            'ustr')

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __float__(self):
        raise TypeError("can't convert an affine function to float")

    def conjugate(self):
        return self

    def item(self):
        return self


numbers.Number.register(U)


def ufloat(nom, std=None, tag=None):
    return U.var(nom, std if std is not None else 0, tag)


def ufloat_fromstr(s, tag=None):
    parts = s.strip().strip('()').split('+/-')
    if len(parts) == 2:
        return U.var(FloatShim(parts[0].strip()), FloatShim(parts[1].strip()),
                     tag)
    raise Unsupported('ufloat_fromstr %r' % s)


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------
NUM = (Sym, CSym, U)


def has_sym(x, depth=0):
    if isinstance(x, NUM) or isinstance(x, BoolSym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(i, depth + 1) for i in x)
    return False


def floatlike(dt):
    if dt is None or dt is FloatShim or dt is ComplexShim:
        return True
    if dt is object or dt == 'object':
        return True
    try:
        return np.dtype(dt).kind in 'fcO'
    except TypeError:
        return False


def realdt(dt):
    return builtins.float if dt is FloatShim else \
        builtins.complex if dt is ComplexShim else dt


def elem(name):
    """element-wise function by name"""
    def one(x):
        if isinstance(x, Sym):
            return getattr(x, name)()
        if isinstance(x, U):
            return x.fn(name)
        if isinstance(x, CSym):
            if hasattr(x, name):
                return getattr(x, name)()
            raise Unsupported('complex %s' % name)
        if isinstance(x, complex):
            return getattr(np, name)(x)
        v = lift(x)
        if v is None:
            return getattr(np, name)(x)
        r = getattr(v, name)()
        return r
    return one


def _abs(x):
    return builtins.abs(x)


def _cos_re(x):
    return x.real


ELEM = {n: elem(n) for n in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log',
                             'arctan', 'arcsin', 'arccos', 'rad2deg',
                             'deg2rad', 'degrees', 'radians', 'square',
                             'sinh', 'cosh', 'tanh', 'expm1', 'log1p',
                             'log10', 'log2', 'exp2', 'trunc')}
ELEM['absolute'] = ELEM['abs'] = ELEM['fabs'] = _abs
ELEM['sign'] = lambda x: x.sign() if isinstance(x, Sym) else np.sign(x)
ELEM['conjugate'] = ELEM['conj'] = lambda x: x.conjugate()
ELEM['isnan'] = lambda x: False if isinstance(x, NUM) else x != x
ELEM['isfinite'] = lambda x: True if isinstance(x, NUM) else \
    bool(np.isfinite(x))
ELEM['isinf'] = lambda x: False if isinstance(x, NUM) else bool(np.isinf(x))
ELEM['negative'] = lambda x: -x
ELEM['reciprocal'] = lambda x: 1 / x
ELEM['iscomplex'] = lambda x: bool(x.imag != 0) \
    if isinstance(x, CSym) else False if isinstance(x, (Sym, U)) else \
    bool(np.iscomplex(x))
ELEM['isreal'] = lambda x: not ELEM['iscomplex'](x)


def _cbrt(x):
    raise Unsupported('cube root')


ELEM['cbrt'] = _cbrt
ELEM['rint'] = lambda x: round(lift(x), 0)
ELEM['floor'] = lambda x: lift(Fraction(_floor(x)))
ELEM['ceil'] = lambda x: lift(Fraction(_ceil(x)))
BIN = {'arctan2': lambda y, x: S.sym_atan2(y, x) if isinstance(
            y, NUM) or isinstance(x, NUM) else _math.atan2(y, x),
       'hypot': lambda x, y: (lift(x)**2 + lift(y)**2).sqrt(),
       'maximum': lambda a, b: a if a >= b else b,
       'minimum': lambda a, b: a if a <= b else b,
       'fmax': lambda a, b: a if a >= b else b,
       'fmin': lambda a, b: a if a <= b else b,
       'copysign': lambda a, b: builtins.abs(a) if b >= 0
       else -builtins.abs(a),
       'float_power': lambda a, b: a ** b,
       'fmod': lambda a, b: a - b * BIN['truncdiv'](a, b)}
BIN['truncdiv'] = lambda a, b: (lambda q: _floor(q) if q >= 0
                                else _ceil(q))(lift(a) / b)
OBJFN = {'iscomplex': bool, 'isreal': bool, 'isnan': bool, 'isfinite': bool, 'isinf': bool}


# what numpy itself refuses to do to an object array of uncertain numbers
# (their class has no method of the function's name)
NO_U = {'sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'arctan', 'arcsin',
        'arccos', 'rad2deg', 'deg2rad', 'degrees', 'radians', 'sinh', 'cosh',
        'tanh', 'expm1', 'log1p', 'log10', 'log2', 'exp2', 'sign', 'fabs',
        'isnan', 'isfinite', 'isinf', 'arctan2', 'hypot', 'trunc'}


def _uncertain(x):
    if isinstance(x, U):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, U) for v in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(_uncertain(v) for v in x)
    return False


def refuse_u(name, *xs):
    if name in NO_U and any(_uncertain(x) for x in xs):
        raise TypeError('%s: not defined for uncertain numbers' % name)


def _u2(name, a, b):
    """two-argument functions with uncertain arguments"""
    a, b = U.lift(a), U.lift(b)
    x, y = a._nom, b._nom
    if name == 'arctan2':        # a = y, b = x
        r = x * x + y * y
        return a._lin(S.sym_atan2(x, y), y / r, b, -x / r)
    if name == 'hypot':
        r = (x * x + y * y).sqrt()
        return a._lin(r, x / r, b, y / r)
    raise Unsupported('uncertain %s' % name)


def apply(name, x):
    f = ELEM[name]
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return getattr(np, name)(x)
        if x.shape == ():
            return f(x.item())
        dt = OBJFN.get(name, object)
        out = np.empty(x.shape, dtype=dt)
        flat = out.reshape(-1)
        for i, v in enumerate(np.asarray(x).ravel()):
            flat[i] = f(v)
        if dt is object:
            return flat.reshape(x.shape).view(
                SMat if isinstance(x, np.matrix) else SArr)
        return flat.reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return apply(name, array(x))
    if hasattr(x, 'values') and hasattr(x, 'index'):
        return apply(name, array(list(x.values)))
    return f(x)


def apply2(name, a, b):
    f = BIN[name]
    if isinstance(a, (np.ndarray, list, tuple)) or \
            isinstance(b, (np.ndarray, list, tuple)):
        A, B = np.broadcast_arrays(np.asarray(array(a)),
                                   np.asarray(array(b)))
        if A.dtype != object and B.dtype != object:
            return getattr(np, name)(A, B)
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(A.shape):
            out[i] = _bin2(name, f, A[i], B[i])
        return out.view(SArr)
    return _bin2(name, f, a, b)


def _bin2(name, f, a, b):
    if name in ('arctan2', 'hypot') and (isinstance(a, U) or
                                         isinstance(b, U)):
        return _u2(name, a, b)
    return f(a, b)


class SArr(np.ndarray):
    """object array that keeps symbolic elements through numpy calls"""
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        nm = ufunc.__name__
        if method == '__call__' and nm in ELEM and 'where' not in kw:
            refuse_u(nm, inputs[0])
            r = apply(nm, inputs[0])
            out = kw.get('out')
            if out:
                out[0][...] = r
                return out[0]
            return r
        if method == '__call__' and nm in BIN and not kw:
            refuse_u(nm, *inputs)
            return apply2(nm, *inputs)
        if nm in ('logical_and', 'logical_or', 'logical_not') and \
                method == '__call__':
            ins = [np.asarray([bool(v) for v in np.asarray(i).ravel()]
                              ).reshape(np.shape(i)) for i in inputs]
            return getattr(np, nm)(*ins)
        ins = [i.view(np.ndarray) if isinstance(i, SArr) and not
               isinstance(i, np.matrix) else i for i in inputs]
        if 'out' in kw:
            kw['out'] = tuple(o.view(np.ndarray) if isinstance(o, SArr)
                              else o for o in kw['out'])
        if kw.get('dtype') is not None and floatlike(kw['dtype']):
            kw['dtype'] = object
        r = getattr(ufunc, method)(*ins, **kw)
        if isinstance(r, np.ndarray) and r.dtype == object and \
                not isinstance(r, np.matrix):
            return r.view(SArr)
        return r

    def astype(self, dt, *a, **k):
        if self.dtype == object and floatlike(dt):
            return self.copy()
        return np.asarray(self).astype(realdt(dt), *a, **k)

    @property
    def real(self):
        return _part(self, 'real')

    @property
    def imag(self):
        return _part(self, 'imag')

    def conj(self):
        return apply('conjugate', self)
    conjugate = conj

    def mean(self, axis=None, *a, **k):
        return NPS.mean(self, axis=axis)

    def std(self, axis=None, ddof=0, **k):
        return NPS.std(self, axis=axis, ddof=ddof)

    def var(self, axis=None, ddof=0, **k):
        return NPS.var(self, axis=axis, ddof=ddof)

    def max(self, axis=None, *a, **k):
        return NPS.max(self, axis=axis)

    def min(self, axis=None, *a, **k):
        return NPS.min(self, axis=axis)

    def argmin(self, axis=None, *a, **k):
        return NPS.argmin(self, axis=axis)

    def argmax(self, axis=None, *a, **k):
        return NPS.argmax(self, axis=axis)

    def argsort(self, axis=-1, *a, **k):
        return NPS.argsort(self, axis=axis)

    def sort(self, axis=-1, *a, **k):
        self[...] = NPS.sort(self, axis=axis)

    def item(self, *a):
        return np.asarray(self).item(*a)

    def round(self, decimals=0, out=None):
        return NPS.round(self, decimals)


def _map(f, x):
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        out[i] = f(x[i])
    return out.view(SArr)


class SPart(SArr):
    """view of the real or imaginary parts of a complex array: what is
    written into it is written into the array"""
    whole, which = None, ''

    def __setitem__(self, key, val):
        old = self.whole is not None and np.asarray(self).copy()
        SArr.__setitem__(self, key, val)
        if old is False:
            return
        new = np.asarray(self)
        for i in np.ndindex(new.shape):
            if new[i] is not old[i]:
                w = self.whole[i]
                a, b = w.real, w.imag
                self.whole[i] = S.CSym(new[i], b) if self.which == 'real' \
                    else S.CSym(a, new[i])


def _part(x, which):
    whole = np.asarray(x)
    if not any(isinstance(v, (CSym, complex, np.complexfloating))
               for v in whole.ravel()):
        # parts of real numbers: themselves
        return x if which == 'real' else _map(lambda v: v.imag, x)
    out = np.empty(whole.shape, dtype=object)
    for i in np.ndindex(whole.shape):
        out[i] = getattr(whole[i], which)
    out = out.view(SPart)
    out.whole, out.which = whole, which
    return out


class SMat(np.matrix):
    """object matrix with an exact (pseudo-)inverse"""
    def __array_finalize__(self, obj):
        np.matrix.__array_finalize__(self, obj)

    @property
    def I(self):
        a = np.asarray(self)
        return mat(pinv(a))

    getI = lambda self: self.I
    nominal_values = property(lambda s: _map(_nom, np.asarray(s)))


def mat(a, *args, **k):
    a = np.asarray(array(a))
    if a.dtype != object:
        a = a.astype(object)
    if a.ndim < 2:
        a = np.atleast_2d(a)
    return np.asarray(a).view(SMat)


def _nom(x):
    return x.nominal_value if isinstance(x, U) else x


def wrap(x):
    if isinstance(x, np.ndarray) and x.dtype == object and not \
            isinstance(x, np.matrix):
        return x.view(SArr)
    return x


def array(obj, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(obj, np.matrix):
        return obj
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            if dtype is not None and not floatlike(dtype):
                return np.array(np.asarray(obj), dtype=realdt(dtype))
            r = np.array(np.asarray(obj), dtype=object, ndmin=ndmin)
            return r.view(SArr)
        if dtype is not None and not floatlike(dtype):
            return np.array(obj, dtype=dtype, ndmin=ndmin)
        if obj.dtype.kind in 'fc' and obj.size < 300 or (
                dtype is not None and floatlike(dtype) and obj.size < 300):
            return np.array(obj, dtype=object, ndmin=ndmin).view(SArr)
        return np.array(obj, ndmin=ndmin)
    if has_sym(obj):
        if dtype is not None and not floatlike(dtype):
            return np.array(obj, dtype=realdt(dtype), ndmin=ndmin)
        if isinstance(obj, BoolSym):
            return np.array(bool(obj))
        lst = _strip(obj)
        flat = list(_leaves(lst))
        if flat and all(isinstance(v, (bool, BoolSym, np.bool_))
                        for v in flat):
            return np.array(_boolify(lst), ndmin=ndmin)
        r = np.array(lst, dtype=object, ndmin=ndmin)
        return r.view(SArr)
    if isinstance(obj, types.GeneratorType):
        return np.array(obj)
    r = np.array(obj, dtype=realdt(dtype), ndmin=ndmin)
    if r.dtype.kind in 'fc' and r.size < 300:
        return r.astype(object).view(SArr)
    return wrap(r)


def _leaves(x):
    if isinstance(x, (list, tuple)):
        for i in x:
            yield from _leaves(i)
    elif isinstance(x, np.ndarray):
        yield from x.ravel()
    else:
        yield x


def _boolify(x):
    if isinstance(x, (list, tuple)):
        return [_boolify(i) for i in x]
    if isinstance(x, np.ndarray):
        return x
    return bool(x)


def _strip(x):
    if isinstance(x, (list, tuple)):
        return [_strip(i) for i in x]
    if isinstance(x, np.ndarray) and not isinstance(x, np.matrix):
        return np.asarray(x)
    return x


def _copied(obj, *a, **k):
    # a matrix becomes an ordinary array
    return array(np.array(np.asarray(obj)) if isinstance(obj, np.matrix)
                 else obj, *a, **k)


def asarray(obj, dtype=None, **kw):
    if isinstance(obj, np.matrix):
        return np.asarray(obj).view(SArr)
    if isinstance(obj, np.ndarray) and (dtype is None or floatlike(dtype)):
        return wrap(obj)
    return array(obj, dtype=dtype)


def asanyarray(obj, dtype=None, **kw):
    return obj if isinstance(obj, np.ndarray) else array(obj, dtype=dtype)


def _filled(shape, v, dtype):
    if floatlike(dtype):
        r = np.empty(shape, dtype=object)
        r.fill(v)
        return r.view(SArr)
    return np.full(shape, v, dtype=realdt(dtype))


def zeros(shape, dtype=None, **k):
    return _filled(shape, 0.0, dtype)


def ones(shape, dtype=None, **k):
    return _filled(shape, 1.0, dtype)


def full(shape, v, dtype=None, **k):
    if dtype is None and isinstance(v, (int, bool)):
        return np.full(shape, v)
    return _filled(shape, v, dtype)


def zeros_like(a, dtype=None, **k):
    a = np.asarray(array(a))
    if dtype is None and a.dtype.kind in 'ib':
        return np.zeros_like(a)
    return zeros(a.shape, dtype)


def ones_like(a, dtype=None, **k):
    a = np.asarray(array(a))
    if dtype is None and a.dtype.kind in 'ib':
        return np.ones_like(a)
    return ones(a.shape, dtype)


def full_like(a, v, dtype=None, **k):
    return full(np.shape(a), v, dtype or builtins.float)


def eye(n, m=None, k=0, dtype=None, **kw):
    if not floatlike(dtype):
        return np.eye(n, m, k, dtype=dtype)
    return np.eye(n, m, k).astype(object).view(SArr)


def linspace(a, b, num=50, endpoint=True, **k):
    if not has_sym(a) and not has_sym(b):
        r = np.linspace(a, b, num=num, endpoint=endpoint, **k)
        return r
    a, b = lift(a), lift(b)
    den = (num - 1) if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = a + (b - a) * Fraction(i, den) if den else a
    return out.view(SArr)


def _reduce_axis(f, a, axis):
    a = np.asarray(array(a))
    if axis is None:
        return f(list(a.ravel()))
    if isinstance(axis, (tuple, list)):
        ax = sorted(i % a.ndim for i in axis)
        rest = [i for i in range(a.ndim) if i not in ax]
        b = a.transpose(rest + ax)
        return _reduce_axis(f, b.reshape(b.shape[:len(rest)] + (-1,)), -1)
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(m.shape[:-1]):
        out[i] = f(list(m[i]))
    if all(isinstance(v, (int, np.integer)) for v in out.ravel()):
        return out.astype(int)
    return out.view(SArr)


def _symbolic(a):
    return has_sym(a) if not isinstance(a, np.ndarray) else a.dtype == object


def _argmin(l):
    b = 0
    for i in range(1, len(l)):
        if l[i] < l[b]:
            b = i
    return b


def _argmax(l):
    b = 0
    for i in range(1, len(l)):
        if l[i] > l[b]:
            b = i
    return b


def _argsort(l):
    """stable insertion sort, forking on symbolic comparisons"""
    idx = []
    for i in range(len(l)):
        j = len(idx)
        while j > 0 and l[i] < l[idx[j - 1]]:
            j -= 1
        idx.insert(j, i)
    return idx


def _red(name, f):
    def g(a, axis=None, out=None, **k):
        if not _symbolic(a):
            k = {x: y for x, y in k.items()}
            return getattr(np, name)(a, axis=axis, **k)
        r = _reduce_axis(f, a, axis)
        if k.get('keepdims'):
            r = _keep(r, a, axis)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def _keep(r, a, axis):
    """the reduced axes with length one"""
    nd = np.ndim(np.asarray(array(a)))
    ax = range(nd) if axis is None else \
        [i % nd for i in (axis if isinstance(axis, tuple) else (axis,))]
    shape = [1 if i in ax else n for i, n in enumerate(
        np.shape(np.asarray(array(a))))]
    o = np.empty(1, dtype=object)
    o[0] = r
    return wrap((np.asarray(r) if isinstance(r, np.ndarray) else o
                 ).reshape(shape))


def _sum(l):
    r = 0
    for v in l:
        r = r + v
    return r


def _prod(l):
    r = 1
    for v in l:
        r = r * v
    return r


def dot(a, b, out=None):
    if isinstance(a, NUM) or isinstance(b, NUM):
        return a * b
    if isinstance(a, np.matrix) or isinstance(b, np.matrix):
        return np.dot(a, b)
    A, B = np.asarray(array(a)), np.asarray(array(b))
    r = np.dot(A, B)
    return wrap(r)


def pinv(a, *args, **k):
    a = np.asarray(array(a))
    if a.dtype != object:
        a = a.astype(object)
    m, n = a.shape
    if m == n:
        return inv(a)
    if m > n:
        return wrap(np.dot(np.asarray(inv(np.dot(a.T, a))), a.T))
    return wrap(np.dot(a.T, np.asarray(inv(np.dot(a, a.T)))))


def det(a):
    a = np.asarray(array(a))
    if a.dtype != object:
        return np.linalg.det(a)
    if a.ndim > 2:
        return array([det(x) for x in a])
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    r = 0
    for j in range(n):
        e = a[0, j]
        if isinstance(e, Sym) and not e.n or not isinstance(e, NUM) and \
                e == 0:
            continue
        mnr = np.delete(np.delete(a, 0, 0), j, 1)
        t = e * det(mnr)
        r = r + t if j % 2 == 0 else r - t
    return r


def inv(a):
    ism = isinstance(a, np.matrix)
    a = np.asarray(array(a))
    if a.ndim > 2:
        return array([inv(x) for x in a])
    n = a.shape[0]
    d = det(a)
    if not isinstance(d, U) and isinstance(lift(d), Sym) and not lift(d).n:
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = 1 / d
    else:
        for i in range(n):
            for j in range(n):
                m = det(np.delete(np.delete(a, i, 0), j, 1))
                out[j, i] = (m if (i + j) % 2 == 0 else -m) / d
    return mat(out) if ism else out.view(SArr)


def solve_(a, b):
    bb = np.asarray(array(b))
    a_ = np.asarray(array(a))
    if a_.ndim > 2:
        return array([np.asarray(solve_(x, y)) for x, y in zip(a_, bb)])
    return wrap(np.dot(np.asarray(inv(a)), bb))


def norm(x, ord=None, axis=None, keepdims=False):
    a = np.asarray(array(x))
    if a.ndim == 1 and axis is None:
        axis = 0
    vec = isinstance(axis, (int, np.integer))
    if vec and ord in (1, np.inf, -np.inf):
        b = apply('absolute', wrap(a))
        f = {1: NPS.sum, np.inf: NPS.max, -np.inf: NPS.min}[ord]
        return f(b, axis=axis, keepdims=keepdims)
    if not vec and ord in (1, np.inf, -1, -np.inf) and a.ndim == 2:
        b = NPS.sum(apply('absolute', wrap(a)),
                    axis=0 if ord in (1, -1) else 1)
        return NPS.max(b) if ord > 0 else NPS.min(b)
    if ord not in (None, 2, 'fro') or (ord == 2 and not vec):
        raise Unsupported('norm order')

    def f(l):
        t = 0
        for v in l:
            if isinstance(v, CSym):
                t = t + v.re * v.re + v.im * v.im
            else:
                t = t + v * v
        return ELEM['sqrt'](t)
    r = _reduce_axis(f, a, axis)
    return _keep(r, a, axis) if keepdims else r


class NPModule(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            def uf(*a, **k):
                a = [array(i) if isinstance(i, (list, tuple)) else i
                     for i in a]
                if name in ELEM and not k:
                    refuse_u(name, a[0])
                    return apply(name, a[0])
                if name in BIN and not k:
                    refuse_u(name, *a[:2])
                    return apply2(name, *a)
                k = {x: realdt(y) for x, y in k.items()}
                r = v(*a, **k)
                return wrap(r)
            uf.__name__ = name
            for meth in ('reduce', 'outer', 'accumulate'):
                setattr(uf, meth, (lambda m: lambda *a, **k: wrap(
                    getattr(v, m)(*a, **k)))(meth))
            return uf
        if isinstance(v, type) or not callable(v):
            return v

        def call(*a, **k):
            a = [array(i) if isinstance(i, (list, tuple)) and has_sym(i)
                 and not any(isinstance(j, np.ndarray) for j in i)
                 else realdt(i) for i in a]
            k = {x: realdt(y) for x, y in k.items()}
            r = v(*a, **k)
            if isinstance(r, tuple):
                return tuple(wrap(i) for i in r)
            if isinstance(r, list):
                return [wrap(i) for i in r]
            return wrap(r)
        call.__name__ = name
        return call


NPS = NPModule('numpy')
for _n, _f in dict(
        array=_copied, asarray=asarray, asanyarray=asanyarray, zeros=zeros,
        ones=ones, empty=lambda shape, dtype=None, **k: zeros(shape, dtype),
        full=full, zeros_like=zeros_like, ones_like=ones_like,
        empty_like=zeros_like, full_like=full_like, eye=eye,
        identity=lambda n, dtype=None: eye(n, dtype=dtype),
        linspace=linspace, dot=dot, matrix=mat, mat=mat,
        float64=FloatShim, double=FloatShim).items():
    setattr(NPS, _n, _f)
NPS.sum = _red('sum', _sum)
NPS.prod = _red('prod', _prod)
def _numbers(l):
    return [x for x in l if not S._isnan(x)]


def _top(l):
    if len(_numbers(l)) < len(l):
        return float('nan')
    return functools.reduce(lambda a, b: b if b > a else a, l)


def _bottom(l):
    if len(_numbers(l)) < len(l):
        return float('nan')
    return functools.reduce(lambda a, b: b if b < a else a, l)


NPS.max = NPS.amax = _red('max', _top)
NPS.min = NPS.amin = _red('min', _bottom)
NPS.nanmax = _red('nanmax', lambda l: _top(_numbers(l)))
NPS.nanmin = _red('nanmin', lambda l: _bottom(_numbers(l)))
NPS.ptp = _red('ptp', lambda l: functools.reduce(
    lambda a, b: b if b > a else a, l) - functools.reduce(
    lambda a, b: b if b < a else a, l))
NPS.mean = _red('mean', lambda l: _sum(l) / len(l))
NPS.nanmean = NPS.mean
NPS.argmin = _red('argmin', _argmin)
NPS.round = NPS.around = NPS.round_ = lambda a, decimals=0, **k: \
    np.round(a, decimals) if not has_sym(a) else \
    _map(lambda x: round(lift(x), decimals), np.asarray(array(a))) \
    if np.ndim(a) else round(lift(a), decimals)
NPS.argmax = _red('argmax', _argmax)
NPS.nanargmin = NPS.argmin


def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return NPS.mean(a, axis=axis)
    w, a = asarray(weights), asarray(a)
    if w.shape != a.shape:
        shape = [1] * a.ndim
        shape[axis] = len(w)
        w = w.reshape(shape)
    r = NPS.sum(a * w, axis=axis) / NPS.sum(w, axis=axis if
                                            w.shape == a.shape else None)
    return (r, NPS.sum(w)) if k.get('returned') else r


NPS.average = _average


def _var(a, axis=None, ddof=0, **k):
    def f(l):
        m = _sum(l) / len(l)
        return _sum([(v - m)**2 for v in l]) / (len(l) - ddof)
    return _reduce_axis(f, a, axis)


NPS.var = _var
NPS.std = lambda a, axis=None, ddof=0, **k: apply('sqrt', _var(
    a, axis, ddof))


def argsort(a, axis=-1, **k):
    if not _symbolic(a):
        return np.argsort(a, axis=axis, **k)
    a = np.asarray(array(a))
    if a.ndim == 1:
        return np.array(_argsort(list(a)), dtype=int)
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape, dtype=int)
    for i in np.ndindex(m.shape[:-1]):
        out[i] = _argsort(list(m[i]))
    return np.moveaxis(out, -1, axis)


def sort(a, axis=-1, **k):
    if not _symbolic(a):
        return np.sort(a, axis=axis, **k)
    a = np.asarray(array(a))
    return wrap(np.take_along_axis(a, argsort(a, axis), axis))


NPS.argsort, NPS.sort = argsort, sort
NPS.abs = NPS.absolute = lambda x, **k: apply('absolute', x)


def _where(c, *xy):
    if isinstance(c, np.ndarray) and c.dtype == object:
        c = np.array([bool(v) for v in c.ravel()]).reshape(c.shape)
    elif isinstance(c, BoolSym):
        c = bool(c)
    if not xy:
        return np.where(c)
    x, y = (np.asarray(array(v)) for v in xy)
    if x.dtype != object and y.dtype != object:
        return np.where(c, x, y)
    c, x, y = np.broadcast_arrays(c, x, y)
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        out[i] = x[i] if c[i] else y[i]
    return out.view(SArr) if out.shape else out.item()


NPS.where = _where
NPS.any = lambda a, axis=None, **k: np.any(_tobool(a), axis=axis, **k)
NPS.all = lambda a, axis=None, **k: np.all(_tobool(a), axis=axis, **k)


def _tobool(a):
    a = np.asarray(array(a))
    if a.dtype == object:
        return np.array([bool(v) for v in a.ravel()]).reshape(a.shape)
    return a


NPS.count_nonzero = lambda a, axis=None: np.count_nonzero(_tobool(a),
                                                          axis=axis)


def _close(a, b, rtol, atol):
    """|a - b| <= atol + rtol |b| as one condition"""
    d = a - b
    if isinstance(d, CSym) or isinstance(b, CSym):
        return builtins.abs(d) <= atol + rtol * builtins.abs(b)
    u, v = atol + rtol * b, atol - rtol * b
    up = S._b(d <= u) | S._b(d <= v)
    lo = S._b(-d <= u) | S._b(-d <= v)
    return S._b(up) & S._b(lo)


def _isclose1(a, b, rtol, atol):
    c = _close(a, b, rtol, atol)
    return S.ctx().decide_whole(c) if isinstance(c, S.BoolSym) else bool(c)


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not _symbolic(a) and not _symbolic(b):
        return np.allclose(a, b, rtol, atol)
    A, B = np.broadcast_arrays(np.asarray(array(a)), np.asarray(array(b)))
    c = True
    for i in np.ndindex(A.shape):
        c = S._b(c) & S._b(_close(A[i], B[i], rtol, atol))
        if S.ctx().holds(c) is False:
            return False
    return S.ctx().decide_whole(c) if isinstance(c, S.BoolSym) else bool(c)


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not _symbolic(a) and not _symbolic(b):
        return np.isclose(a, b, rtol, atol)
    A, B = np.broadcast_arrays(np.asarray(array(a)), np.asarray(array(b)))
    out = np.empty(A.shape, dtype=bool)
    for i in np.ndindex(A.shape):
        out[i] = _isclose1(A[i], B[i], rtol, atol)
    return out if out.shape else bool(out)


NPS.isclose = isclose
NPS.allclose = allclose
NPS.array_equal = lambda a, b, **k: np.shape(a) == np.shape(b) and bool(
    NPS.all(array(a) == array(b)))


def _real(x):
    if isinstance(x, (np.ndarray, list, tuple)):
        x = x if isinstance(x, np.ndarray) else np.asarray(array(x))
        return _part(x, 'real') if x.dtype == object else x.real
    return x.real


def _imag(x):
    if isinstance(x, (np.ndarray, list, tuple)):
        x = x if isinstance(x, np.ndarray) else np.asarray(array(x))
        return _part(x, 'imag') if x.dtype == object else x.imag
    return x.imag


def _angle(x, deg=False):
    def f(v):
        if isinstance(v, (Sym, CSym)):
            r = S.sym_atan2(v.imag, v.real)
        else:
            r = lift(float(np.angle(v)))
        return r.rad2deg() if deg else r
    if isinstance(x, np.ndarray):
        return _map(f, x)
    return f(x)


NPS.real, NPS.imag, NPS.angle = _real, _imag, _angle


def _vdot(a, b):
    a, b = np.asarray(array(a)).ravel(), np.asarray(array(b)).ravel()
    return _sum([x.conjugate() * y for x, y in zip(a, b)])


NPS.vdot = _vdot


def _cross(a, b, *args, **k):
    a, b = np.asarray(array(a)), np.asarray(array(b))
    if a.ndim == b.ndim == 1 and len(a) == len(b) == 3:
        return array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                      a[0] * b[1] - a[1] * b[0]])
    return wrap(np.cross(a, b, *args, **k))


NPS.cross = _cross


def _round(x, decimals=0, out=None):
    def f(v):
        if isinstance(v, CSym):
            return CSym(round(v.re, decimals), round(v.im, decimals))
        return round(v, decimals) if isinstance(v, Sym) else np.round(
            v, decimals)
    if isinstance(x, (list, tuple)):
        x = array(x)
    return _map(f, np.asarray(x)) if isinstance(x, np.ndarray) else f(x)


NPS.round = NPS.around = _round


def _clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = apply2('maximum', r, lo)
    if hi is not None:
        r = apply2('minimum', r, hi)
    return r


NPS.clip = _clip


def _power(a, b, **k):
    return (array(a) if isinstance(a, (list, tuple)) else a) ** b


NPS.power = NPS.float_power = _power


def _heaviside(x, h):
    return _map(lambda v: lift(1) if v > 0 else lift(h) if v == 0 else
                lift(0), np.asarray(array(x))) if np.ndim(x) else (
        1 if x > 0 else h if x == 0 else 0)


NPS.heaviside = _heaviside


def _interp(x, xp, fp, left=None, right=None, **k):
    if not _symbolic(x) and not _symbolic(xp) and not _symbolic(fp):
        return np.interp(x, xp, fp, left, right, **k)
    xp, fp = list(array(xp)), list(array(fp))

    def one(v):
        if v <= xp[0]:
            return fp[0] if left is None or v == xp[0] else left
        for i in range(1, len(xp)):
            if v <= xp[i]:
                return fp[i - 1] + (fp[i] - fp[i - 1]) * (v - xp[i - 1]) / (
                    xp[i] - xp[i - 1])
        return fp[-1] if right is None else right
    return _map(one, np.asarray(array(x))) if np.ndim(x) else one(lift(x))


NPS.interp = _interp


def _block(arrays):
    if not isinstance(arrays, list):
        return np.asarray(array(arrays))
    depth = 0
    x = arrays
    while isinstance(x, list):
        depth, x = depth + 1, x[0]

    def at(x, axis):
        if not isinstance(x, list):
            x = np.asarray(array(x))
            return x.reshape((1,) * (depth - x.ndim) + x.shape) \
                if x.ndim < depth else x
        return np.concatenate([at(i, axis + 1) for i in x],
                              axis=axis - depth)
    return at(arrays, 0)


NPS.block = lambda arrays: wrap(_block(arrays))
NPS.bmat = lambda arrays: mat(_block(arrays))
NPS.asmatrix = lambda a, dtype=None: mat(a)


class _Vectorize:
    def __init__(self, f=None, otypes=None, signature=None, excluded=None,
                 **k):
        if signature or excluded:
            raise Unsupported('vectorize')
        self.f, self.otypes = f, otypes

    def __call__(self, *a):
        if not any(has_sym(i) for i in a):
            return np.vectorize(self.f)(*a)
        A = np.broadcast_arrays(*[np.asarray(array(i)) for i in a])
        out = [self.f(*v) for v in zip(*[x.ravel() for x in A])]
        if out and isinstance(out[0], tuple):
            return tuple(array([o[i] for o in out]).reshape(A[0].shape)
                         for i in range(len(out[0])))
        return array(out).reshape(A[0].shape)


NPS.vectorize = _Vectorize
NPS.fromiter = lambda it, dtype=None, count=-1, **k: array(
    list(it) if count < 0 else [v for _, v in zip(range(count), it)],
    dtype=dtype)
NPS.fix = lambda x: apply('trunc', x)
NPS.iscomplex = lambda x: apply('iscomplex', x)
NPS.isreal = lambda x: apply('isreal', x)


def _iscomplexobj(x):
    if has_sym(x):
        return any(isinstance(v, (CSym, builtins.complex))
                   for v in np.asarray(array(x)).ravel())
    return np.iscomplexobj(x)


NPS.iscomplexobj = _iscomplexobj
NPS.isrealobj = lambda x: not _iscomplexobj(x)
NPS.sort_complex = lambda a: sort(a)


def _polyfit(x, y, deg, *a, **k):
    if a or any(k.values()) or not has_sym(x) and not has_sym(y):
        return np.polyfit(x, y, deg, *a, **k)
    V = np.vander(np.asarray(array(x)), deg + 1)
    return dot(pinv(V), asarray(y))


NPS.polyfit = _polyfit


def _cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if k:
        raise Unsupported('cov')
    m = np.atleast_2d(np.asarray(array(m)))
    if not rowvar and m.shape[0] != 1:
        m = m.T
    if y is not None:
        m = np.concatenate([m, np.atleast_2d(np.asarray(array(y)))])
    n = m.shape[1] - ((0 if bias else 1) if ddof is None else ddof)
    d = m - (m.sum(axis=1) / m.shape[1])[:, None]
    return array(np.dot(d, d.T) / n if m.shape[0] > 1 else
                 np.dot(d, d.T)[0, 0] / n)


NPS.cov = _cov
MATH_X = dict(trunc=lambda x: int(x) if isinstance(x, Sym)
              else _math.trunc(x),
              fmod=lambda a, b: a - b * int(a / b),
              dist=lambda p, q: ELEM['sqrt'](_sum(
                  [(a - b)**2 for a, b in zip(p, q)])),
              sumprod=lambda p, q: _sum([a * b for a, b in zip(p, q)]),
              **{n: (lambda f: lambda x: f(x))(ELEM[n]) for n in (
                  'sinh', 'cosh', 'tanh', 'expm1', 'log1p', 'log10',
                  'log2')})


class LinAlg(types.ModuleType):
    def __getattr__(self, name):
        return getattr(np.linalg, name)


LA = LinAlg('numpy.linalg')


def _concrete(name):
    def f(a, *r, **k):
        return getattr(np.linalg, name)(concrete(a), *r, **k)
    return f


def concrete(a):
    """a floating point array of constants"""
    a = np.asarray(array(a))
    if a.dtype != object:
        return a
    out = np.empty(a.shape)
    for i in np.ndindex(a.shape):
        v = lift(a[i])
        if v is None or isinstance(v, CSym) or not v.is_const():
            raise Unsupported('numerical routine for symbolic values')
        out[i] = builtins.float(v.const())
    return out


for _n in ('cond', 'matrix_rank', 'svd', 'qr', 'cholesky', 'slogdet'):
    setattr(LA, _n, _concrete(_n))
LA.cross = lambda a, b, axis=-1: NPS.cross(a, b)
LA.vector_norm = lambda x, axis=None, keepdims=False, ord=2: norm(
    np.asarray(array(x)).ravel() if axis is None else x, ord, axis, keepdims)
LA.matrix_norm = lambda x, ord='fro', **k: norm(x, ord)
LA.inv, LA.det, LA.norm, LA.solve, LA.pinv = inv, det, norm, solve_, pinv
LA.inv = lambda a: EXT['numpy.linalg.inv'](a) \
    if 'numpy.linalg.inv' in EXT else inv(a)
LA.lstsq = lambda a, b, rcond=None: (dot(pinv(a), b), None, None, None)
LA.eig = ext('numpy.linalg.eig')
LA.eigvals = lambda a: LA.eig(a)[0]
LA.eigh = ext('numpy.linalg.eigh')
LA.eigvalsh = lambda a: LA.eigh(a)[0]


def _mpow(a, n):
    r = eye(np.shape(a)[0])
    for _ in range(n):
        r = dot(r, a)
    return r


LA.matrix_power = _mpow
LA.multi_dot = lambda l: functools.reduce(dot, l)
NPS.linalg = LA


class _NumScalar(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (np.floating, Sym))


class _FloatingShim(metaclass=_NumScalar):
    pass


class _NumMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (np.number, Sym, CSym))


class _NumberShim(metaclass=_NumMeta):
    pass


NPS.floating = _FloatingShim
NPS.number = _NumberShim


NPS.pi = S.lift_pi()


# --------------------------------------------------------------------------
# math / umath / unumpy
# --------------------------------------------------------------------------
class MathModule(types.ModuleType):
    def __getattr__(self, name):
        return getattr(_math, name)


MATH = MathModule('math')
_MN = dict(sin='sin', cos='cos', tan='tan', asin='arcsin', acos='arccos',
           atan='arctan', sqrt='sqrt', exp='exp', log='log', fabs='absolute',
           degrees='rad2deg', radians='deg2rad', isnan='isnan',
           isfinite='isfinite')


def _mathfn(nm, real, uncertain=False):
    def f(x, *a):
        if not uncertain and isinstance(x, U):
            raise TypeError("can't convert an affine function to float")
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.item()
        if a:
            raise Unsupported(real)
        return apply(nm, x)
    f.__name__ = real
    return f


for _k, _v in _MN.items():
    setattr(MATH, _k, _mathfn(_v, _k))
for _k, _v in MATH_X.items():
    setattr(MATH, _k, _v)
def _plain(f):
    def g(*a):
        if any(isinstance(v, U) for v in a):
            raise TypeError("can't convert an affine function to float")
        return f(*a)
    return g


MATH.atan2 = _plain(lambda y, x: apply2('arctan2', y, x))
MATH.hypot = _plain(lambda *a: ELEM['sqrt'](_sum([v * v for v in a])))
MATH.pow = lambda a, b: a ** b
MATH.fmod = lambda a, b: apply2('fmod', a, b)
MATH.fsum = _sum
MATH.prod = _prod
MATH.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
    abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol))
MATH.copysign = lambda a, b: abs(a) if b >= 0 else -abs(a)


def _floor(x):
    if isinstance(x, Sym):
        return _math.floor(x.const()) if x.is_const() else S.floor_int(x)
    return _math.floor(x)


def _ceil(x):
    if isinstance(x, Sym):
        return _math.ceil(x.const()) if x.is_const() else -S.floor_int(-x)
    return _math.ceil(x)


MATH.ceil, MATH.floor = _ceil, _floor
MATH.pi = S.lift_pi()
MATH.tau = 2 * MATH.pi

UMATH = MathModule('uncertainties.umath')
for _k, _v in _MN.items():
    setattr(UMATH, _k, _mathfn(_v, _k, True))
UMATH.atan2 = lambda y, x: apply2('arctan2', y, x)
UMATH.pow = MATH.pow
UMATH.hypot = lambda x, y: apply2('hypot', x, y)

UNUMPY = types.ModuleType('uncertainties.unumpy')


def _un(nm):
    # unumpy functions always return arrays
    def f(x):
        r = apply(nm, array(x) if not isinstance(x, np.ndarray) else x)
        return r
    return f


for _k in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'arctan', 'arcsin',
           'arccos'):
    setattr(UNUMPY, _k, _un(_k))
UNUMPY.matrix = UNUMPY.umatrix = mat


def nominal_values(a):
    x = np.asarray(array(a))
    if x.dtype != object:
        return x
    r = _map(_nom, x)
    return r


UNUMPY.nominal_values = nominal_values
UNUMPY.std_devs = lambda a: _map(
    lambda v: v.std_dev if isinstance(v, U) else 0.0, np.asarray(array(a)))


def uarray(noms, stds=None):
    if stds is None:
        noms, stds = noms
    n, s = np.asarray(array(noms)), np.asarray(array(stds))
    out = np.empty(n.shape, dtype=object)
    for i in np.ndindex(n.shape):
        out[i] = U.var(n[i], s[i])
    return out.view(SArr)


UNUMPY.uarray = uarray
UNUMPY.ulinalg = types.ModuleType('ulinalg')
UNUMPY.ulinalg.inv, UNUMPY.ulinalg.pinv = inv, pinv

UNC = types.ModuleType('uncertainties')
UNC.ufloat, UNC.ufloat_fromstr, UNC.UFloat = ufloat, ufloat_fromstr, U
UNC.AffineScalarFunc = UNC.Variable = U
UNC.umath, UNC.unumpy = UMATH, UNUMPY
UNC.nominal_value = _nom
UNC.std_dev = lambda v: v.std_dev if isinstance(v, U) else 0.0


# --------------------------------------------------------------------------
# recorders for drawing / web libraries
# --------------------------------------------------------------------------
class Rec:
    """Accepts any attribute access and call and records the calls."""

    def __init__(self, name='rec', **attrs):
        self.__dict__['_name'] = name
        self.__dict__['calls'] = []
        self.__dict__['_ch'] = {}
        self.__dict__['_attrs'] = attrs

    def __getattr__(self, k):
        if k.startswith('__') and k.endswith('__'):
            raise AttributeError(k)
        d = self.__dict__
        if k in d['_attrs']:
            return d['_attrs'][k]
        if k not in d['_ch']:
            d['_ch'][k] = RecFn(self, k)
        return d['_ch'][k]

    def __setattr__(self, k, v):
        self.__dict__['_attrs'][k] = v

    def __call__(self, *a, **k):
        self.calls.append(('()', a, k))
        return Rec(self._name + '()')

    def __getitem__(self, i):
        return Rec(self._name + '[]')

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __bool__(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def named(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]


class RecFn(Rec):
    def __init__(self, owner, name):
        Rec.__init__(self, name)
        self.__dict__['_owner'] = owner

    def __call__(self, *a, **k):
        self._owner.calls.append((self._name, a, k))
        r = Rec(self._name + '()', _args=a, _kw=k)
        return r


class Lines:
    def __init__(self, ax):
        self.ax = ax

    def __call__(self):
        return self.ax.curves()

    def __iter__(self):
        return iter(self.ax.artists)

    def __len__(self):
        return len(self.ax.artists)

    def __getitem__(self, i):
        return self.ax.artists[i]


class Ax(Rec):
    """Recorder for a matplotlib Axes."""

    def __init__(self, fig=None, name='ax'):
        Rec.__init__(self, name)
        self.__dict__['figure'] = fig
        self.__dict__['twins'] = []
        self.__dict__['artists'] = []
        self.__dict__['xlim'] = (0.0, 1.0)
        self.__dict__['ylim'] = (0.0, 1.0)
        self.__dict__['flipped'] = [False, False]

    def plot(self, *a, **k):
        self.calls.append(('plot', a, k))
        return [Rec('line')]

    def get_lines(self):
        return self.artists

    def twinx(self, *a, **k):
        t = Ax(self.figure, 'twin')
        self.twins.append(t)
        return t

    def invert_yaxis(self):
        self.flipped[1] = not self.flipped[1]

    def invert_xaxis(self):
        self.flipped[0] = not self.flipped[0]

    def yaxis_inverted(self):
        return self.flipped[1]

    def xaxis_inverted(self):
        return self.flipped[0]

    get_yinverted, get_xinverted = yaxis_inverted, xaxis_inverted

    def set_yinverted(self, b=True):
        self.flipped[1] = bool(b)

    def get_xlim(self):
        return self.xlim

    def get_ylim(self):
        return self.ylim

    def get_legend_handles_labels(self):
        return [], []

    @property
    def lines(self):
        """the artists, as of Axes.lines; calling it gives the curves"""
        return Lines(self)

    def curves(self):
        """[(x, y, kwargs)]: every drawn curve on its own, x and y as lists
        (columns of a 2-D y and repeated x, y groups are split)"""
        out = []

        def cols(v):
            if isinstance(v, np.ndarray):
                if v.ndim == 2:
                    return [list(v[:, i]) for i in range(v.shape[1])]
                return [list(np.atleast_1d(v))]
            if isinstance(v, (list, tuple)):
                return [list(v)]
            return [[v]]
        for a, k in self.named('plot'):
            a = [v for v in a if not isinstance(v, str)]
            for x, y in zip(a[::2], a[1::2]):
                xs, ys = cols(x), cols(y)
                n = max(len(xs), len(ys))
                for i in range(n):
                    out.append((xs[i % len(xs)], ys[i % len(ys)], k))
        return out


class Fig(Rec):
    def __init__(self):
        Rec.__init__(self, 'fig')
        self.__dict__['axes'] = []

    def _new(self):
        ax = Ax(self)
        self.axes.append(ax)
        return ax

    def add_subplot(self, *a, **k):
        self.calls.append(('add_subplot', a, k))
        return self._new()

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        return _grid(self, nrows, ncols, squeeze)

    def gca(self):
        return self.axes[-1] if self.axes else self._new()


def _grid(fig, nrows, ncols, squeeze=True):
    arr = np.empty((nrows, ncols), dtype=object)
    for i in range(nrows):
        for j in range(ncols):
            arr[i, j] = fig._new()
    if squeeze:
        if nrows == ncols == 1:
            return arr[0, 0]
        if nrows == 1 or ncols == 1:
            return arr.ravel()
    return arr


class _Cycle:
    def by_key(self):
        return {'color': ['#%02x%02x%02x' % (i, 2 * i, 3 * i)
                          for i in range(1, 11)]}

    def __iter__(self):
        return iter([{'color': c} for c in self.by_key()['color']])


class Plt(Rec):
    """Recorder for matplotlib.pyplot."""

    def __init__(self):
        Rec.__init__(self, 'plt')
        self.__dict__['figs'] = []
        self.__dict__['rcParams'] = {'axes.prop_cycle': _Cycle(),
                                     'figure.figsize': [6.4, 4.8],
                                     'lines.linewidth': 1.5}

    def figure(self, *a, **k):
        f = Fig()
        self.figs.append(f)
        return f

    def subplots(self, nrows=1, ncols=1, *a, **k):
        f = self.figure()
        f.__dict__['sub_kw'] = k
        return f, _grid(f, nrows, ncols, k.get('squeeze', True))

    def axes(self, *a, **k):
        return self.gca()

    def gca(self, *a, **k):
        return self.gcf().gca()

    def gcf(self):
        return self.figs[-1] if self.figs else self.figure()

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    def get_cmap(self, *a, **k):
        return lambda x: (0.25, 0.5, 0.75, 1.0)


def _patch(kind):
    def make(self, *a, **kw):
        r = Rec(kind, _args=a, _kw=kw)
        r.__dict__['patch'] = (kind, a, kw)
        return r
    return make


for _k in ('Circle', 'Rectangle', 'Polygon'):
    setattr(Plt, _k, _patch(_k))


class Patches(Rec):
    """matplotlib.patches: constructors return a record of their arguments"""

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)

        def make(*a, **kw):
            r = Rec(k, _args=a, _kw=kw)
            r.__dict__['patch'] = (k, a, kw)
            self.calls.append((k, a, kw))
            return r
        return make


class RecModule(types.ModuleType):
    def __init__(self, name):
        types.ModuleType.__init__(self, name)
        self.__dict__['rec'] = Rec(name)
        self.__path__ = []

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return getattr(self.__dict__['rec'], k)


class OptModule(types.ModuleType):
    def __init__(self, name):
        types.ModuleType.__init__(self, name)
        self.__path__ = []

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        nm = self.__name__ + '.' + k
        if nm in MODS:
            return MODS[nm]
        return ext(nm)


MODS = {
    'numpy': NPS, 'numpy.linalg': LA, 'math': MATH,
    'uncertainties': UNC, 'uncertainties.umath': UMATH,
    'uncertainties.unumpy': UNUMPY,
}
for _m in ('scipy', 'scipy.optimize', 'scipy.integrate', 'scipy.linalg',
           'scipy.signal', 'scipy.io', 'yeadon', 'dtk.control'):
    MODS[_m] = OptModule(_m)
RECORDED = ('matplotlib', 'plotly', 'dash', 'dash_bootstrap_components',
            'pandas', 'flask')


class Yaml(types.ModuleType):
    """The real YAML library; symbolic numbers travel as token floats."""

    def __getattr__(self, name):
        import yaml
        return getattr(yaml, name)

    @staticmethod
    def _map(x, leaf):
        if isinstance(x, dict):
            return {k: Yaml._map(v, leaf) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)(Yaml._map(v, leaf) for v in x)
        return leaf(x)

    @staticmethod
    def _out(x):
        if isinstance(x, Sym):
            return builtins.float(S.CTX.token(x, ''))
        if isinstance(x, (U, CSym, BoolSym)):
            raise Unsupported('YAML of %s' % type(x).__name__)
        return x

    @staticmethod
    def _in(x):
        if isinstance(x, builtins.float):
            t = S.CTX.tokens.getf(abs(x)) if S.CTX is not None else None
            if t is not None:
                return t if x > 0 else -t
        return x


def _yaml(name, out):
    def f(x, *a, **k):
        import yaml
        fn = getattr(yaml, name)
        if out:
            return fn(Yaml._map(x, Yaml._out), *a, **k)
        return Yaml._map(fn(x, *a, **k), Yaml._in)
    return f


MODS['yaml'] = Yaml('yaml')
for _n, _o in (('dump', True), ('safe_dump', True), ('load', False),
               ('safe_load', False), ('full_load', False)):
    setattr(MODS['yaml'], _n, _yaml(_n, _o))


class Dash(Rec):
    """web application: callbacks stay plain functions"""

    def __init__(self, *a, **k):
        Rec.__init__(self, 'dash')

    @staticmethod
    def callback(*a, **k):
        return lambda f: f


def resolve(name):
    """Shim module for an absolute module name, or None."""
    if name in MODS:
        return MODS[name]
    top = name.split('.')[0]
    if top in RECORDED:
        if name == 'matplotlib.pyplot':
            m = MODS[name] = Plt()
            return m
        if name == 'matplotlib.patches':
            m = MODS[name] = Patches('patches')
            return m
        m = MODS[name] = RecModule(name)
        if name == 'dash':
            m.__dict__['Dash'] = Dash
            m.__dict__['callback'] = Dash.callback
        if name == 'matplotlib.colors':
            # the ten default colours (names only; never compared)
            m.__dict__['TABLEAU_COLORS'] = {
                'tab:%s' % c: '#%06x' % i for i, c in enumerate(
                    ('blue', 'orange', 'green', 'red', 'purple', 'brown',
                     'pink', 'gray', 'olive', 'cyan'))}
        return m
    if top == 'scipy' or top == 'yeadon':
        m = MODS[name] = OptModule(name)
        return m
    return None
