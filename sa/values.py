"""Abstract values of the analysed Python program (everything except scalars)."""
from __future__ import annotations
import numpy as np
from . import terms as T
from .terms import S


class Unmodelled(Exception):
    """the analysis met a construct it has no abstraction for"""


class PyRaise(Exception):
    """an exception of the analysed program"""

    def __init__(self, value, where=None):
        self.value = value
        self.where = where
        Exception.__init__(self, f'{type_name(value)}: {exc_text(value)} at {where}')


def type_name(v):
    if isinstance(v, Obj):
        return v.cls.name
    return type(v).__name__


def exc_text(v):
    if isinstance(v, BaseException):
        return ' '.join(str(a) for a in v.args)
    if isinstance(v, Obj):
        return ' '.join(str(a) for a in v.attrs.get('args', ()))
    return str(v)


class Scope:
    __slots__ = ('vars', 'parent', 'module', 'globals_', 'nonlocals', 'iscls', 'func')

    def __init__(self, parent, module, iscls=False):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.globals_ = ()
        self.nonlocals = ()
        self.iscls = iscls
        self.func = None


class Module:
    def __init__(self, name, path, ns):
        self.name, self.path, self.ns = name, path, ns

    def __repr__(self):
        return f'<module {self.name}>'


class NS:
    """modelled library namespace"""

    def __init__(self, name, d):
        self.name, self.d = name, d

    def __repr__(self):
        return f'<lib {self.name}>'


class Func:
    def __init__(self, node, scope, defaults, kwdefaults, name, module, cls=None):
        self.node, self.scope = node, scope
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.module, self.cls = name, module, cls
        self.attrs = {}
        self.isgen = None
        self.qual = name

    def __repr__(self):
        return f'<function {self.qual}>'


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and self.fn is o.fn and self.self_ is o.self_

    def __hash__(self):
        return hash((id(self.fn), id(self.self_)))


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), dict(kwargs)


class JitFunc:
    def __init__(self, fn, static_argnums=(), static_argnames=(), store=None):
        self.fn = fn
        self.static = (static_argnums,) if isinstance(static_argnums, int) else tuple(static_argnums or ())
        self.static_names = (static_argnames,) if isinstance(static_argnames, str) else tuple(static_argnames or ())
        self.cache = {} if store is None else store
        self.attrs = {}

    def __repr__(self):
        return f'<jit {self.fn!r}>'


class Property:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class IClass:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.dc = None          # dataclass field list [(name, default, factory)]
        self.tuplelike = False
        self.mro = self._mro()

    def _mro(self):
        out = [self]
        seqs = [list(b.mro) for b in self.bases if isinstance(b, IClass)]
        seqs.append([b for b in self.bases if isinstance(b, IClass)])
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    s.pop(0)
        return out

    def find(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def native_base(self):
        for c in self.mro:
            for b in c.bases:
                if isinstance(b, type):
                    return b
        return None

    def __repr__(self):
        return f'<class {self.name}>'


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return f'<{self.cls.name} object>'


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Opaque:
    """result of code outside the modelled world (plotting, OS, ...)"""
    _n = [0]

    def __init__(self, name, args=(), kwargs=None, parent=None):
        self.name, self.args, self.kwargs = name, tuple(args), dict(kwargs or {})
        self.parent = parent
        self.attrs = {}
        Opaque._n[0] += 1
        self.uid = Opaque._n[0]

    def __repr__(self):
        return f'<opaque {self.name}>'


class Key:
    """PRNG key: its derivation path"""

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Key) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return f'<key {self.path}>'


class Affine:
    """matplotlib Affine2D: x -> M x + t"""

    def __init__(self, m=None, t=None, post=None):
        one, zero = T.num(1), T.num(0)
        self.m = m or [[one, zero], [zero, one]]
        self.t = t or [zero, zero]
        self.post = post

    def then(self, m, t):
        a = self.m
        nm = [[T.add(T.mul(m[i][0], a[0][j]), T.mul(m[i][1], a[1][j])) for j in (0, 1)] for i in (0, 1)]
        nt = [T.add(T.add(T.mul(m[i][0], self.t[0]), T.mul(m[i][1], self.t[1])), t[i]) for i in (0, 1)]
        return Affine(nm, nt, self.post)

    def apply(self, x, y):
        return [T.add(T.add(T.mul(self.m[i][0], x), T.mul(self.m[i][1], y)), self.t[i]) for i in (0, 1)]


class Arr:
    """numpy / jax array: object ndarray of scalars"""
    __slots__ = ('a', 'mut')

    def __init__(self, a, mut=False):
        self.a = a
        self.mut = mut

    @property
    def shape(self):
        return self.a.shape

    def __repr__(self):
        return f'Arr{self.a.shape}'


SCALARS = (S, int, bool, float, T.F, np.integer, np.floating, np.bool_)


def is_scalar(x):
    return isinstance(x, SCALARS)


def norm_scalar(x):
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return T.flt(float(x))
    if isinstance(x, T.F):
        return T.num(x)
    return x


def shape_of(x):
    if isinstance(x, Arr):
        return x.a.shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        s = shape_of(x[0])
        for y in x[1:]:
            if shape_of(y) != s:
                raise PyRaise(ValueError('inhomogeneous shape'))
        return (len(x),) + s
    if isinstance(x, range):
        return (len(x),)
    if isinstance(x, Obj) and x.cls.tuplelike:
        return shape_of([x.attrs[f[0]] for f in x.cls.dc])
    return ()


def _fill(out, x):
    if isinstance(x, Arr):
        out[...] = x.a
    else:
        if isinstance(x, Obj):
            x = [x.attrs[f[0]] for f in x.cls.dc]
        for i, y in enumerate(x):
            if out.ndim == 1:
                out[i] = norm_scalar(unwrap0(y))
            else:
                _fill(out[i], y)


def unwrap0(x):
    if isinstance(x, Arr) and x.a.shape == ():
        return x.a[()]
    return x


def wrap(a, mut=False):
    """ndarray/scalar -> value"""
    if isinstance(a, np.ndarray):
        if a.shape == ():
            return norm_scalar(a[()])
        return Arr(a, mut)
    return norm_scalar(a)


def mkarr(x, mut=False):
    """array-like -> Arr, or scalar for 0-d"""
    if isinstance(x, Arr):
        return Arr(x.a.copy(), mut)
    if is_scalar(x) or isinstance(x, Key):
        return norm_scalar(x)
    if isinstance(x, np.ndarray):
        o = np.empty(x.shape, object)
        for i in np.ndindex(*x.shape):
            o[i] = norm_scalar(x[i])
        return wrap(o, mut)
    if isinstance(x, (list, tuple, range)) or (isinstance(x, Obj) and x.cls.tuplelike):
        sh = shape_of(x)
        out = np.empty(sh, object)
        if 0 not in sh:
            _fill(out, x)
        return Arr(out, mut)
    if isinstance(x, Opaque):
        return x
    if hasattr(x, '__iter__') and not isinstance(x, (str, dict)):
        return mkarr(list(x), mut)
    raise PyRaise(TypeError(f'not array-like: {type_name(x)}'))


def nd(x):
    """value -> object ndarray (0-d for scalars)"""
    x = mkarr(x) if not isinstance(x, Arr) else x
    if isinstance(x, Arr):
        return x.a
    o = np.empty((), object)
    o[()] = x
    return o


def ew(f, *xs):
    """elementwise with broadcasting"""
    if all(is_scalar(x) for x in xs):
        return f(*[norm_scalar(x) for x in xs])
    if any(isinstance(x, Opaque) for x in xs):
        return Opaque('numeric-op', xs)
    mut = any(isinstance(x, Arr) and x.mut for x in xs)
    arrs = [nd(x) for x in xs]
    try:
        bs = np.broadcast_arrays(*arrs)
    except ValueError as e:
        raise PyRaise(ValueError(f'incompatible shapes: {e}'))
    out = np.empty(bs[0].shape, object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[b[i] for b in bs])
    return wrap(out, mut)
