"""Abstract models of the libraries the repository calls (numpy, jax, ...)."""
from __future__ import annotations
import collections, functools, hashlib, itertools, math, os.path as _osp
import numpy as np
from fractions import Fraction as F
from . import terms as T
from .terms import S
from .values import *
from .values import unwrap0
from .interp import MISSING, Infeasible, NativeMethod


class TypeTok:
    """a type object of the analysed program (float, jax.Array, ...)"""

    def __init__(self, name, pred, ctor, native=None):
        self.name, self.pred, self.ctor, self.native = name, pred, ctor, native
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.ctor(*a, **k)

    def __getattr__(self, n):
        if n.startswith('__') or self.__dict__.get('native') is None:
            raise AttributeError(n)
        return getattr(self.native, n)

    def __repr__(self):
        return f'<type {self.name}>'

    def __or__(self, o):
        return (self, o)


def key_name(path):
    return hashlib.md5(repr(path).encode()).hexdigest()[:10]


def isfloat(x):
    return (isinstance(x, S) and not x.b) or isinstance(x, (float, F, np.floating))


def isbool(x):
    return isinstance(x, (bool, np.bool_)) or (isinstance(x, S) and x.b)


def cint(x):
    """static integer"""
    x = unwrap0(x)
    if isinstance(x, S):
        c = x.const()
        if c is None:
            raise Unmodelled('a static integer was expected, found ' + repr(x)[:80])
        return int(c)
    if isinstance(x, Arr) and x.a.size == 1:
        return cint(x.a.reshape(-1)[0])
    return int(x)


def cshape(s):
    if isinstance(s, (tuple, list)):
        return tuple(cint(x) for x in s)
    if isinstance(s, Arr):
        return tuple(cint(x) for x in s.a)
    return (cint(s),)


def axes_of(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(cint(a) % ndim for a in axis)
    return (cint(axis) % ndim,)


def to_int(x):
    if isbool(x):
        return T.to_num(x)
    if isinstance(x, int):
        return x
    c = T.to_num(x).const()
    if c is not None:
        return int(c)
    return T.fn('trunc', x)


cur_interp = [None]


class AtIdx:
    def __init__(self, arr, idx, np_):
        self._a, self._i, self._np = arr, idx, np_

    def _upd(self, f, v):
        out = self._a.a.copy()
        i, sym = self._np['__symidx__'](self._a, self._i)
        if sym is not None:
            # symbolic position along one axis: conditional store everywhere
            for k in range(out.shape[sym[0]]):
                c = T.eq(sym[1], k)
                j = i[:sym[0]] + (k,) + i[sym[0] + 1:]
                old = out[j]
                new = ew(f, wrap(old) if isinstance(old, np.ndarray) else old, v)
                r = ew(lambda o, n: T.ite(c, n, o), wrap(old), new)
                out[j] = r.a if isinstance(r, Arr) else r
            return Arr(out)
        # jax drops stores beyond the ends
        for ax, k in enumerate(i if isinstance(i, tuple) else (i,)):
            if k is None or k is Ellipsis:
                break
            if type(k) is int and ax < out.ndim and not -out.shape[ax] <= k < out.shape[ax]:
                return Arr(out)
        try:
            old = out[i]
        except IndexError as ex:
            raise PyRaise(ex)
        if isinstance(old, np.ndarray):
            new = ew(f, wrap(old), v)
            if isinstance(new, Arr) and new.a.shape != old.shape:
                raise PyRaise(ValueError('Incompatible shapes for scatter'))
            out[i] = new.a if isinstance(new, Arr) else new
        else:
            out[i] = f(old, unwrap0(v))
        return Arr(out)

    def set(self, v, **k): return self._upd(lambda o, n: norm_scalar(n), v)
    def add(self, v, **k): return self._upd(lambda o, n: T.add(o, n), v)
    def subtract(self, v, **k): return self._upd(lambda o, n: T.sub(o, n), v)
    def multiply(self, v, **k): return self._upd(lambda o, n: T.mul(o, n), v)
    mul = multiply
    def divide(self, v, **k): return self._upd(lambda o, n: T.div(o, n), v)
    def min(self, v, **k): return self._upd(lambda o, n: T.minimum(o, n), v)
    def max(self, v, **k): return self._upd(lambda o, n: T.maximum(o, n), v)
    def power(self, v, **k): return self._upd(lambda o, n: T.power(o, n), v)
    pow = power
    def apply(self, f, **k): return self.set(cur_interp[0].call(f, [self.get()]))
    def get(self, **k): return self._np['__getitem__'](self._a, self._i)


class At:
    def __init__(self, arr, np_):
        self._a, self._np = arr, np_

    def sa_getitem(self, i):
        return AtIdx(self._a, i, self._np)


class GetItem:
    """np.c_[...] and the like"""

    def __init__(self, f):
        self._f = f

    def sa_getitem(self, i):
        return self._f(i)


class Tqdm:
    def __init__(self, it=None, *a, **k):
        self.it = it
        self.n = 0
        self.total = k.get('total')

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def update(self, *a): pass
    def set_postfix(self, *a, **k): pass
    def set_postfix_str(self, *a, **k): pass
    def set_description(self, *a, **k): pass
    def set_description_str(self, *a, **k): pass
    def refresh(self, *a, **k): pass
    def close(self): pass
    def write(self, *a, **k): pass


def smax(xs):
    xs = list(xs)
    if all(isbool(x) for x in xs):
        return functools.reduce(T.bor, xs)
    return T.maxn(xs)


def smin(xs):
    xs = list(xs)
    if all(isbool(x) for x in xs):
        return functools.reduce(T.band, xs)
    return T.minn(xs)


def ssum(xs):
    r = T.num(0)
    for x in xs:
        r = T.add(r, x)
    return r


def sprod(xs):
    r = T.num(1)
    for x in xs:
        r = T.mul(r, x)
    return r


def smean(xs):
    xs = list(xs)
    return T.div(ssum(xs), len(xs)) if xs else T.flt(float('nan'))


def svar(xs, ddof=0):
    xs = list(xs)
    m = smean(xs)
    return T.div(ssum(T.power(T.sub(x, m), 2) for x in xs), len(xs) - ddof)


def sany(xs):
    r = T.boolean(False)
    for x in xs:
        r = T.bor(r, x)
    return r


def sall(xs):
    r = T.boolean(True)
    for x in xs:
        r = T.band(r, x)
    return r


def sarg(xs, less):
    xs = list(xs)
    best, bi = xs[0], T.num(0)
    for k, x in enumerate(xs[1:], 1):
        c = less(x, best)
        best = T.ite(c, x, best)
        bi = T.ite(c, T.num(k), bi)
    return bi


def ssort(xs):
    xs = list(xs)
    if all(T.to_num(x).const() is not None for x in xs):
        return sorted(xs, key=lambda x: T.to_num(x).const())
    n = len(xs)
    if n > 6:
        raise Unmodelled('sort of more than 6 symbolic values')
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = T.minimum(a, b), T.maximum(a, b)
    return xs


def smedian(xs):
    xs = ssort(xs)
    n = len(xs)
    return T.to_num(xs[n // 2]) if n % 2 else T.div(T.add(xs[n // 2 - 1], xs[n // 2]), 2)


def build(I):
    L = {}
    cur = I
    cur_interp[0] = I

    # --------------------------------------------------------------- pytrees
    def leaves(v, out):
        if v is None:
            return out
        if isinstance(v, (list, tuple)):
            for x in v:
                leaves(x, out)
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                leaves(v[k], out)
        elif isinstance(v, Obj) and v.cls.dc is not None:
            for n, _, _ in v.cls.dc:
                leaves(v.attrs[n], out)
        else:
            out.append(v)
        return out

    def tmap(f, v, *rest):
        if v is None:
            return None
        if isinstance(v, (list, tuple)):
            return type(v)(tmap(f, x, *[r[i] for r in rest]) for i, x in enumerate(v))
        if isinstance(v, dict):
            return {k: tmap(f, v[k], *[r[k] for r in rest]) for k in v}
        if isinstance(v, Obj) and v.cls.dc is not None:
            o = Obj(v.cls)
            for n, _, _ in v.cls.dc:
                o.attrs[n] = tmap(f, v.attrs[n], *[r.attrs[n] for r in rest])
            return o
        return f(v, *rest)

    def tstack(vs, axis=0):
        v = vs[0]
        if v is None:
            return None
        if isinstance(v, (list, tuple)):
            return type(v)(tstack([w[i] for w in vs], axis) for i in range(len(v)))
        if isinstance(v, dict):
            return {k: tstack([w[k] for w in vs], axis) for k in v}
        if isinstance(v, Obj) and v.cls.dc is not None:
            o = Obj(v.cls)
            for n, _, _ in v.cls.dc:
                o.attrs[n] = tstack([w.attrs[n] for w in vs], axis)
            return o
        if isinstance(v, Opaque):
            return v
        if isinstance(v, Obj):
            raise PyRaise(TypeError('not a valid JAX type'))
        arrs = [nd(x) for x in vs]
        if len({a.shape for a in arrs}) != 1:
            raise PyRaise(TypeError('scan/vmap output shapes differ'))
        o = np.empty((len(arrs),) + arrs[0].shape, object)
        for i, a in enumerate(arrs):
            o[i] = a if a.shape else a[()]
        if axis:
            o = np.moveaxis(o, 0, axis)
        return Arr(o)

    def tslice(v, i, axis=0):
        def g(x):
            if isinstance(x, Opaque):
                return x
            if not isinstance(x, Arr):
                raise PyRaise(ValueError('vmap/scan over a scalar'))
            return wrap(np.take(x.a, i, axis=axis) if x.a.ndim > 1 else x.a[i])
        return tmap(g, v)

    def tlen(v, axis=0):
        for x in leaves(v, []):
            if isinstance(x, Arr):
                return x.a.shape[axis]
        return None

    def as_jnp(v):
        if isinstance(v, Arr) and v.mut:
            return Arr(v.a.copy())
        if isinstance(v, (list, tuple)) and v and not isinstance(v, str):
            return v
        return v

    # ------------------------------------------------------------ indexing
    def norm_idx(i):
        if isinstance(i, tuple):
            return tuple(norm_idx1(x) for x in i)
        return (norm_idx1(i),)

    def norm_idx1(x):
        x = I.as_index(x)
        if isinstance(x, (bool, np.bool_)):
            return np.bool_(x)
        if isinstance(x, (int, type(None), type(Ellipsis), slice)):
            if isinstance(x, slice):
                return slice(*[None if y is None else I.as_index(y) for y in (x.start, x.stop, x.step)])
            return x
        if isinstance(x, list):
            x = mkarr(x)
        if isinstance(x, Arr):
            vals = x.a.reshape(-1)
            cs = []
            for y in vals:
                if isinstance(y, S):
                    c = y.const()
                    if c is None:
                        raise Unmodelled('index array with symbolic entries at ' + str(I.where()))
                    cs.append(bool(c) if isinstance(c, bool) else int(c))
                else:
                    cs.append(y)
            dt = bool if cs and all(isinstance(c, bool) for c in cs) else int
            return np.array(cs, dt).reshape(x.a.shape)
        if isinstance(x, S):
            return x
        if isinstance(x, tuple):
            return np.array([cint(y) for y in x])
        raise PyRaise(IndexError(f'bad index {type_name(x)}'))

    def symidx(o, i):
        """(index tuple, (axis, symbolic S) | None)"""
        t = norm_idx(i)
        ks = [k for k, x in enumerate(t) if isinstance(x, S)]
        if not ks:
            return (t if len(t) != 1 else t[0]), None
        if len(ks) > 1 or any(x is None or x is Ellipsis or isinstance(x, np.ndarray) for x in t):
            raise Unmodelled('index with several symbolic positions at ' + str(I.where()))
        return t, (ks[0], t[ks[0]])

    def getitem(o, i):
        t, sym = symidx(o, i)
        if sym is not None:
            ax, s = sym
            n = o.a.shape[ax]
            r = None
            for k in range(n):
                v = wrap(o.a[t[:ax] + (k,) + t[ax + 1:]])
                r = v if r is None else I.merge(T.eq(s, k), v, r)
            # negative positions and clamping beyond the end
            if n > 1:
                last = wrap(o.a[t[:ax] + (n - 1,) + t[ax + 1:]])
                r = I.merge(T.bor(T.gt(s, n - 1), T.eq(s, -1)), last, r)
            return r
        if not o.mut:
            # jax clamps static out-of-bounds gathers
            tt = t if isinstance(t, tuple) else (t,)
            ax = 0
            fixed = []
            nreal = sum(1 for x in tt if x is not None and x is not Ellipsis)
            for x in tt:
                if x is Ellipsis:
                    ax += o.a.ndim - nreal
                elif x is None:
                    pass
                else:
                    if isinstance(x, int) and ax < o.a.ndim and o.a.shape[ax]:
                        n = o.a.shape[ax]
                        x = max(-n, min(n - 1, x))
                    elif isinstance(x, np.ndarray) and x.dtype == int and ax < o.a.ndim and o.a.shape[ax]:
                        n = o.a.shape[ax]
                        x = np.clip(x, -n, n - 1)
                    ax += x.ndim if isinstance(x, np.ndarray) and x.dtype == bool else 1
                fixed.append(x)
            t = tuple(fixed) if isinstance(t, tuple) else fixed[0]
        try:
            r = o.a[t]
        except IndexError as ex:
            raise PyRaise(ex, I.where())
        return wrap(r, o.mut)

    def index_only(i):
        t = norm_idx(i)
        return t if len(t) != 1 else t[0]

    # ------------------------------------------------------------ reductions
    def reduce_(f, x, axis=None, keepdims=False, mut=False):
        x = mkarr(x)
        if isinstance(x, Opaque):
            return Opaque('reduce', (x,))
        a = nd(x)
        if a.ndim == 0:
            return norm_scalar(f([a[()]]))
        axs = axes_of(axis, a.ndim)
        rest = [k for k in range(a.ndim) if k not in axs]
        b = np.transpose(a, rest + list(axs))
        sh = b.shape[:len(rest)]
        b = b.reshape(sh + (-1,)) if b.size else b.reshape(sh + (0,))
        out = np.empty(sh, object)
        for i in np.ndindex(*sh):
            out[i] = norm_scalar(f(list(b[i])))
        if keepdims:
            for k in sorted(axs):
                out = np.expand_dims(out, k)
        return wrap(out, mut)

    def matmul(a, b):
        a, b = nd(a), nd(b)
        if a.ndim == 0 or b.ndim == 0:
            raise PyRaise(ValueError('matmul: scalar operand'))
        a1, b1 = a.ndim == 1, b.ndim == 1
        if a1:
            a = a[None, :]
        if b1:
            b = b[:, None]
        if a.shape[-1] != b.shape[-2]:
            raise PyRaise(ValueError('matmul shapes mismatch'))
        bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
        A = np.broadcast_to(a, bs + a.shape[-2:])
        B = np.broadcast_to(b, bs + b.shape[-2:])
        out = np.empty(bs + (a.shape[-2], b.shape[-1]), object)
        for i in np.ndindex(*out.shape):
            out[i] = ssum(T.mul(A[i[:-2] + (i[-2], k)], B[i[:-2] + (k, i[-1])]) for k in range(a.shape[-1]))
        if a1:
            out = out[..., 0, :]
        if b1:
            out = out[..., 0]
        return wrap(out)

    def dot(a, b, **k):
        if is_scalar(unwrap0(a)) or is_scalar(unwrap0(b)):
            return ew(T.mul, a, b)
        b_ = nd(b)
        if b_.ndim > 2:
            raise Unmodelled('dot with ndim > 2')
        return matmul(a, b)

    def einsum(spec, *ops, **k):
        spec = spec.replace(' ', '')
        if '->' in spec:
            ins, out = spec.split('->')
        else:
            ins, out = spec, None
        ins = ins.split(',')
        arrs = [nd(o) for o in ops]
        if any('.' in s for s in ins):
            # expand an ellipsis into fresh letters
            free = [c for c in 'ABCDEFGH' if c not in spec]
            m = max(a.ndim - len(s.replace('...', '')) for s, a in zip(ins, arrs) if '...' in s)
            el = ''.join(free[:m])
            ins = [s.replace('...', el[m - (a.ndim - len(s.replace('...', ''))):]) for s, a in zip(ins, arrs)]
            out = out.replace('...', el) if out is not None else None
        if out is None:
            cnt = ''.join(ins)
            out = ''.join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
        dims = {}
        for s, a in zip(ins, arrs):
            if len(s) != a.ndim:
                raise PyRaise(ValueError('einsum operand rank mismatch'))
            for c, n in zip(s, a.shape):
                if dims.get(c, n) != n:
                    raise PyRaise(ValueError('einsum size mismatch'))
                dims[c] = n
        summed = [c for c in dims if c not in out]
        res = np.empty(tuple(dims[c] for c in out), object)
        for i in np.ndindex(*res.shape):
            env = dict(zip(out, i))
            acc = T.num(0)
            for j in itertools.product(*[range(dims[c]) for c in summed]):
                env.update(zip(summed, j))
                acc = T.add(acc, sprod(a[tuple(env[c] for c in s)] for s, a in zip(ins, arrs)))
            res[i] = acc
        return wrap(res)

    def norm(x, ord=None, axis=None, keepdims=False):
        o = ord
        if isinstance(o, S):
            o = o.const() if o.const() is not None else 'inf'
        if o is None or o == 2 or o == 'fro':
            f = lambda xs: T.sqrt(ssum(T.power(x, 2) for x in xs))
        elif o == 1:
            f = lambda xs: ssum(T.absv(x) for x in xs)
        else:
            f = lambda xs: T.maxn([T.absv(x) for x in xs])
        return reduce_(f, x, axis, keepdims)

    def cast(v, dtype):
        if dtype is None or isinstance(v, Opaque):
            return v
        n = getattr(dtype, 'name', None) or (dtype if isinstance(dtype, str) else '')
        if 'float' in n or n == 'double':
            return ew(lambda x: T.to_num(x), v)
        if n.startswith('int') or n.startswith('uint') or n == 'int':
            return ew(to_int, v)
        if 'bool' in n:
            return ew(lambda x: T.to_bool(x), v)
        return v

    def make(mut):
        """numpy-like namespace"""
        d = {}
        m = mut

        def out(v):
            if isinstance(v, Arr) and v.mut != m:
                return Arr(v.a, m)
            return v

        def e1(f):
            return lambda x, *a, **k: out(ew(f, mkarr(x)))

        def e2(f):
            return lambda x, y, *a, **k: out(ew(f, mkarr(x), mkarr(y)))

        def array(x, dtype=None, *a, **k):
            return out(cast(mkarr(x, m), dtype))

        def asarray(x, dtype=None, *a, **k):
            if isinstance(x, Arr) and dtype is None:
                return x if x.mut == m else Arr(x.a.copy(), m)
            return array(x, dtype)

        def full(shape, v, dtype=None, **k):
            o = np.empty(cshape(shape), object)
            b = nd(v)
            o[...] = np.broadcast_to(b, o.shape) if b.shape else b[()]
            return wrap(o, m)

        def like(v):
            def f(x, dtype=None, **k):
                return full(shape_of(x), v) if shape_of(x) != () else v
            return f
        F0, F1 = T.num(0), T.num(1)
        d.update(
            array=array, asarray=asarray, ascontiguousarray=asarray, copy=array,
            zeros=lambda s, dtype=None, **k: cast(full(s, F0), dtype),
            ones=lambda s, dtype=None, **k: cast(full(s, F1), dtype),
            empty=lambda s, dtype=None, **k: full(s, F0),
            full=lambda s, v=None, dtype=None, fill_value=None, **k: cast(full(s, v if fill_value is None else fill_value), dtype),
            zeros_like=like(F0), ones_like=like(F1), empty_like=like(F0),
            full_like=lambda x, v, dtype=None, **k: full(shape_of(x), v) if shape_of(x) else v,
        )

        def eye(n, mm=None, **k):
            n = cint(n)
            mm = n if mm is None else cint(mm)
            o = np.empty((n, mm), object)
            for i in range(n):
                for j in range(mm):
                    o[i, j] = F1 if i == j else F0
            return Arr(o, m)
        d['eye'] = d['identity'] = eye

        def arange(a, b=None, s=1, dtype=None, **k):
            a = norm_scalar(unwrap0(a))
            b = norm_scalar(unwrap0(b)) if b is not None else None
            s = norm_scalar(unwrap0(s))
            if b is None:
                a, b = 0, a
            if all(isinstance(x, int) for x in (a, b, s)):
                return cast(mkarr(list(range(a, b, s)), m), dtype)
            ca, cb, cs = [T.to_num(x).const() for x in (a, b, s)]
            if None in (ca, cb, cs):
                raise Unmodelled('arange with symbolic bounds at ' + str(I.where()))
            n = max(0, math.ceil((cb - ca) / cs))
            return mkarr([T.num(ca + i * cs) for i in range(n)], m)
        d['arange'] = arange

        def linspace(a, b, num=50, endpoint=True, **k):
            n = cint(num)
            den = (n - 1) if endpoint else n
            return mkarr([ew(lambda x, y: T.add(x, T.mul(T.sub(y, x), F(i, den) if den else 0)), a, b) for i in range(n)], m)
        d['linspace'] = linspace

        def logspace(a, b, num=50, **k):
            return ew(lambda x: T.power(T.num(10), x), linspace(a, b, num))
        d['logspace'] = logspace

        def geomspace(a, b, num=50, **k):
            return ew(T.exp, linspace(ew(T.log, a), ew(T.log, b), num))
        d['geomspace'] = geomspace

        def seq(xs):
            if isinstance(xs, Arr):
                return [xs.a[i] if isinstance(xs.a[i], np.ndarray) else nd(xs.a[i]) for i in range(xs.a.shape[0])]
            return [nd(x) for x in I.iterate(xs)]

        def np_call(f):
            try:
                return wrap(f(), m)
            except (ValueError, IndexError) as ex:
                raise PyRaise(ex, I.where())

        def anyop(xs):
            return any(isinstance(x, Opaque) for x in xs) if isinstance(xs, (list, tuple)) else False

        def joiner(f):
            def g(xs, axis=0, **k):
                if anyop(xs):
                    return Opaque('join', tuple(xs))
                return np_call(lambda: f(seq(xs), axis=None if axis is None else cint(axis)))
            return g
        d['concatenate'] = d['concat'] = joiner(lambda xs, axis: np.concatenate(xs, axis=axis))
        d['stack'] = joiner(lambda xs, axis: np.stack(xs, axis=axis))
        for nm in ('vstack', 'hstack', 'column_stack', 'dstack'):
            d[nm] = (lambda nm: lambda xs, **k: Opaque(nm, tuple(xs)) if anyop(xs) else np_call(lambda: getattr(np, nm)(seq(xs))))(nm)
        d['append'] = lambda a, b, axis=None: np_call(lambda: np.append(nd(a), nd(b), axis=axis))
        d['tile'] = lambda x, reps: np_call(lambda: np.tile(nd(x), cshape(reps)))
        d['repeat'] = lambda x, n, axis=None, **k: np_call(lambda: np.repeat(nd(x), cint(n) if not isinstance(n, (list, Arr)) else list(cshape(n)), axis=axis))
        d['roll'] = lambda x, s, axis=None: np_call(lambda: np.roll(nd(x), cint(s) if not isinstance(s, tuple) else cshape(s), axis=axis))
        d['flip'] = lambda x, axis=None: np_call(lambda: np.flip(nd(x), axis=axis))
        d['transpose'] = lambda x, axes=None: np_call(lambda: np.transpose(nd(x), axes))
        d['swapaxes'] = lambda x, a, b: np_call(lambda: np.swapaxes(nd(x), a, b))
        d['moveaxis'] = lambda x, a, b: np_call(lambda: np.moveaxis(nd(x), a, b))
        d['reshape'] = lambda x, s, **k: np_call(lambda: nd(x).reshape(cshape(s)))
        d['ravel'] = lambda x, **k: np_call(lambda: nd(x).reshape(-1))
        d['squeeze'] = lambda x, axis=None: np_call(lambda: np.squeeze(nd(x), axis))
        d['expand_dims'] = lambda x, axis: np_call(lambda: np.expand_dims(nd(x), axis))
        d['broadcast_to'] = lambda x, s: np_call(lambda: np.broadcast_to(nd(x), cshape(s)).copy())
        d['broadcast_arrays'] = lambda *xs: [wrap(b.copy(), m) for b in np.broadcast_arrays(*[nd(x) for x in xs])]
        d['atleast_1d'] = lambda x: np_call(lambda: np.atleast_1d(nd(x)))
        d['atleast_2d'] = lambda x: np_call(lambda: np.atleast_2d(nd(x)))
        d['split'] = lambda x, n, axis=0: [wrap(b, m) for b in np.split(nd(x), n if isinstance(n, int) else list(cshape(n)), axis=axis)]
        d['array_split'] = d['split']
        d['meshgrid'] = lambda *xs, indexing='xy', **k: [wrap(b, m) for b in np.meshgrid(*[nd(x) for x in xs], indexing=indexing)]
        d['take'] = lambda x, i, axis=None, **k: getitem(mkarr(x) if axis is not None else wrap(nd(x).reshape(-1)), (slice(None),) * (axis or 0) + (i,))
        d['triu'] = d['tril'] = lambda *a, **k: Opaque('tri', a)

        def diag(x, k=0):
            a = nd(x)
            if a.ndim == 2:
                return wrap(np.array([a[i, i] for i in range(min(a.shape))], object), m)
            o = np.empty((a.size, a.size), object)
            o[...] = F0
            for i in range(a.size):
                o[i, i] = a[i]
            return Arr(o, m)
        d['diag'] = diag

        def diff(x, n=1, axis=-1, prepend=None, append=None):
            x = mkarr(x)
            a = x.a
            ax = axis % a.ndim
            parts = []
            for q, before in ((prepend, True), (append, False)):
                if q is not None:
                    qa = nd(q)
                    if qa.ndim == 0:
                        sh = list(a.shape)
                        sh[ax] = 1
                        qa = np.broadcast_to(qa, sh)
                    a = np.concatenate([qa, a] if before else [a, qa], axis=ax)
            for _ in range(n):
                hi = np.take(a, range(1, a.shape[ax]), axis=ax)
                lo = np.take(a, range(0, a.shape[ax] - 1), axis=ax)
                r = ew(T.sub, Arr(hi), Arr(lo))
                a = nd(r)
            return wrap(a, m)
        d['diff'] = diff

        def cum(f, start):
            def g(x, axis=None, **k):
                a = nd(mkarr(x))
                if axis is None:
                    a, ax = a.reshape(-1), 0
                else:
                    ax = axis % a.ndim
                o = a.copy()
                o = np.moveaxis(o, ax, 0)
                for i in range(o.shape[0]):
                    if i:
                        r = ew(f, wrap(o[i - 1]), wrap(o[i]))
                        o[i] = r.a if isinstance(r, Arr) else r
                return wrap(np.moveaxis(o, 0, ax), m)
            return g
        d['cumsum'] = cum(T.add, 0)
        d['cumprod'] = cum(T.mul, 1)

        def where(c, a=None, b=None):
            if a is None:
                c_ = nd(c)
                idx = [i for i in np.ndindex(*c_.shape) if I.truth(c_[i])]
                return tuple(mkarr([i[k] for i in idx], m) for k in range(c_.ndim))
            return out(ew(lambda c, x, y: T.ite(T.to_bool(c), norm_scalar(x), norm_scalar(y)), mkarr(c), mkarr(a), mkarr(b)))
        d['where'] = where

        def select(conds, vals, default=0):
            r = default
            for c, v in reversed(list(zip(I.iterate(conds), I.iterate(vals)))):
                r = where(c, v, r)
            return r
        d['select'] = select

        def piecewise(x, conds, fns):
            conds, fns = list(I.iterate(conds)), list(I.iterate(fns))
            call = lambda f: I.call(f, [x]) if not is_scalar(f) else f
            r = call(fns[-1]) if len(fns) > len(conds) else 0
            for c, f in reversed(list(zip(conds, fns))):
                r = where(c, call(f), r)
            return r
        d['piecewise'] = piecewise

        def clip(x, lo=None, hi=None, a_min=None, a_max=None, min=None, max=None, **k):
            lo = next((q for q in (lo, a_min, min) if q is not None), None)
            hi = next((q for q in (hi, a_max, max) if q is not None), None)
            x = mkarr(x)
            if lo is not None:
                x = ew(T.maximum, x, mkarr(lo))
            if hi is not None:
                x = ew(T.minimum, x, mkarr(hi))
            return out(x)
        d['clip'] = clip

        def red(f):
            def g(x, axis=None, keepdims=False, initial=None, where=None, dtype=None, **k):
                ff = f
                if where is not None:
                    x, where = np.broadcast_arrays(nd(mkarr(x)), nd(mkarr(where)))
                    pair = np.empty(x.shape, object)
                    for i in np.ndindex(*x.shape):
                        pair[i] = (x[i], T.to_bool(where[i]))
                    if f in (ssum, smean):
                        tot = reduce_(ssum, ew(lambda p: T.ite(p[1], p[0], 0), Arr(pair)), axis, keepdims, m)
                        if f is ssum:
                            return ew(T.add, tot, initial) if initial is not None else tot
                        return ew(T.div, tot, reduce_(ssum, ew(lambda p: T.to_num(p[1]), Arr(pair)), axis, keepdims, m))
                    unit = {sprod: 1, sany: T.boolean(False), sall: T.boolean(True)}.get(f, initial)
                    if unit is None:
                        raise Unmodelled('reduction with where=')
                    if f in (sany, sall):
                        x = ew(lambda p: T.bor(T.bnot(p[1]), T.to_bool(p[0])) if f is sall else T.band(p[1], T.to_bool(p[0])), Arr(pair))
                    else:
                        x = ew(lambda p: T.ite(p[1], p[0], unit), Arr(pair))
                if initial is not None:
                    ff = lambda xs: f(list(xs) + [initial])
                return reduce_(ff, x, axis, keepdims, m)
            return g
        d['sum'] = d['nansum'] = red(ssum)
        d['prod'] = red(sprod)
        d['mean'] = d['nanmean'] = d['average'] = red(smean)
        d['max'] = d['amax'] = d['nanmax'] = red(smax)
        d['min'] = d['amin'] = d['nanmin'] = red(smin)
        d['any'] = red(sany)
        d['all'] = red(sall)
        d['median'] = d['nanmedian'] = red(smedian)
        d['ptp'] = red(lambda xs: T.sub(T.maxn(xs), T.minn(xs)))
        d['count_nonzero'] = red(lambda xs: ssum(T.to_num(T.to_bool(x)) for x in xs))

        def average(x, axis=None, weights=None, **k):
            if weights is None:
                return reduce_(smean, x, axis, False, m)
            x = mkarr(x)
            w = mkarr(weights)
            if w.a.ndim != nd(x).ndim:
                sh = [1] * nd(x).ndim
                sh[axis] = w.a.shape[0]
                w = Arr(w.a.reshape(sh))
            return ew(T.div, reduce_(ssum, ew(T.mul, x, w), axis), reduce_(ssum, ew(lambda a, b: b, x, w), axis))
        d['average'] = average
        d['var'] = lambda x, axis=None, ddof=0, keepdims=False, **k: reduce_(lambda xs: svar(xs, ddof), x, axis, keepdims, m)
        d['std'] = d['nanstd'] = lambda x, axis=None, ddof=0, keepdims=False, **k: reduce_(lambda xs: T.sqrt(svar(xs, ddof)), x, axis, keepdims, m)

        def argred(less):
            def g(x, axis=None, **k):
                a = nd(mkarr(x))
                if axis is None:
                    return sarg(list(a.reshape(-1)), less)
                return reduce_(lambda xs: sarg(xs, less), x, axis)
            return g
        d['argmin'] = d['nanargmin'] = argred(T.lt)
        d['argmax'] = d['nanargmax'] = argred(T.gt)

        def sort(x, axis=-1, **k):
            a = np.moveaxis(nd(mkarr(x)).copy(), axis, -1)
            for i in np.ndindex(*a.shape[:-1]):
                for j, v in enumerate(ssort(a[i])):
                    a[i + (j,)] = v
            return wrap(np.moveaxis(a, -1, axis), m)
        d['sort'] = sort

        def argsort(x, axis=-1, **k):
            a = nd(mkarr(x))
            if a.ndim != 1 or any(T.to_num(v).const() is None for v in a):
                raise Unmodelled('argsort of symbolic values')
            return mkarr(sorted(range(a.size), key=lambda i: T.to_num(a[i]).const()), m)
        d['argsort'] = argsort
        for nm, f in (('sin', T.sin), ('cos', T.cos), ('tan', T.tan), ('sqrt', T.sqrt), ('exp', T.exp), ('log', T.log),
                      ('abs', T.absv), ('absolute', T.absv), ('fabs', T.absv), ('floor', T.floor), ('negative', T.neg),
                      ('ceil', lambda x: T.neg(T.floor(T.neg(x)))), ('square', lambda x: T.mul(x, x)),
                      ('reciprocal', lambda x: T.div(1, x)), ('log1p', lambda x: T.log(T.add(1, x))),
                      ('expm1', lambda x: T.sub(T.exp(x), 1)), ('log2', lambda x: T.fn('log2', x)), ('log10', lambda x: T.fn('log10', x)),
                      ('arctan', lambda x: T.fn('arctan', x)), ('arcsin', lambda x: T.fn('arcsin', x)), ('arccos', lambda x: T.fn('arccos', x)),
                      ('tanh', lambda x: T.fn('tanh', x)), ('sinh', lambda x: T.fn('sinh', x)), ('cosh', lambda x: T.fn('cosh', x)),
                      ('deg2rad', lambda x: T.div(T.mul(x, PI), 180)), ('radians', lambda x: T.div(T.mul(x, PI), 180)),
                      ('rad2deg', lambda x: T.div(T.mul(x, 180), PI)), ('degrees', lambda x: T.div(T.mul(x, 180), PI)),
                      ('sign', lambda x: T.ite(T.gt(x, 0), 1, T.ite(T.lt(x, 0), -1, 0))),
                      ('logical_not', T.bnot), ('isfinite', lambda x: T.boolean(True)), ('isnan', lambda x: T.boolean(False)),
                      ('isinf', lambda x: T.boolean(False)), ('nan_to_num', lambda x: T.to_num(x)), ('real', lambda x: x),
                      ('trunc', lambda x: T.fn('trunc', x)), ('positive', lambda x: x), ('cbrt', lambda x: T.fn('cbrt', x)),
                      ('invert', lambda x: I._invert(x)), ('bitwise_not', lambda x: I._invert(x))):
            d[nm] = e1(f)

        def around(x, decimals=0, **k):
            dd = cint(decimals)
            if dd == 0:
                return out(ew(T.rnd, mkarr(x)))
            sc = 10 ** dd if dd > 0 else F(1, 10 ** -dd)
            return out(ew(lambda v: T.div(T.rnd(T.mul(v, sc)), sc), mkarr(x)))
        d['round'] = d['around'] = d['rint'] = around
        for nm, f in (('add', T.add), ('subtract', T.sub), ('multiply', T.mul), ('divide', T.div), ('true_divide', T.div),
                      ('maximum', lambda a, b: smax([a, b])), ('minimum', lambda a, b: smin([a, b])),
                      ('fmax', T.maximum), ('fmin', T.minimum),
                      ('mod', T.mod), ('remainder', T.mod), ('power', T.power), ('float_power', T.power),
                      ('floor_divide', lambda a, b: T.floor(T.div(a, b))),
                      ('fmod', lambda a, b: T.sub(a, T.mul(b, (lambda q: T.ite(T.lt(q, 0), T.neg(T.floor(T.neg(q))), T.floor(q)))(T.div(a, b))))), ('arctan2', lambda y, x: T.fn('arctan2', y, x)),
                      ('hypot', lambda a, b: T.sqrt(T.add(T.mul(a, a), T.mul(b, b)))),
                      ('logical_and', T.band), ('logical_or', T.bor), ('logical_xor', T.bxor),
                      ('bitwise_and', lambda a, b: I._sbin('and', a, b)), ('bitwise_or', lambda a, b: I._sbin('or', a, b)),
                      ('less', T.lt), ('greater', T.gt), ('less_equal', T.le), ('greater_equal', T.ge), ('equal', T.eq), ('not_equal', T.ne),
                      ('copysign', lambda a, b: T.mul(T.absv(a), T.ite(T.lt(b, 0), -1, 1))),
                      ('heaviside', lambda a, b: T.ite(T.gt(a, 0), 1, T.ite(T.lt(a, 0), 0, b))),
                      ('logaddexp', lambda a, b: T.log(T.add(T.exp(a), T.exp(b))))):
            d[nm] = e2(f)
        d['atan2'] = d['arctan2']
        d['pow'] = d['power']
        d['acos'], d['asin'], d['atan'] = d['arccos'], d['arcsin'], d['arctan']

        def isclose(a, b, rtol=None, atol=None, **k):
            rt = T.flt(1e-5) if rtol is None else rtol
            at = T.flt(1e-8) if atol is None else atol
            return ew(lambda x, y: T.le(T.absv(T.sub(x, y)), T.add(at, T.mul(rt, T.absv(y)))), mkarr(a), mkarr(b))
        d['isclose'] = isclose
        d['allclose'] = lambda *a, **k: reduce_(sall, isclose(*a, **k))
        d['array_equal'] = lambda a, b: T.boolean(False) if shape_of(mkarr(a)) != shape_of(mkarr(b)) else reduce_(sall, ew(T.eq, mkarr(a), mkarr(b)))
        d['dot'] = lambda a, b, **k: out(dot(a, b))
        d['matmul'] = lambda a, b, **k: out(matmul(a, b))
        d['vdot'] = lambda a, b: ssum(T.mul(x, y) for x, y in zip(nd(a).reshape(-1), nd(b).reshape(-1)))
        d['inner'] = lambda a, b: out(matmul(a, Arr(np.moveaxis(nd(b), -1, 0)) if nd(b).ndim > 1 else b))
        d['outer'] = lambda a, b: out(ew(T.mul, Arr(nd(a).reshape(-1, 1)), Arr(nd(b).reshape(1, -1))))
        d['tensordot'] = lambda a, b, axes=2: out(tensordot(a, b, axes))
        def tensordot(a, b, axes):
            a, b = nd(mkarr(a)), nd(mkarr(b))
            if is_scalar(axes):
                n = cint(axes)
                ia, ib = list(range(a.ndim - n, a.ndim)), list(range(n))
            else:
                ia, ib = [[cint(v) for v in I.iterate(q)] if not is_scalar(q) else [cint(q)] for q in I.iterate(axes)]
            ia, ib = [q % a.ndim for q in ia], [q % b.ndim for q in ib]
            fa, fb = [q for q in range(a.ndim) if q not in ia], [q for q in range(b.ndim) if q not in ib]
            x = a.transpose(fa + ia).reshape([a.shape[q] for q in fa] + [-1])
            y = b.transpose(fb + ib).reshape([b.shape[q] for q in fb] + [-1])
            o = np.empty(x.shape[:-1] + y.shape[:-1], object)
            for i in np.ndindex(*x.shape[:-1]):
                for j in np.ndindex(*y.shape[:-1]):
                    o[i + j] = ssum(T.mul(p, q) for p, q in zip(x[i], y[j]))
            return wrap(o)
        d['einsum'] = lambda *a, **k: out(einsum(*a, **k))

        def cross(a, b, **k):
            a, b = mkarr(a), mkarr(b)
            g = lambda v, i: wrap(v.a[..., i])
            if a.a.shape[-1] == 2:
                return ew(T.sub, ew(T.mul, g(a, 0), g(b, 1)), ew(T.mul, g(a, 1), g(b, 0)))
            c = [ew(T.sub, ew(T.mul, g(a, i), g(b, j)), ew(T.mul, g(a, j), g(b, i))) for i, j in ((1, 2), (2, 0), (0, 1))]
            return d['stack'](c, axis=-1)
        d['cross'] = cross
        d['linalg'] = NS(('np' if m else 'jnp') + '.linalg', {
            'norm': lambda x, ord=None, axis=None, keepdims=False: out(norm(x, ord, axis, keepdims)),
            'det': lambda x: det(nd(mkarr(x))),
            'inv': lambda x: out(inv(nd(mkarr(x)))),
            'solve': lambda x, b: out(matmul(inv(nd(mkarr(x))), b)),
            'vector_norm': lambda x, axis=None, keepdims=False, ord=2: out(norm(x, ord, axis, keepdims)),
        })

        def det(a):
            if a.shape == (2, 2):
                return T.sub(T.mul(a[0, 0], a[1, 1]), T.mul(a[0, 1], a[1, 0]))
            if a.shape == (1, 1):
                return T.to_num(a[0, 0])
            if a.shape == (3, 3):
                return ssum(T.mul((-1) ** j, T.mul(a[0, j], det(np.delete(a[1:], j, 1)))) for j in range(3))
            raise Unmodelled('det')

        def inv(a):
            if a.shape not in ((1, 1), (2, 2), (3, 3)):
                raise Unmodelled('inv')
            dd, n = det(a), len(a)
            o = np.empty(a.shape, object)
            for i in range(n):
                for j in range(n):
                    o[j, i] = T.div(T.mul((-1) ** (i + j), det(np.delete(np.delete(a, i, 0), j, 1)) if n > 1 else 1), dd)
            return Arr(o)
        d['shape'] = lambda x: shape_of(x)
        d['size'] = lambda x: nd(x).size
        d['ndim'] = lambda x: nd(x).ndim
        d['isscalar'] = lambda x: is_scalar(x)
        d['vectorize'] = lambda f, **k: (lambda *a: mapn(f, *a))
        d['apply_along_axis'] = lambda f, ax, x: stack_rows(f, ax, x)

        def mapn(f, *xs):
            bs = np.broadcast_arrays(*[nd(x) for x in xs])
            o = np.empty(bs[0].shape, object)
            for i in np.ndindex(*o.shape):
                o[i] = I.call(f, [b[i] for b in bs])
            return wrap(o, m)

        def stack_rows(f, ax, x):
            if cint(ax) not in (1, -1) or nd(x).ndim != 2:
                raise Unmodelled('apply_along_axis')
            return tstack([I.call(f, [wrap(r)]) for r in nd(x)])

        def unwrap(x, discont=None, axis=-1, period=None, **k):
            if discont is not None or period is not None:
                raise Unmodelled('unwrap with options')
            a = np.moveaxis(nd(mkarr(x)), cint(axis), -1)
            o = a.copy()
            tau = T.mul(PI, 2)
            for i in np.ndindex(*a.shape[:-1]):
                acc = T.num(0)
                for j in range(1, a.shape[-1]):
                    dd = T.sub(a[i + (j,)], a[i + (j - 1,)])
                    md = T.sub(T.mod(T.add(dd, PI), tau), PI)
                    md = T.ite(T.band(T.eq(md, T.neg(PI)), T.gt(dd, 0)), PI, md)
                    acc = T.add(acc, T.ite(T.lt(T.absv(dd), PI), 0, T.sub(md, dd)))
                    o[i + (j,)] = T.add(a[i + (j,)], acc)
            return wrap(np.moveaxis(o, -1, cint(axis)), m)
        d['unwrap'] = unwrap

        def interp1(x, xp, fp, **k):
            xp, fp = list(nd(xp)), list(nd(fp))

            def one(v):
                r = fp[0]
                for i in range(len(xp) - 1):
                    seg = T.add(fp[i], T.mul(T.sub(fp[i + 1], fp[i]), T.div(T.sub(v, xp[i]), T.sub(xp[i + 1], xp[i]))))
                    r = T.ite(T.ge(v, xp[i]), seg, r)
                return T.ite(T.ge(v, xp[-1]), fp[-1], r)
            return out(ew(one, mkarr(x)))
        d['interp'] = interp1
        d['searchsorted'] = lambda a, v, side='left', **k: ew(lambda x: ssum(T.to_num(T.lt(y, x) if side == 'left' else T.le(y, x)) for y in nd(a)), mkarr(v))
        d['polyval'] = lambda p, x: functools.reduce(lambda acc, c: ew(T.add, ew(T.mul, acc, x), c), list(I.iterate(p)), 0)
        d['pi'], d['e'] = PI, T.exp(1)
        d['inf'] = d['Inf'] = d['infty'] = T.flt(float('inf'))
        d['nan'] = d['NaN'] = T.flt(float('nan'))
        d['newaxis'] = None
        arrt = TypeTok('ndarray', lambda x: isinstance(x, Arr) and x.mut == m or (not m and isinstance(x, S)), None)
        d['ndarray'] = arrt
        num_ = lambda n: TypeTok(n, lambda x: False, lambda x=0, **k: cast(mkarr(x, m), n))
        for n in ('float32', 'float64', 'float16', 'bfloat16', 'int32', 'int64', 'int8', 'uint8', 'uint32', 'bool_', 'double', 'float_', 'int_', 'intp'):
            d[n] = num_('float' if n == 'double' else n)
        d['floating'] = TypeTok('floating', isfloat, None)
        d['integer'] = TypeTok('integer', lambda x: False, None)
        d['number'] = TypeTok('number', isfloat, None)
        d['generic'] = TypeTok('generic', isfloat, None)
        d['dtype'] = lambda x: x
        d['finfo'] = lambda *a: Opaque('finfo')
        d['finfo'] = lambda *a: NS('finfo', {'eps': T.flt(1.1920929e-07), 'max': T.flt(3.4e38), 'min': T.flt(-3.4e38), 'tiny': T.flt(1.1754944e-38)})

        def saver(nm):
            def f(*a, **k):
                I.effect(('np.' if m else 'jnp.') + nm, None, a, k)
            return f
        for n in ('save', 'savez', 'savetxt', 'savez_compressed'):
            d[n] = saver(n)
        d['load'] = lambda *a, **k: Opaque('load', a)
        d['set_printoptions'] = lambda *a, **k: None
        d['printoptions'] = lambda *a, **k: Tqdm()
        d['seterr'] = d['errstate'] = lambda *a, **k: Tqdm()
        # ------------------------------------------------ the less usual ones
        d['astype'] = lambda x, t, **k: I.call(d['asarray'], [x], {'dtype': t})
        d['concat'] = d['concatenate']
        d['permute_dims'] = d['transpose']
        d['matrix_transpose'] = lambda x: wrap(np.swapaxes(nd(mkarr(x)), -1, -2), m)
        d['vsplit'] = lambda x, n: d['split'](x, n, axis=0)
        d['hsplit'] = lambda x, n: d['split'](x, n, axis=1 if nd(mkarr(x)).ndim > 1 else 0)
        d['logaddexp2'] = e2(lambda a, b: T.div(T.log(T.add(T.exp(T.mul(a, T.log(2))), T.exp(T.mul(b, T.log(2))))), T.log(2)))
        d['ix_'] = lambda *a: tuple(Arr(nd(mkarr(v)).reshape([-1 if i == j else 1 for j in range(len(a))]), m) for i, v in enumerate(a))

        def block(v):
            if not isinstance(v, (list, tuple)):
                return mkarr(v)
            if not any(isinstance(x, (list, tuple)) for x in v):
                return d['concatenate']([d['atleast_1d'](x) for x in v], axis=-1)
            return d['concatenate']([d['atleast_2d'](block(x)) for x in v], axis=-2)
        d['block'] = block
        d['fliplr'] = lambda x: wrap(np.fliplr(nd(mkarr(x))), m)
        d['flipud'] = lambda x: wrap(np.flipud(nd(mkarr(x))), m)
        d['rot90'] = lambda x, k=1, axes=(0, 1): wrap(np.rot90(nd(mkarr(x)), cint(k), axes), m)
        d['diagonal'] = lambda x, offset=0, **k: wrap(np.diagonal(nd(mkarr(x)), cint(offset)).copy(), m)
        d['trace'] = lambda x, offset=0, **k: ssum(np.diagonal(nd(mkarr(x)), cint(offset)))
        d['vecdot'] = lambda a, b, axis=-1, **k: reduce_(ssum, ew(T.mul, mkarr(a), mkarr(b)), axis, False, m)
        d['matvec'] = lambda a, b, **k: out(matmul(a, b))
        d['kron'] = lambda a, b: kron(nd(mkarr(a)), nd(mkarr(b)))

        def kron(a, b):
            if a.ndim != b.ndim or a.ndim not in (1, 2):
                raise Unmodelled('kron')
            x = a.reshape([q for n in a.shape for q in (n, 1)])
            y = b.reshape([q for n in b.shape for q in (1, n)])
            r = nd(ew(T.mul, Arr(x), Arr(y)))
            return wrap(r.reshape([p * q for p, q in zip(a.shape, b.shape)]), m)
        d['exp2'] = e1(lambda x: T.exp(T.mul(x, T.log(2))))
        d['signbit'] = e1(lambda x: T.lt(x, 0))
        d['fix'] = e1(lambda x: T.ite(T.lt(x, 0), T.neg(T.floor(T.neg(x))), T.floor(x)))
        d['trunc'] = d['fix']
        d['conj'] = d['conjugate'] = e1(lambda x: x)
        d['isposinf'] = d['isneginf'] = d['iscomplex'] = e1(lambda x: T.boolean(False))
        d['isreal'] = e1(lambda x: T.boolean(True))
        d['isrealobj'], d['iscomplexobj'] = (lambda x: True), (lambda x: False)
        d['divmod'] = lambda a, b: (d['floor_divide'](a, b), d['mod'](a, b))
        d['modf'] = lambda x: (ew(T.sub, mkarr(x), d['fix'](x)), d['fix'](x))
        d['asinh'] = d['arcsinh'] = e1(lambda x: T.log(T.add(x, T.sqrt(T.add(T.mul(x, x), 1)))))
        d['arctanh'] = d['atanh'] = e1(lambda x: T.fn('arctanh', x))
        d['arccosh'] = d['acosh'] = e1(lambda x: T.fn('arccosh', x))
        d['cumulative_sum'] = d['nancumsum'] = d['cumsum']
        d['cumulative_prod'] = d['nancumprod'] = d['cumprod']
        d['nanprod'], d['nanvar'] = d['prod'], d['var']
        d['array_equiv'] = lambda a, b: reduce_(sall, ew(T.eq, mkarr(a), mkarr(b)))
        d['isin'] = lambda x, vals, invert=False, **k: out(ew(lambda v: (T.bnot if invert else (lambda q: q))(sany([T.eq(v, y) for y in nd(mkarr(vals)).reshape(-1)])), mkarr(x)))
        d['nonzero'] = lambda x, **k: d['where'](ew(lambda v: T.to_bool(v), mkarr(x)))
        d['flatnonzero'] = lambda x: d['nonzero'](wrap(nd(mkarr(x)).reshape(-1)))[0]

        def argwhere(x, **k):
            r = d['nonzero'](x)
            return d['stack'](list(r), axis=-1)
        d['argwhere'] = argwhere

        def extract(c, x):
            return wrap(nd(mkarr(x)).reshape(-1)[[I.truth(v) for v in nd(mkarr(c)).reshape(-1)]], m)
        d['extract'] = extract

        def compress(c, x, axis=None):
            keep = [i for i, v in enumerate(nd(mkarr(c)).reshape(-1)) if I.truth(v)]
            a = nd(mkarr(x))
            return wrap(np.take(a.reshape(-1) if axis is None else a, keep, axis=0 if axis is None else cint(axis)), m)
        d['compress'] = compress

        def insert(x, i, v, axis=None):
            return wrap(np.insert(nd(mkarr(x)), cint(i), nd(mkarr(v)), axis=None if axis is None else cint(axis)), m)
        d['insert'] = insert

        def delete(x, i, axis=None, **k):
            i = norm_idx1(i) if not isinstance(i, slice) else i
            return wrap(np.delete(nd(mkarr(x)), i, axis=None if axis is None else cint(axis)), m)
        d['delete'] = delete

        def pad(x, width, mode='constant', constant_values=0, **k):
            a = nd(mkarr(x))
            w = width
            if is_scalar(w):
                w = [(cint(w), cint(w))] * a.ndim
            else:
                w = [tuple(cint(q) for q in I.iterate(r)) if not is_scalar(r) else r for r in I.iterate(w)]
                if w and is_scalar(w[0]):
                    w = [tuple(cint(q) for q in w)] * a.ndim
                if len(w) == 1:
                    w = w * a.ndim
            if mode == 'constant':
                if not is_scalar(constant_values):
                    raise Unmodelled('pad')
                return wrap(np.pad(a, w, constant_values=T.to_num(constant_values)), m)
            if mode in ('edge', 'wrap', 'reflect', 'symmetric'):
                idx = [np.pad(np.arange(n), ww, mode=mode) for n, ww in zip(a.shape, w)]
                return wrap(a[np.ix_(*idx)], m)
            raise Unmodelled('pad')
        d['pad'] = pad

        def quantile(x, q, axis=None, **k):
            if k.get('method', k.get('interpolation', 'linear')) != 'linear' or not is_scalar(q) or T.to_num(q).const() is None:
                raise Unmodelled('quantile')
            qq = F(T.to_num(q).const()) if not isinstance(q, float) else F(q)

            def f(xs):
                xs = ssort(xs)
                pos = qq * (len(xs) - 1)
                lo = int(pos)
                if pos == lo:
                    return T.to_num(xs[lo])
                w = pos - lo
                return T.add(T.mul(xs[lo], 1 - w), T.mul(xs[lo + 1], w))
            return reduce_(f, x, axis, bool(k.get('keepdims')), m)
        d['quantile'] = d['nanquantile'] = quantile
        d['percentile'] = d['nanpercentile'] = lambda x, q, axis=None, **k: quantile(x, F(T.to_num(q).const()) / 100 if is_scalar(q) and T.to_num(q).const() is not None else q, axis, **k)

        def take_along_axis(x, i, axis=-1, **k):
            a, j = nd(mkarr(x)), nd(mkarr(i))
            if axis is None:
                a, axis = a.reshape(-1), 0
            return wrap(np.take_along_axis(a, np.array([cint(v) for v in j.reshape(-1)], int).reshape(j.shape), axis), m)
        d['take_along_axis'] = take_along_axis

        def choose(i, xs, **k):
            xs = list(I.iterate(xs))
            r = xs[-1]
            for n in range(len(xs) - 2, -1, -1):
                r = where(ew(lambda v: T.eq(v, n), mkarr(i)), xs[n], r)
            return r
        d['choose'] = choose

        def digitize(x, bins, right=False):
            return d['searchsorted'](bins, x, side='left' if right else 'right')
        d['digitize'] = digitize

        def unique(x, **k):
            if k:
                raise Unmodelled('unique with options')
            vals = []
            for v in nd(mkarr(x)).reshape(-1):
                if not any(I.truth(T.eq(v, y)) for y in vals):
                    vals.append(v)
            return mkarr(ssort(vals), m)
        d['unique'] = unique

        def trapezoid(y, x=None, dx=1, axis=-1):
            a = np.moveaxis(nd(mkarr(y)), cint(axis), -1)
            mid = ew(lambda p, q: T.div(T.add(p, q), 2), wrap(a[..., 1:]), wrap(a[..., :-1]))
            step = dx if x is None else diff(x)
            return reduce_(ssum, ew(T.mul, mid, mkarr(step)), -1, False, m)
        d['trapezoid'] = d['trapz'] = trapezoid
        d['ediff1d'] = lambda x: diff(wrap(nd(mkarr(x)).reshape(-1)))

        def gradient(y, *sp, **k):
            a = nd(mkarr(y))
            if a.ndim != 1 or len(sp) > 1 or sp and not is_scalar(sp[0]) or k:
                raise Unmodelled('gradient')
            h = sp[0] if sp else 1
            n = len(a)
            r = [T.div(T.sub(a[1], a[0]), h)] + [T.div(T.sub(a[i + 1], a[i - 1]), T.mul(2, h)) for i in range(1, n - 1)] + [T.div(T.sub(a[-1], a[-2]), h)]
            return mkarr(r, m)
        d['gradient'] = gradient
        d['atleast_3d'] = lambda x: wrap(np.atleast_3d(nd(mkarr(x))), m)
        d['rollaxis'] = lambda x, ax, start=0: wrap(np.rollaxis(nd(mkarr(x)), cint(ax), cint(start)), m)
        ints = lambda a: mkarr([int(v) for v in a], m)
        d['tril_indices'] = lambda n, k=0, mm=None: tuple(ints(v) for v in np.tril_indices(cint(n), cint(k), mm))
        d['triu_indices'] = lambda n, k=0, mm=None: tuple(ints(v) for v in np.triu_indices(cint(n), cint(k), mm))
        d['indices'] = lambda sh, **k: Arr(np.indices(cshape(sh)).astype(object), m)
        d['tri'] = lambda n, M=None, k=0, **q: Arr(np.tri(cint(n), None if M is None else cint(M), cint(k)).astype(int).astype(object), m)
        d['fromfunction'] = lambda f, sh, **k: I.call(f, [Arr(v.astype(object), m) for v in np.indices(cshape(sh))])
        d['fromiter'] = lambda it, dtype=None, **k: mkarr(list(I.iterate(it)), m)
        d['flexible'] = TypeTok('flexible', lambda x: False, None)
        d['inexact'] = TypeTok('inexact', isfloat, None)
        d['result_type'] = d['promote_types'] = lambda *a: d['float32']
        d['broadcast_shapes'] = lambda *a: np.broadcast_shapes(*[cshape(x) for x in a])
        for nm in ('uint16', 'int16', 'uint64', 'uint', 'single', 'bool'):
            d.setdefault(nm, d['float32' if nm == 'single' else 'bool_' if nm == 'bool' else 'int32'])
        for cls, axis in (('c_', -1), ('r_', 0)):
            d[cls] = GetItem(lambda i, axis=axis: (d['column_stack'] if axis else d['concatenate'])([x if not is_scalar(x) else mkarr([x]) for x in (i if isinstance(i, tuple) else (i,))]))
        d['s_'] = d['index_exp'] = GetItem(lambda i: i)
        return d

    PI = S(T.leaf(T.PI))
    jnp_d = make(False)
    np_d = make(True)
    jnp_d['ndarray'] = TypeTok('jax.Array', lambda x: (isinstance(x, Arr) and not x.mut) or isinstance(x, S), None)
    np_d['random'] = NS('numpy.random', {n: (lambda n: lambda *a, **k: nondet('np.random.' + n, a, k))(n)
                                         for n in ('rand', 'randn', 'random', 'normal', 'uniform', 'randint', 'choice', 'seed', 'permutation', 'standard_normal')})
    np_d['random'].d['default_rng'] = lambda *a, **k: nondet_rng()
    npx = {'matmul': lambda a, b: matmul(a, b), '__getitem__': getitem, '__index__': index_only, '__symidx__': symidx}
    jnp = NS('jax.numpy', jnp_d)
    L['numpy'] = NS('numpy', np_d)
    fresh = itertools.count()

    def nondet(name, a=(), k=None, shape=()):
        I.effect('nondet:' + name, None, a, k or {})
        if name.endswith('seed'):
            return None
        sh = cshape(a) if name.endswith(('.rand', '.randn')) and a else ()
        s = (k or {}).get('size')
        if s is not None:
            sh = cshape(s)
        if name.endswith(('.normal', '.uniform')) and len(a) == 3:
            sh = cshape(a[2])
        if name.endswith(('.random', 'standard_normal')) and a:
            sh = cshape(a[0])
        o = np.empty(sh, object)
        for i in np.ndindex(*sh):
            o[i] = T.sym(f'nondet:{name}:{next(fresh)}')
        return wrap(o, True)

    def nondet_rng():
        return NS('Generator', {n: (lambda n: lambda *a, **k: nondet('rng.' + n, a, k))(n) for n in ('normal', 'uniform', 'random', 'standard_normal', 'integers', 'choice')})

    # ------------------------------------------------------------- array attrs
    def arrattr(o, name):
        a = nd(o)
        mut = isinstance(o, Arr) and o.mut
        ns = np_d if mut else jnp_d
        if name == 'shape':
            return a.shape
        if name == 'ndim':
            return a.ndim
        if name == 'size':
            return a.size
        if name == 'T':
            return wrap(a.T, mut)
        if name == 'dtype':
            if isinstance(o, S) and o.b:
                return ns['bool_']
            return ns['float32']
        if name == 'at':
            return At(Arr(a, False), npx)
        if name == 'real':
            return o
        if name in ('sum', 'mean', 'std', 'var', 'min', 'max', 'any', 'all', 'prod', 'argmin', 'argmax', 'cumsum', 'cumprod',
                    'clip', 'round', 'take', 'dot', 'squeeze', 'repeat', 'swapaxes', 'ravel', 'ptp'):
            return lambda *x, **k: ns[name](o, *x, **k)
        if name in ('flatten',):
            return lambda *x: wrap(a.reshape(-1).copy(), mut)
        if name == 'reshape':
            return lambda *s, **k: ns['reshape'](o, s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)
        if name == 'transpose':
            return lambda *s: wrap(np.transpose(a, s[0] if len(s) == 1 and isinstance(s[0], tuple) else (s or None)), mut)
        if name == 'astype':
            return lambda dt, **k: cast(Arr(a.copy(), mut) if a.shape else o, dt)
        if name == 'item':
            return lambda *x: a.reshape(-1)[x[0] if x else 0] if a.size == 1 or x else _raise(ValueError('can only convert an array of size 1'))
        if name == 'tolist':
            return lambda: a.tolist() if a.shape else norm_scalar(a[()])
        if name in ('copy', '__copy__'):
            return lambda *x, **k: Arr(a.copy(), mut) if a.shape else o
        if name in ('block_until_ready', '__array__', 'view', 'conj'):
            return lambda *x, **k: o
        if name == 'fill':
            def fill(v):
                a[...] = v
            return fill
        if name == '__len__':
            return lambda: a.shape[0]
        if name == 'is_integer':
            return lambda: T.eq(o, T.floor(o))
        if name in ('devices', 'device', 'sharding', 'nbytes', 'itemsize', 'aval', 'weak_type'):
            return Opaque('array.' + name)
        return NotImplemented

    def _raise(e):
        raise PyRaise(e, I.where())

    # ------------------------------------------------------------------- jax
    I.jits = []

    def jit(fun=None, *a, static_argnums=(), static_argnames=(), **k):
        if fun is None:
            return lambda f: jit(f, static_argnums=static_argnums, static_argnames=static_argnames, **k)
        nums = tuple(cint(x) for x in static_argnums) if isinstance(static_argnums, (tuple, list)) else (() if static_argnums is None else (cint(static_argnums),))
        j = JitFunc(fun, nums, static_argnames)
        I.jits.append(j)
        return j

    def in_axes_for(ax, args):
        if isinstance(ax, (tuple, list)):
            if len(ax) != len(args):
                raise PyRaise(ValueError('vmap in_axes must match the number of arguments'))
            return list(ax)
        return [ax] * len(args)

    def vmap(f, in_axes=0, out_axes=0, axis_size=None, **kw0):
        def g(*args, **kwargs):
            axs = in_axes_for(in_axes, args)
            n = axis_size

            def size(a, ax):
                if ax is None:
                    return None
                if isinstance(ax, (tuple, list)):
                    for x, y in zip(a, ax):
                        s = size(x, y)
                        if s is not None:
                            return s
                    return None
                if isinstance(ax, Obj):
                    return None
                return tlen(a, ax)
            for a, ax in zip(args, axs):
                s = size(a, ax)
                if s is not None:
                    if n is not None and s != n:
                        raise PyRaise(ValueError(f'vmap got inconsistent sizes for array axes: {n} and {s}'), I.where())
                    n = s
            for v in kwargs.values():
                s = tlen(v)
                if s is not None:
                    n = n or s
            if n is None:
                raise PyRaise(ValueError('vmap must have at least one non-None value in in_axes'), I.where())

            def pick(a, ax, i):
                if ax is None:
                    return a
                if isinstance(ax, (tuple, list)):
                    return type(a)(pick(x, y, i) for x, y in zip(a, ax)) if isinstance(a, (tuple, list)) else _raise(ValueError('in_axes structure'))
                return tslice(a, i, ax)
            outs = []
            for i in range(n):
                outs.append(I.call(f, [pick(a, ax, i) for a, ax in zip(args, axs)], {k: tslice(v, i) for k, v in kwargs.items()}))
            if isinstance(out_axes, (tuple, list)):
                return tuple(tstack([o[k] for o in outs], ax) if ax is not None else outs[0][k] for k, ax in enumerate(out_axes))
            if out_axes is None:
                return outs[0]
            return tstack(outs, out_axes)
        return g

    def under(c, thunk):
        """evaluate thunk with the path condition strengthened by c"""
        pc0, k0 = I.pc, len(I.taken)
        I.pc = T.b_and(pc0, T.to_bool(c).d)
        try:
            if I.pc is T.FALSE:
                return None, False
            try:
                return thunk(), True
            except Infeasible:
                return None, False
        finally:
            pc = pc0
            for cond, r, _ in I.taken[k0:]:
                pc = T.b_and(pc, cond.d if r else T.b_not(cond.d))
            I.pc = pc

    def cond(pred, tf, ff, *ops, operand=MISSING, **k):
        if operand is not MISSING:
            ops = (operand,)
        p = unwrap0(pred)
        if isinstance(p, Opaque):
            p = T.bsym('opaque:' + p.name)
        if isinstance(p, int):
            return I.call(tf if p else ff, list(ops))
        c = T.to_bool(p)
        k = c.const()
        if k is not None:
            return I.call(tf if k else ff, list(ops))
        a, oka = under(c, lambda: I.call(tf, list(ops)))
        b, okb = under(T.bnot(c), lambda: I.call(ff, list(ops)))
        if not oka:
            return b
        if not okb:
            return a
        return I.merge(c, a, b)

    def switch(i, branches, *ops, **k):
        i = unwrap0(i)
        brs = list(I.iterate(branches))
        if isinstance(i, S):
            c = i.const()
            if c is None:
                r = I.call(brs[-1], list(ops))
                for j in range(len(brs) - 2, -1, -1):
                    r = I.merge(T.le(i, j), I.call(brs[j], list(ops)), r)
                return r
            i = int(c)
        return I.call(brs[max(0, min(len(brs) - 1, i))], list(ops))

    def sigs(v):
        return [(nd(x).shape if isinstance(x, (Arr,)) or is_scalar(x) else None) for x in leaves(v, [])]

    def scan(f, init, xs=None, length=None, reverse=False, unroll=1, **k):
        n = tlen(xs) if xs is not None else None
        if n is None:
            if length is None:
                raise PyRaise(ValueError('scan got no values to scan over and length not provided'), I.where())
            n = cint(length)
        carry = init
        ys = []
        for i in (reversed(range(n)) if reverse else range(n)):
            x = tslice(xs, i) if xs is not None else None
            r = I.call(f, [carry, x])
            r = list(I.iterate(r))
            if len(r) != 2:
                raise PyRaise(TypeError('scan body must return a pair'), I.where())
            if sigs(r[0]) != sigs(carry):
                raise PyRaise(TypeError('scan body carry input and output must have equal types'), I.where())
            carry = r[0]
            ys.append(r[1])
        if reverse:
            ys.reverse()
        return (carry, tstack(ys) if ys else None)

    def fori(lo, hi, body, init, **k):
        v = init
        for i in range(cint(lo), cint(hi)):
            v = I.call(body, [i, v])
        return v

    def while_loop(cf, body, init):
        v = init
        for _ in range(10000):
            c = T.to_bool(unwrap0(I.call(cf, [v]))).const()
            if c is None:
                raise Unmodelled('while_loop with a data-dependent bound at ' + str(I.where()))
            if not c:
                return v
            v = I.call(body, [v])
        raise Unmodelled('while_loop bound')

    def lax_map(f, xs, **k):
        return tstack([I.call(f, [tslice(xs, i)]) for i in range(tlen(xs))])

    def assoc_scan(f, xs, reverse=False, axis=0):
        if axis != 0:
            raise Unmodelled('associative_scan along another axis')
        n = tlen(xs)
        rows = [tslice(xs, i) for i in range(n)]
        if reverse:
            rows = rows[::-1]
        outs = rows[:1]
        lift = lambda v: tmap(lambda x: wrap(nd(mkarr(x))[None]), v)
        for r in rows[1:]:
            outs.append(tslice(I.call(f, [lift(outs[-1]), lift(r)]), 0))
        return tstack(outs[::-1] if reverse else outs)

    def dyn_slice(x, starts, sizes):
        x = mkarr(x)
        idx = []
        for s, n, dim in zip(I.iterate(starts), sizes, x.a.shape):
            s = max(0, min(cint(s), dim - cint(n)))
            idx.append(slice(s, s + cint(n)))
        return wrap(x.a[tuple(idx)])

    def dyn_index(x, i, axis=0, keepdims=True):
        r = getitem(mkarr(x), (slice(None),) * axis + (i,))
        return jnp_d['expand_dims'](r, axis) if keepdims else r

    def dyn_update(x, v, starts):
        x = mkarr(x)
        st = [cint(s) for s in (I.iterate(starts) if not is_scalar(starts) else [starts])]
        v = nd(v)
        o = x.a.copy()
        o[tuple(slice(s, s + n) for s, n in zip(st, v.shape))] = v
        return Arr(o)
    lax = NS('jax.lax', dict(
        scan=scan, cond=cond, switch=switch, fori_loop=fori, while_loop=while_loop, map=lax_map,
        select=lambda c, a, b: jnp_d['where'](c, a, b), stop_gradient=lambda x: x,
        dynamic_slice=dyn_slice, dynamic_index_in_dim=dyn_index, dynamic_update_slice=dyn_update,
        dynamic_slice_in_dim=lambda x, s, n, axis=0: wrap(mkarr(x).a[(slice(None),) * axis + (slice(cint(s), cint(s) + cint(n)),)]),
        dynamic_update_index_in_dim=lambda x, v, i, axis: AtIdx(mkarr(x), (slice(None),) * axis + (i,), npx).set(v),
        clamp=lambda lo, x, hi: jnp_d['clip'](x, lo, hi), sin=jnp_d['sin'], cos=jnp_d['cos'], sqrt=jnp_d['sqrt'], exp=jnp_d['exp'],
        abs=jnp_d['abs'], max=jnp_d['maximum'], min=jnp_d['minimum'], add=jnp_d['add'], sub=jnp_d['subtract'], mul=jnp_d['multiply'], div=jnp_d['divide'],
        rsqrt=lambda x: ew(lambda v: T.div(1, T.sqrt(v)), x), associative_scan=assoc_scan,
        with_sharding_constraint=lambda x, *a: x, reduce_max=lambda x, axes: reduce_(smax, x, axes),
    ))

    depth = [0]

    def grad(f, argnums=0, has_aux=False, value=False, **k):
        def g(*args, **kwargs):
            args = list(args)
            nums = argnums if isinstance(argnums, (tuple, list)) else (argnums,)
            base = list(args)
            actual, fresh = [], []
            for an in nums:
                it = itertools.count()

                def mk(x):
                    if isinstance(x, Arr):
                        o = np.empty(x.a.shape, object)
                        for i in np.ndindex(*o.shape):
                            actual.append(x.a[i])
                            o[i] = T.sym(f'grad-var:{depth[0]}:{an}:{next(it)}', kind='real')
                            fresh.append(o[i])
                        return Arr(o)
                    actual.append(x)
                    fresh.append(T.sym(f'grad-var:{depth[0]}:{an}:{next(it)}'))
                    return fresh[-1]
                base[an] = tmap(mk, args[an])
            depth[0] += 1
            try:
                y = I.call(f, base, kwargs)
            finally:
                depth[0] -= 1
            aux = None
            if has_aux:
                y, aux0 = list(I.iterate(y))
            y = unwrap0(y)
            cnt = itertools.count()
            res = []
            into = {v.d.val._items[0][0][0][0]: T.to_num(x) for v, x in zip(fresh, actual)}
            for an in nums:
                def one(x):
                    v = fresh[next(cnt)]
                    return T.subst(T.diff(y, T.C.atoms[v.d.val._items[0][0][0][0]]), into)
                res.append(tmap(lambda x: (ew(one, x) if isinstance(x, Arr) else one(x)), args[an]))
            gr = tuple(res) if isinstance(argnums, (tuple, list)) else res[0]
            if has_aux or value:
                v = I.call(f, args, kwargs)
                if value:
                    return (v, gr)
                return (gr, list(I.iterate(v))[1])
            return gr
        return g

    def softmax(x, axis=-1, **k):
        x = mkarr(x)
        e = ew(T.exp, x)
        s = reduce_(ssum, e, axis, True)
        return ew(T.div, e, s)

    def logsumexp(x, axis=None, keepdims=False, b=None, **k):
        return ew(T.log, reduce_(ssum, ew(T.exp, x), axis, keepdims))
    for nm in ('sign', 'square', 'integer_pow', 'neg', 'reciprocal', 'tan', 'log', 'log1p', 'expm1', 'floor', 'ceil', 'tanh', 'asin', 'acos', 'atan', 'atan2', 'rem', 'pow',
               'abs', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'is_finite', 'bitwise_and', 'bitwise_or', 'bitwise_not', 'bitwise_xor', 'logistic', 'cbrt', 'concatenate',
               'reshape', 'transpose', 'broadcast', 'expand_dims', 'squeeze', 'cumsum', 'cumprod', 'argmin', 'argmax', 'full_like', 'dot', 'sinh', 'cosh', 'round', 'exp2'):
        real = {'neg': 'negative', 'rem': 'fmod', 'eq': 'equal', 'ne': 'not_equal', 'lt': 'less', 'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal',
                'is_finite': 'isfinite', 'integer_pow': 'power', 'bitwise_xor': 'logical_xor'}.get(nm, nm)
        if real in jnp_d and nm not in lax.d:
            lax.d[nm] = jnp_d[real]
    nn = NS('jax.nn', dict(
        one_hot=lambda x, n, **k: (lambda v: wrap(np.array([[T.to_num(T.eq(q, c)) for c in range(cint(n))] for q in v.reshape(-1)] + [[None] * cint(n)], object)[:-1].reshape(v.shape + (cint(n),))))(nd(mkarr(x))),
        softmax=softmax, logsumexp=logsumexp,
        log_softmax=lambda x, axis=-1, **k: ew(T.sub, x, logsumexp(x, axis, True)),
        sigmoid=lambda x: ew(lambda v: T.div(1, T.add(1, T.exp(T.neg(v)))), x),
        relu=lambda x: ew(lambda v: T.maximum(v, 0), x),
        softplus=lambda x: ew(lambda v: T.log(T.add(1, T.exp(v))), x),
        tanh=jnp_d['tanh'],
    ))

    def rng(op, key):
        if not isinstance(key, Key):
            if isinstance(key, Opaque):
                key = Key(('opaque', key.name))
            else:
                raise PyRaise(TypeError('random function called with a non-key'), I.where())
        I.events.append(('rng', op, key.path, I.where()))
        return key

    def prngkey(seed, **k):
        s = unwrap0(seed)
        return Key(('key', s if isinstance(s, (int, str)) else repr(s)))

    def rsplit(key, num=2):
        key = rng('split', key)
        sh = cshape(num)
        o = np.empty(sh, object)
        for n, i in enumerate(np.ndindex(*sh)):
            o[i] = Key(key.path + (('split', sh, n),))
        return Arr(o)

    def draw(op, kind, lo=-T.INF, hi=T.INF):
        def f(key, shape=(), *a, **k):
            key = rng(op, key)
            sh = cshape(shape) if not isinstance(shape, TypeTok) else ()
            o = np.empty(sh, object)
            for n, i in enumerate(np.ndindex(*sh)):
                o[i] = T.sym(f'{op}:{key_name(key.path)}:{n}', lo, hi, kind)
            return wrap(o)
        return f

    def uniform(key, shape=(), dtype=None, minval=0, maxval=1):
        u = draw('uniform', 'real', 0.0, 1.0)(key, shape)
        return ew(lambda v: T.add(minval, T.mul(v, T.sub(maxval, minval))), u)

    def choice(key, *a, **k):
        key = rng('choice', key)
        return T.sym(f'choice:{key_name(key.path)}')

    def randint(key, shape, minval, maxval, **k):
        return ew(lambda v: T.floor(T.add(minval, T.mul(v, T.sub(maxval, minval)))), draw('randint', 'real', 0.0, 1.0)(key, shape))
    jrandom = NS('jax.random', dict(
        PRNGKey=prngkey, key=prngkey, split=rsplit, normal=draw('normal', 'normal'), uniform=uniform, randint=randint, choice=choice,
        fold_in=lambda key, d: Key(rng('fold_in', key).path + (('fold', d if isinstance(d, int) else repr(d)),)),
        truncated_normal=lambda key, lower, upper, shape=(), *a: draw('truncated_normal', 'normal')(key, shape),
        permutation=lambda key, x, **k: Opaque('permutation'), bernoulli=lambda key, p=T.flt(0.5), shape=(): ew(lambda v: T.lt(v, p), draw('bernoulli', 'real', 0.0, 1.0)(key, shape)),
        laplace=draw('laplace', 'normal'), categorical=choice, PRNGKeyArray=Opaque('PRNGKeyArray'),
    ))

    def io_callback(fn, shapes, *args, **k):
        conv = lambda v: Arr(v.a.copy(), True) if isinstance(v, Arr) else v
        r = I.call(fn, [tmap(conv, a) for a in args])
        return tmap(lambda v: Arr(v.a.copy()) if isinstance(v, Arr) else v, r)

    def treemap(f, t, *rest, **k):
        return tmap(lambda *xs: I.call(f, list(xs)), t, *rest)

    def treereduce(f, t, init=MISSING):
        ls = leaves(t, [])
        acc = ls.pop(0) if init is MISSING else init
        for x in ls:
            acc = I.call(f, [acc, x])
        return acc
    tree = NS('jax.tree', dict(map=treemap, leaves=lambda t, **k: leaves(t, []), reduce=treereduce, structure=lambda t: Opaque('treedef'),
                               flatten=lambda t, **k: (leaves(t, []), Opaque('treedef')), stack=None))
    treeu = NS('jax.tree_util', dict(tree_map=treemap, tree_leaves=lambda t, **k: leaves(t, []), tree_reduce=treereduce,
                                     Partial=lambda f, *a, **k: Partial(f, a, k), register_pytree_node=lambda *a, **k: None,
                                     register_pytree_node_class=lambda c: c, tree_flatten=lambda t, **k: (leaves(t, []), Opaque('treedef'))))

    def clear_caches():
        for j in I.jits:
            j.cache.clear()

    class ShapeDtype:
        def __init__(self, shape=(), dtype=None, **k):
            self.shape, self.dtype = shape, dtype
    nop = lambda *a, **k: None
    L['jax'] = NS('jax', dict(
        numpy=jnp, jit=jit, vmap=vmap, pmap=vmap, lax=lax, nn=nn, random=jrandom, tree=tree, tree_util=treeu,
        grad=grad, value_and_grad=lambda f, argnums=0, **k: grad(f, argnums, value=True, **k),
        Array=jnp_d['ndarray'], checkpoint=lambda f, **k: f, named_call=lambda f, **k: f,
        experimental=NS('jax.experimental', dict(io_callback=io_callback)), pure_callback=io_callback,
        debug=NS('jax.debug', dict(print=nop, callback=lambda f, *a, **k: I.call(f, list(a)) and None, breakpoint=nop)),
        config=NS('jax.config', dict(update=nop, read=lambda *a: Opaque('config'), x64_enabled=False, jax_enable_x64=False)),
        ShapeDtypeStruct=ShapeDtype, device_get=lambda x: tmap(lambda v: Arr(v.a.copy(), True) if isinstance(v, Arr) else v, x),
        device_put=lambda x, *a, **k: x, block_until_ready=lambda x: x, clear_caches=clear_caches,
        devices=lambda *a: [Opaque('device')], local_devices=lambda *a: [Opaque('device')], device_count=lambda *a: 1, local_device_count=lambda *a: 1,
        default_backend=lambda: 'cpu', disable_jit=lambda *a: Tqdm(), ensure_compile_time_eval=lambda: Tqdm(),
        eval_shape=lambda f, *a, **k: I.call(f, list(a), k), make_jaxpr=lambda f, **k: Opaque('jaxpr'), named_scope=lambda *a: Tqdm(),
        custom_jvp=lambda f, **k: f, custom_vjp=lambda f, **k: f, profiler=Opaque('jax.profiler'), scipy=NS('jax.scipy', dict(special=NS('special', dict(logsumexp=logsumexp)))),
    ))
    L['jax'].d['jax'] = L['jax']

    # --------------------------------------------------------------- dataclass
    class FieldSpec:
        def __init__(self, default=MISSING, default_factory=None, **k):
            self.default, self.factory = default, default_factory

    def dataclass_fill(c):
        fields = []
        for b in reversed(c.mro[1:]):
            for f in (b.dc or []):
                fields = [g for g in fields if g[0] != f[0]] + [f] if not any(g[0] == f[0] for g in fields) else [f if g[0] == f[0] else g for g in fields]
        for n in c.ns.get('__annotations__', []):
            v = c.ns.get(n, MISSING)
            f = (n, v, None)
            if isinstance(v, FieldSpec):
                f = (n, v.default, v.factory)
                if v.default is MISSING:
                    c.ns.pop(n, None)
                else:
                    c.ns[n] = v.default
            if any(g[0] == n for g in fields):
                fields = [f if g[0] == n else g for g in fields]
            else:
                fields.append(f)
        c.dc = fields
        return c

    def dataclass(c=None, **k):
        if c is None:
            return lambda cc: dataclass(cc, **k)
        dataclass_fill(c)
        if k.get('frozen'):
            c.frozen = True
        return c

    def sdataclass(c=None, **k):
        if c is None:
            return lambda cc: sdataclass(cc, **k)
        dataclass_fill(c)
        c.frozen = True
        return c

    def asdict(o):
        return {n: (asdict(o.attrs[n]) if isinstance(o.attrs[n], Obj) and o.attrs[n].cls.dc else o.attrs[n]) for n, _, _ in o.cls.dc}

    class FieldInfo:
        def __init__(self, f):
            self.name, self.default, self.default_factory = f[0], f[1], f[2] if f[2] is not None else MISSING
            self.type = Opaque('type')

    def fields(o):
        c = o.cls if isinstance(o, Obj) else o
        return tuple(FieldInfo(f) for f in c.dc)

    def mkdc(name, flds, **k):
        raise Unmodelled('make_dataclass')
    L['dataclasses'] = NS('dataclasses', dict(
        dataclass=dataclass, field=lambda **k: FieldSpec(**k), replace=lambda o, **k: I.replace(o, k), asdict=asdict, fields=fields,
        astuple=lambda o: tuple(o.attrs[f[0]] for f in o.cls.dc), is_dataclass=lambda o: getattr(o.cls if isinstance(o, Obj) else o, 'dc', None) is not None,
        MISSING=MISSING, make_dataclass=mkdc))
    struct = NS('flax.struct', dict(dataclass=sdataclass, field=lambda pytree_node=True, **k: FieldSpec(**k)))
    L['flax'] = NS('flax', dict(struct=struct))
    L['chex'] = NS('chex', dict(dataclass=sdataclass))

    # ----------------------------------------------------------------- stdlib
    def lru(*a, **k):
        if a and isinstance(a[0], (Func, JitFunc, Bound)):
            return a[0]
        return lambda f: f

    def freduce(f, xs, init=MISSING):
        it = list(I.iterate(xs))
        acc = it.pop(0) if init is MISSING else init
        for x in it:
            acc = I.call(f, [acc, x])
        return acc
    def wraps_(f, *a, **k):
        def d(g):
            if isinstance(g, Func):
                for n in ('name',):
                    if isinstance(f, Func):
                        setattr(g, n, getattr(f, n))
            return g
        return d

    def cached(f):
        r = Property(f)
        r.once = True
        return r
    L['functools'] = NS('functools', dict(partial=lambda f, *a, **k: Partial(f, a, k), wraps=wraps_, update_wrapper=lambda w, f, *a, **k: w,
                                          lru_cache=lru, cache=lru, reduce=freduce, cached_property=cached, total_ordering=lambda c: total_order(c),
                                          cmp_to_key=lambda f: functools.cmp_to_key(lambda a, b: cint(I.call(f, [a, b]))),
                                          singledispatch=lambda f: f, singledispatchmethod=lambda f: f))

    def total_order(c):
        raise Unmodelled('total_ordering')
    lst = lambda x: list(I.iterate(x))
    tr = lambda f, *a: I.truth(I.call(f, list(a)))

    def accumulate(xs, func=None, *, initial=None):
        xs = ([] if initial is None else [initial]) + lst(xs)
        return list(itertools.accumulate(xs, (lambda a, b: I.binop('add', a, b)) if func is None else (lambda a, b: I.call(func, [a, b]))))

    def groupby(xs, key=None):
        out = []
        for x in I.iterate(xs):
            k = x if key is None else I.call(key, [x])
            if out and I.truth(I.compare('eq', out[-1][0], k) if hasattr(I, 'compare') else out[-1][0] == k):
                out[-1][1].append(x)
            else:
                out.append((k, [x]))
        return out
    L['itertools'] = NS('itertools', dict(
        product=lambda *xs, repeat=1: list(itertools.product(*[lst(x) for x in xs], repeat=cint(repeat))),
        combinations=lambda x, n: list(itertools.combinations(lst(x), cint(n))), combinations_with_replacement=lambda x, n: list(itertools.combinations_with_replacement(lst(x), cint(n))),
        permutations=lambda x, n=None: list(itertools.permutations(lst(x), n)), count=itertools.count, cycle=lambda x: itertools.cycle(lst(x)),
        islice=lambda x, *a: list(itertools.islice(I.iterate(x), *[None if q is None else cint(q) for q in a])),
        zip_longest=lambda *xs, fillvalue=None: list(itertools.zip_longest(*[lst(x) for x in xs], fillvalue=fillvalue)),
        accumulate=accumulate, repeat=lambda x, n=None: itertools.repeat(x) if n is None else [x] * cint(n), groupby=groupby,
        takewhile=lambda f, x: itertools.takewhile(lambda v: tr(f, v), I.iterate(x)), dropwhile=lambda f, x: itertools.dropwhile(lambda v: tr(f, v), I.iterate(x)),
        filterfalse=lambda f, x: [v for v in I.iterate(x) if not (I.truth(v) if f is None else tr(f, v))], compress=lambda x, c: [v for v, k in zip(I.iterate(x), I.iterate(c)) if I.truth(k)],
        starmap=lambda f, x: [I.call(f, lst(v)) for v in I.iterate(x)], tee=lambda x, n=2: tuple(iter(q) for q in [lst(x)] * n), batched=lambda x, n: list(itertools.batched(lst(x), cint(n))),
        pairwise=lambda x: list(itertools.pairwise(lst(x)))))

    # ------------------------------------------------------------- contextlib
    class Cm:
        def __init__(self, enter, leave):
            self.__enter__, self.__exit__ = enter, leave

    def contextmanager(f):
        def make(*a, **k):
            g = I.call(f, list(a), k)

            def enter():
                return next(g)

            def leave(t, v, tb):
                if v is None:
                    try:
                        next(g)
                    except StopIteration:
                        return False
                    raise Unmodelled('context manager that yields twice')
                try:
                    g.throw(v)
                except StopIteration:
                    return True
                except PyRaise as ex:
                    if ex.value is v:
                        return False
                    raise
            return Cm(enter, leave)
        return make

    def suppress(*ts):
        return Cm(lambda: None, lambda t, v, tb: v is not None and any(I.exc_match(v, x) for x in ts))

    def exitstack():
        todo = []

        def enter_context(cm):
            v = I.call(I.getattr(cm, '__enter__'), [])
            todo.append(I.getattr(cm, '__exit__'))
            return v

        def leave(t, v, tb):
            done = False
            for f in todo[::-1]:
                r = I.call(f, [t, v, tb])
                if v is not None and r is not None and not isinstance(r, Opaque) and I.truth(r):
                    t, v, tb, done = None, None, None, True
            return done
        cm = Cm(None, leave)
        cm.__enter__ = lambda: cm
        cm.enter_context, cm.close = enter_context, lambda: leave(None, None, None)
        cm.push = lambda f: todo.append(I.getattr(f, '__exit__') if I.hasattr(f, '__exit__') else f)

        def callback(f, *a, **k):
            todo.append(lambda t, v, tb: (I.call(f, list(a), k), None)[1])
            return f
        cm.callback = callback
        return cm
    L['contextlib'] = NS('contextlib', dict(contextmanager=contextmanager, suppress=suppress, ExitStack=exitstack, nullcontext=lambda x=None: Cm(lambda: x, lambda *a: None),
                                            closing=lambda x: Cm(lambda: x, lambda *a: (I.call(I.getattr(x, 'close'), []), None)[1]),
                                            redirect_stdout=lambda x: Cm(lambda: x, lambda *a: None), redirect_stderr=lambda x: Cm(lambda: x, lambda *a: None)))
    L['itertools'].d['chain'] = ChainTok(I)
    m = {n: jnp_d[n] for n in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'hypot', 'fabs', 'log10', 'log2', 'tanh', 'radians', 'degrees', 'isfinite', 'isnan', 'isclose', 'isinf', 'copysign', 'fmod', 'trunc')}
    m.update(pi=PI, e=T.exp(1), inf=jnp_d['inf'], nan=jnp_d['nan'], tau=T.mul(PI, 2), atan2=jnp_d['arctan2'], atan=jnp_d['arctan'], asin=jnp_d['arcsin'], acos=jnp_d['arccos'],
             pow=jnp_d['power'], prod=jnp_d['prod'], fsum=jnp_d['sum'],
             floor=lambda x: cint(T.floor(x)) if T.to_num(x).const() is not None else T.floor(x), ceil=lambda x: cint(T.neg(T.floor(T.neg(x)))) if T.to_num(x).const() is not None else T.neg(T.floor(T.neg(x))),
             dist=lambda a, b: norm(ew(T.sub, mkarr(a), mkarr(b))), gcd=math.gcd, factorial=math.factorial)
    m.update(comb=math.comb, perm=math.perm, lcm=math.lcm, isqrt=math.isqrt, log=lambda x, b=None: jnp_d['log'](x) if b is None else T.div(T.log(x), T.log(b)))
    L['math'] = NS('math', m)
    ns_cls = IClass('SimpleNamespace', [], {'__init__': NativeMethod(lambda o, *a, **k: o.attrs.update(*a, **k))}, None)
    L['types'] = NS('types', dict(SimpleNamespace=ns_cls, MappingProxyType=lambda d: d, FunctionType=Opaque('FunctionType')))
    tcount = itertools.count()
    clock = [T.sym('time', 0.0, 1e9)]

    def now(*a):
        k = next(tcount)
        clock[0] = T.add(clock[0], T.sym(f'tick:{k}', 0.0, 1e5))
        I.events.append(('clock', k, I.where()))
        return clock[0]
    L['time'] = NS('time', dict(time=now, perf_counter=now, monotonic=now, process_time=now, time_ns=now, sleep=nop, strftime=lambda *a: '<time>', localtime=lambda *a: Opaque('localtime')))
    L['datetime'] = Opaque('datetime')
    lg = {n: nop for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'basicConfig', 'disable', 'captureWarnings', 'addLevelName', 'log')}
    lg.update(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50, NOTSET=0)
    logger = NS('Logger', dict({n: nop for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'setLevel', 'addHandler', 'log', 'removeHandler')}, isEnabledFor=lambda *a: False, level=20, handlers=[], getEffectiveLevel=lambda: 20, propagate=False, hasHandlers=lambda: True))
    lg['getLogger'] = lambda *a: logger
    lg['StreamHandler'] = lambda *a, **k: logger
    lg['Formatter'] = lambda *a, **k: logger
    lg['root'] = logger
    L['logging'] = NS('logging', lg)
    L['warnings'] = NS('warnings', dict(warn=nop, filterwarnings=nop, simplefilter=nop, catch_warnings=lambda *a, **k: Tqdm()))
    L['typing'] = NS('typing', dict(TYPE_CHECKING=False, NamedTuple=Opaque('typing.NamedTuple'), cast=lambda t, v: v))
    L['abc'] = NS('abc', dict(ABC=Opaque('abc.ABC'), abstractmethod=lambda f: f, ABCMeta=Opaque('ABCMeta')))
    L['copy'] = NS('copy', dict(copy=lambda v: shallow(v), deepcopy=lambda v, *a: deep(v)))

    def shallow(v):
        if isinstance(v, (list, dict, set)):
            return type(v)(v)
        if isinstance(v, Arr):
            return Arr(v.a.copy(), v.mut)
        if isinstance(v, Obj):
            o = Obj(v.cls)
            o.attrs = dict(v.attrs)
            return o
        return v

    def deep(v):
        if isinstance(v, (list, tuple)):
            return type(v)(deep(x) for x in v)
        if isinstance(v, dict):
            return {k: deep(x) for k, x in v.items()}
        if isinstance(v, Obj):
            o = Obj(v.cls)
            o.attrs = {k: deep(x) for k, x in v.attrs.items()}
            return o
        return shallow(v)
    L['collections'] = NS('collections', dict(namedtuple=lambda n, f, **k: mknt(n, f, **k), OrderedDict=lambda *a, **k: ODict(*[q if isinstance(q, dict) else list(I.iterate(q)) for q in a], **k), deque=lambda x=(), maxlen=None: Deque(I.iterate(x), maxlen), Counter=lambda x=(), **k: collections.Counter(x if isinstance(x, dict) else list(I.iterate(x)), **k), ChainMap=lambda *a: {k: v for q in reversed(a) for k, v in q.items()}, defaultdict=lambda f=None, *a: DefaultDict(f, I)))

    def mknt(n, f, defaults=(), **k):
        fs = f.replace(',', ' ').split() if isinstance(f, str) else list(f)
        defaults = list(defaults or ())
        c = IClass(n, [], {'__annotations__': fs, '_fields': tuple(fs)}, None)
        c.tuplelike = True
        c.dc = [(x, defaults[i - len(fs) + len(defaults)] if i >= len(fs) - len(defaults) else MISSING, None) for i, x in enumerate(fs)]
        c.ns['_make'] = StaticM(lambda it: I.instantiate(c, list(I.iterate(it)), {}))
        return c
    # os & co: effects
    def eff(name, res=None):
        def f(*a, **k):
            I.effect(name, None, a, k)
            return res(*a, **k) if callable(res) else res
        return f

    def purestr(name, f):
        def g(*a):
            if all(isinstance(x, str) for x in a):
                return f(*a)
            return Opaque(name, a)
        return g
    I.fs_exists = {}

    def known(p):
        p = _osp.normpath(p)
        if p in I.fs_exists:
            return I.fs_exists[p]
        return True if any(v and k.startswith(p + '/') for k, v in I.fs_exists.items()) else None

    def mkdirs(nm):
        def f(*a, **k):
            p = a[0] if a else k.get('name', k.get('path'))
            ok = k.get('exist_ok', a[2] if len(a) > 2 and nm == 'os.makedirs' else False)
            if isinstance(p, str) and ok is not True:
                e = known(p)
                if e if e is not None else I.decide(T.bsym(f'opaque:exists({_osp.normpath(p)})')):
                    raise PyRaise(FileExistsError(p), I.where())
            I.effect(nm, None, a, k)
            if isinstance(p, str):
                I.fs_exists[_osp.normpath(p)] = True
        return f

    def exists(p):
        h = known(p) if isinstance(p, str) else None
        p = _osp.normpath(p) if isinstance(p, str) else p
        if h is not None:
            return h
        return Opaque(f'exists({p if isinstance(p, str) else type_name(p)})')
    path = NS('os.path', dict(join=purestr('join', _osp.join), dirname=purestr('dirname', _osp.dirname), basename=purestr('basename', _osp.basename),
                              abspath=purestr('abspath', lambda p: p if p.startswith('/') else _osp.normpath('/cwd/' + p)), splitext=purestr('splitext', _osp.splitext), normpath=purestr('normpath', _osp.normpath),
                              exists=exists, isfile=exists, isdir=exists, getmtime=lambda p: Opaque('mtime'), getsize=lambda p: Opaque('getsize'),
                              expanduser=purestr('expanduser', lambda p: p), realpath=purestr('realpath', lambda p: p), relpath=purestr('relpath', lambda *p: p[0]), sep='/', isabs=purestr('isabs', lambda p: p.startswith('/'))))
    osn = {n: eff('os.' + n) for n in ('remove', 'unlink', 'rmdir', 'rename', 'replace', 'system', 'chdir', 'removedirs', 'chmod', 'symlink', 'kill', 'popen', 'putenv', 'truncate')}
    osn.update({n: mkdirs('os.' + n) for n in ('makedirs', 'mkdir')})
    osn.update(path=path, getcwd=lambda: '/cwd', environ={}, getenv=lambda n, d=None: d, sep='/', listdir=lambda *a: files('listdir', a), cpu_count=lambda: 8, getpid=lambda: 1, name='posix', devnull='/dev/null', walk=lambda *a: [], linesep='\n')

    def files(nm, a):
        """two arbitrary matching names, or none"""
        if not (a and isinstance(a[0], str)):
            o = Opaque(nm, a)
            o.attrs['__iter__'] = [I.opaque_item(o, 0), I.opaque_item(o, 1)]
            return o
        pat = a[0]
        if pat in I.fs_files:
            return list(I.fs_files[pat])
        if not I.decide(T.bsym('files:' + pat)):
            return []
        if nm == 'listdir':
            return ['any0', 'any1']
        pat = pat.replace('**', '*')
        return [pat.replace('*', 'any0'), pat.replace('*', 'any1')] if '*' in pat else [pat]

    I.runs = []
    I.fs_files = {}

    def run_cmd(kind):
        def f(*a, **k):
            rc = T.ite(T.bsym(f'success{len(I.runs)}'), T.num(0), T.sym(f'exit{len(I.runs)}', 1, 255))
            I.runs.append(rc)
            I.effect('subprocess.' + kind, None, a, k, rc)
            if kind == 'call':
                return rc
            if kind in ('check_call', 'check_output') or k.get('check') is True:
                if not I.decide(T.eq(rc, 0)):
                    raise PyRaise(RuntimeError('command failed'), I.where())
                if kind != 'run':
                    return T.num(0) if kind == 'check_call' else Opaque('output')
            o = Opaque('completed')
            o.attrs.update(returncode=rc, wait=NativeMethod(lambda *a, **k: rc), poll=NativeMethod(lambda: rc), communicate=NativeMethod(lambda *a, **k: (Opaque('out'), Opaque('err'))))
            return o
        return f
    L['os'] = NS('os', osn)
    L['glob'] = NS('glob', dict(glob=lambda *a, **k: files('glob', a), iglob=lambda *a, **k: files('glob', a), escape=lambda p: p))
    L['subprocess'] = NS('subprocess', dict({n: run_cmd(n) for n in ('call', 'run', 'Popen', 'check_call', 'check_output')}, PIPE=-1, DEVNULL=-3, STDOUT=-2, CalledProcessError=RuntimeError))
    L['shutil'] = NS('shutil', dict({n: eff('shutil.' + n) for n in ('rmtree', 'copy', 'copyfile', 'move', 'copytree')}, which=lambda *a: Opaque('which')))
    L['tempfile'] = NS('tempfile', dict(mkdtemp=eff('tempfile.mkdtemp', lambda *a, **k: '/tmp/t'), TemporaryDirectory=eff('tempfile.TemporaryDirectory', lambda *a, **k: Opaque('tempdir'))))
    L['sys'] = NS('sys', dict(argv=['prog'], exit=lambda *a: _raise(SystemExit(*a)), path=[], modules={}, stdout=NS('stdout', dict(write=nop, flush=nop)), stderr=NS('stderr', dict(write=nop, flush=nop)), version_info=(3, 12), platform='linux', maxsize=2 ** 63 - 1, float_info=NS('float_info', dict(max=T.flt(1.7e308), min=T.flt(2.2e-308), epsilon=T.flt(2.2e-16)))))
    L['argparse'] = Opaque('argparse')
    L['gc'] = NS('gc', dict(collect=nop))
    L['atexit'] = NS('atexit', dict(register=nop))
    L['pprint'] = NS('pprint', dict(pprint=nop))
    L['json'] = NS('json', dict(dump=eff('json.dump'), dumps=lambda *a, **k: Opaque('json'), load=lambda *a: Opaque('json'), loads=lambda *a: Opaque('json')))
    L['pickle'] = NS('pickle', dict(dump=eff('pickle.dump'), dumps=lambda *a, **k: Opaque('pickle'), load=lambda *a: Opaque('pickle')))
    L['csv'] = Opaque('csv')
    ebase = {}
    for nm, kind in (('Enum', 'obj'), ('IntEnum', 'int'), ('IntFlag', 'int'), ('Flag', 'int'), ('StrEnum', 'str')):
        ebase[nm] = IClass(nm, [], {}, None)
        ebase[nm].enum = kind
    AUTO = object()
    L['enum'] = NS('enum', dict(ebase, auto=lambda: AUTO, unique=lambda c: c, EnumMeta=Opaque('EnumMeta')))

    class IntMember(int):
        pass

    class StrMember(str):
        pass

    def enum_class(c):
        kind = next(k.enum for k in c.mro[1:] if getattr(k, 'enum', None))
        if kind == 'obj' and any(b in (int, str) or getattr(b, 'name', '') in ('int', 'str') for b in c.bases):
            kind = 'int' if any(b is int or getattr(b, 'name', '') == 'int' for b in c.bases) else 'str'
        c.members = {}
        n = 0
        for k, v in list(c.ns.items()):
            if k.startswith('_') or isinstance(v, (Func, Property, StaticM, ClassM, JitFunc)):
                continue
            if v is AUTO:
                v = (k.lower() if kind == 'str' else n + 1)
            if isinstance(v, int):
                n = v
            same = next((m for m in c.members.values() if m.value_ == v), None) if isinstance(v, (int, str)) else None
            if same is None:
                if kind == 'int':
                    m = IntMember(v)
                elif kind == 'str':
                    m = StrMember(v)
                else:
                    m = EMember(c)
                    m.attrs.update(name=k, value=v)
                m.value_ = m.value = m._value_ = v
                m.name = k
                c.members[k] = m
            else:
                m = same
            c.ns[k] = m
        c.ns['__members__'] = dict(c.members)

    class EMember(Obj):
        pass
    L['__enum__'] = enum_class
    L['random'] = NS('random', {n: (lambda n: lambda *a, **k: nondet('random.' + n, a, k))(n) for n in ('random', 'uniform', 'gauss', 'randint', 'choice', 'seed', 'shuffle', 'sample')})
    L['operator'] = NS('operator', dict(truediv=lambda a, b: I.binop('truediv' if False else 'div', a, b), floordiv=lambda a, b: I.binop('floordiv', a, b), mod=lambda a, b: I.binop('mod', a, b), pow=lambda a, b: I.binop('pow', a, b), matmul=lambda a, b: I.binop('matmul', a, b), neg=lambda a: I.binop('sub', 0, a), abs=lambda a: B_('abs')(a), not_=lambda a: not I.truth(a), truth=lambda a: I.truth(a), getitem=lambda o, k: I.getitem(o, k), contains=lambda o, k: B_('contains')(o, k), methodcaller=lambda n, *a, **k: (lambda o: I.call(I.getattr(o, n), list(a), k)), add=lambda a, b: I.binop('add', a, b), mul=lambda a, b: I.binop('mul', a, b), sub=lambda a, b: I.binop('sub', a, b), or_=lambda a, b: I.binop('or', a, b), and_=lambda a, b: I.binop('and', a, b),
                                        itemgetter=lambda *k: (lambda o: I.getitem(o, k[0]) if len(k) == 1 else tuple(I.getitem(o, x) for x in k)), attrgetter=lambda n: (lambda o: I.getattr(o, n))))
    L['tqdm'] = NS('tqdm', dict(tqdm=Tqdm, trange=lambda n, *a, **k: Tqdm(range(cint(n))), auto=NS('tqdm.auto', dict(tqdm=Tqdm))))
    for nm in ('uuid', 'secrets'):
        L[nm] = NS(nm, {n: (lambda n: lambda *a, **k: nondet(nm + '.' + n, a, k))(n) for n in ('uuid4', 'uuid1', 'token_hex', 'randbelow')})

    # scipy.optimize.minimize: an adversarial solver ----------------------------
    mcount = itertools.count()

    def minimize(fun, x0, args=(), method=None, jac=None, bounds=None, constraints=(), options=None, tol=None, **k):
        n = next(mcount)
        x0a = mkarr(x0)
        # the solver is trusted to honour the bounds it was given, and nothing else
        lim = [(-T.INF, T.INF)] * x0a.a.size
        if bounds is not None:
            bs = bounds
            if isinstance(bs, tuple) and len(bs) == 3 and bs[0] == 'bounds':
                lo, hi = mkarr(bs[1]).a.reshape(-1), mkarr(bs[2]).a.reshape(-1)
                bs = [(lo[i % lo.size], hi[i % hi.size]) for i in range(x0a.a.size)]
            else:
                bs = [tuple(I.iterate(b)) for b in I.iterate(bs)]
            fl = lambda v, d: d if v is None or T.to_num(unwrap0(v)).const() is None else float(T.to_num(unwrap0(v)).const())
            lim = [(fl(a, -T.INF), fl(b, T.INF)) for a, b in bs]
        xs = mkarr([T.sym(f'solver:{n}:{i}', *lim[i]) for i in range(x0a.a.size)], True)
        r = Opaque('OptimizeResult')
        I.minimize_log.append(dict(fun=fun, x0=x0a, args=args, method=method, bounds=bounds, constraints=constraints, options=options,
                                   x=xs, where=I.where(), pc=I.pc, n=n, interp=I))
        r.attrs['x'] = xs
        r.attrs['success'] = T.bsym(f'solver-success:{n}')
        r.attrs['status'] = T.sym(f'solver-status:{n}')
        r.attrs['message'] = '<solver message>'
        r.attrs['fun'] = T.sym(f'solver-fun:{n}')
        r.attrs['nit'] = T.sym(f'solver-nit:{n}')
        return r
    mk_cons = lambda *a, **k: NS('constraint', dict(args=a, kwargs=k))
    L['scipy'] = NS('scipy', dict(optimize=NS('scipy.optimize', dict(minimize=minimize, Bounds=lambda lb, ub, **k: ('bounds', lb, ub), NonlinearConstraint=mk_cons, LinearConstraint=mk_cons))))

    # matplotlib ------------------------------------------------------------------
    def affine(o, name):
        c, s = T.cos, T.sin
        if name == 'rotate':
            return lambda th: o.then([[c(th), T.neg(s(th))], [s(th), c(th)]], [T.num(0), T.num(0)])
        if name == 'rotate_deg':
            return lambda dg: affine(o, 'rotate')(T.div(T.mul(dg, PI), 180))
        if name == 'rotate_around':
            return lambda x, y, th: affine(affine(affine(o, 'translate')(T.neg(x), T.neg(y)), 'rotate')(th), 'translate')(x, y)
        if name == 'rotate_deg_around':
            return lambda x, y, dg: affine(o, 'rotate_around')(x, y, T.div(T.mul(dg, PI), 180))
        if name == 'translate':
            return lambda x, y: o.then([[T.num(1), T.num(0)], [T.num(0), T.num(1)]], [T.to_num(x), T.to_num(y)])
        if name == 'scale':
            return lambda x, y=None: o.then([[T.to_num(x), T.num(0)], [T.num(0), T.to_num(x if y is None else y)]], [T.num(0), T.num(0)])
        if name in ('transform', 'transform_point'):
            def f(p):
                p = nd(p)
                if p.ndim == 1:
                    return mkarr(o.apply(p[0], p[1]), True)
                return mkarr([o.apply(q[0], q[1]) for q in p], True)
            return f
        if name in ('get_affine', 'frozen'):
            return lambda: o
        if name == 'clear':
            return lambda: Affine()
        return None

    def rad2deg(x):
        return T.div(T.mul(x, 180), PI)
    L['matplotlib'] = Opaque('matplotlib')
    mpl = Opaque('matplotlib')
    mpl.attrs['transforms'] = NS('matplotlib.transforms', dict(Affine2D=lambda *a, **k: Affine()))
    plt = Opaque('plt')
    mpl.attrs['pyplot'] = plt
    pat = Opaque('patches')
    for n in ('Rectangle', 'Circle', 'Polygon'):
        plt.attrs[n] = pat.attrs[n] = Opaque('plt.' + n)
    mpl.attrs['patches'] = pat
    L['matplotlib'] = mpl
    L['imageio'] = Opaque('imageio')
    L['PIL'] = Opaque('PIL')

    L['__np__'] = npx
    L['__arrattr__'] = arrattr
    L['__affine__'] = affine
    L['__dataclass__'] = dataclass_fill
    L['__tree__'] = dict(leaves=leaves, map=tmap, stack=tstack, slice=tslice)
    L['__jnp__'] = jnp_d
    L['__opaque_call__'] = {'plt.subplots()': None}
    L['__opaque_call__'] = {}
    return L


class ChainTok:
    def __init__(self, I):
        self.I = I

    def __call__(self, *xs):
        return [y for x in xs for y in self.I.iterate(x)]

    def from_iterable(self, xs):
        return [y for x in self.I.iterate(xs) for y in self.I.iterate(x)]


class ODict(collections.OrderedDict):
    pass


class Deque(list):
    def __init__(self, it, maxlen=None):
        super().__init__(it)
        self.maxlen = None if maxlen is None else cint(maxlen)
        self._trim(True)

    def _trim(self, left):
        if self.maxlen is not None:
            while len(self) > self.maxlen:
                super().pop(0 if left else -1)

    def append(self, x):
        super().append(x)
        self._trim(True)

    def extend(self, xs):
        super().extend(xs)
        self._trim(True)

    def appendleft(self, x):
        super().insert(0, x)
        self._trim(False)

    def extendleft(self, xs):
        for x in xs:
            self.appendleft(x)

    def popleft(self):
        return super().pop(0)

    def rotate(self, n=1):
        k = cint(n) % len(self) if self else 0
        self[:] = self[-k:] + self[:-k] if k else self[:]


class DefaultDict(dict):
    def __init__(self, f, I):
        self.f, self.I = f, I

    def __missing__(self, k):
        v = self[k] = self.I.call(self.f)
        return v


def builtins_ns(I):
    jnp = I.libs['__jnp__']
    B = {}

    def rng(*a):
        return range(*[cint(x) for x in a])

    def ln(x):
        if isinstance(x, Arr):
            if x.a.ndim == 0:
                raise PyRaise(TypeError('len() of unsized object'), I.where())
            return x.a.shape[0]
        if isinstance(x, S):
            raise PyRaise(TypeError('len() of unsized object'), I.where())
        if isinstance(x, Obj):
            if x.cls.tuplelike:
                return len(x.cls.dc)
            return I.call(I.getattr(x, '__len__'), [])
        if isinstance(x, Opaque):
            it = x.attrs.get('__iter__')
            if it is not None:
                return len(it)
            return T.sym(f'len:{x.name}', 0)
        try:
            return len(x)
        except TypeError as ex:
            raise PyRaise(ex, I.where())

    def isinst(x, t):
        if isinstance(t, (tuple, list)):
            return any(isinst(x, y) for y in t)
        if isinstance(t, IClass):
            return isinstance(x, Obj) and t in x.cls.mro
        if isinstance(t, TypeTok):
            return bool(t.pred(x))
        if isinstance(t, type):
            if isinstance(x, Obj):
                nb = x.cls.native_base()
                return nb is not None and issubclass(nb, t)
            return isinstance(x, t)
        if t in (B['property'],):
            return isinstance(x, Property)
        if isinstance(t, Opaque):
            if isinstance(x, Opaque):
                return I.decide(T.bsym(f'opaque:isinstance:{x.name}:{t.name}'))
            return False
        if t is B['range']:
            return isinstance(x, range)
        return False

    def mk_float(x=0):
        x = unwrap0(x)
        if isinstance(x, Arr):
            if x.a.size != 1:
                raise PyRaise(TypeError('only length-1 arrays can be converted to Python scalars'), I.where())
            x = x.a.reshape(-1)[0]
        if isinstance(x, str):
            try:
                return T.flt(float(x))
            except ValueError as ex:
                raise PyRaise(ex, I.where())
        if isinstance(x, Opaque):
            return Opaque(f'float({x.name})', (x,))
        if not is_scalar(x):
            raise PyRaise(TypeError(f'float() argument must be a number, not {type_name(x)}'), I.where())
        return T.to_num(norm_scalar(x))

    def mk_int(x=0, *a):
        x = unwrap0(x)
        if isinstance(x, str):
            try:
                return int(x, *a)
            except ValueError as ex:
                raise PyRaise(ex, I.where())
        if isinstance(x, Arr) and x.a.size == 1:
            x = x.a.reshape(-1)[0]
        if isinstance(x, Opaque):
            return Opaque(f'int({x.name})', (x,))
        if not is_scalar(x):
            raise PyRaise(TypeError(f'int() argument must be a number, not {type_name(x)}'), I.where())
        r = to_int(norm_scalar(x))
        return int(r.const()) if isinstance(r, S) and r.const() is not None else int(r) if isinstance(r, bool) else r

    def mk_bool(x=False):
        x = unwrap0(x)
        if isinstance(x, S) and x.const() is None:
            return T.to_bool(x)     # stays symbolic; branches on it are partitioned
        return I.truth(x)

    def mk_list(x=()):
        return list(I.iterate(x))

    def mk_dict(*a, **k):
        d = {}
        if a:
            if isinstance(a[0], dict):
                d.update(a[0])
            else:
                d.update({kk: v for kk, v in (tuple(I.iterate(p)) for p in I.iterate(a[0]))})
        d.update(k)
        return d

    def mk_str(x='', *a):
        x = unwrap0(x)
        if isinstance(x, Obj):
            f, _ = x.cls.find('__str__')
            if f is not None:
                return I.call(I.getattr(x, '__str__'), [])
            return exc_text(x)
        if isinstance(x, BaseException):
            return exc_text(x)
        if isinstance(x, S):
            c = x.const()
            return '<sym>' if c is None else str(float(c) if not isinstance(c, bool) else c)
        return x if isinstance(x, str) else (str(x) if isinstance(x, (int, bool, type(None))) else f'<{type(x).__name__}>')

    B['range'] = rng
    B['len'] = ln
    B['print'] = lambda *a, **k: None
    B['input'] = lambda *a: Opaque('input')
    B['isinstance'] = isinst
    B['issubclass'] = lambda c, t: any(issub(c, x) for x in (t if isinstance(t, tuple) else (t,)))

    def issub(c, t):
        if isinstance(c, IClass):
            return t in c.mro or (isinstance(t, type) and c.native_base() is not None and issubclass(c.native_base(), t))
        return isinstance(c, type) and isinstance(t, type) and issubclass(c, t)
    B['hasattr'] = lambda o, n: I.hasattr(o, n)
    B['getattr'] = lambda o, n, *d: I.getattr(o, n, d[0], True) if d else I.getattr(o, n)
    B['setattr'] = lambda o, n, v: I.setattr(o, n, v)

    def delattr_(o, n):
        if isinstance(o, (Obj, Opaque)) and n in o.attrs:
            del o.attrs[n]
            return None
        raise PyRaise(AttributeError(n), I.where())
    B['delattr'] = delattr_
    tt = lambda n, p, c, nat=None: TypeTok(n, p, c, nat)
    B['float'] = tt('float', isfloat, mk_float, float)
    B['int'] = tt('int', lambda x: isinstance(x, int), mk_int, int)
    B['bool'] = tt('bool', lambda x: isbool(x), mk_bool, bool)
    B['str'] = tt('str', lambda x: isinstance(x, str), mk_str, str)
    B['list'] = tt('list', lambda x: isinstance(x, list), mk_list, list)
    B['tuple'] = tt('tuple', lambda x: isinstance(x, tuple) or (isinstance(x, Obj) and x.cls.tuplelike), lambda x=(): tuple(I.iterate(x)), tuple)
    B['dict'] = tt('dict', lambda x: isinstance(x, dict), mk_dict, dict)
    B['set'] = tt('set', lambda x: isinstance(x, set), lambda x=(): set(I.iterate(x)), set)
    B['frozenset'] = tt('frozenset', lambda x: isinstance(x, frozenset), lambda x=(): frozenset(I.iterate(x)), frozenset)
    B['complex'] = tt('complex', lambda x: False, lambda *a: Opaque('complex'))
    B['bytes'] = tt('bytes', lambda x: isinstance(x, bytes), lambda *a: b'')
    B['object'] = Opaque('object')
    B['object'].attrs['__setattr__'] = lambda o, n, v: o.attrs.__setitem__(n, v)
    B['object'].attrs['__getattribute__'] = lambda o, n: I.getattr(o, n)
    B['object'].attrs['__delattr__'] = lambda o, n: o.attrs.pop(n, None)
    B['object'].attrs['__init__'] = lambda *a, **k: None
    B['object'].attrs['__new__'] = lambda c, *a, **k: Obj(c)

    def typ(*a):
        if len(a) == 3:
            n, bases, ns = a
            return IClass(n, list(bases), dict(ns), None)
        x = a[0]
        if isinstance(x, Obj):
            return x.cls
        for n in ('bool', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'set'):
            if B[n].pred(x):
                return B[n]
        if isinstance(x, BaseException):
            return type(x)
        if isinstance(x, Arr):
            return jnp['ndarray']
        return Opaque('type')
    B['type'] = typ

    def cmpkey(key):
        def lt(a, b):
            ka, kb = (I.call(key, [a]), I.call(key, [b])) if key is not None else (a, b)
            if I.truth(I.compare('lt', ka, kb)):
                return -1
            return 1 if I.truth(I.compare('lt', kb, ka)) else 0
        return functools.cmp_to_key(lt)

    def sorted_(x, key=None, reverse=False):
        xs = list(I.iterate(x))
        if any(isinstance(y, Opaque) for y in xs):
            return xs
        return sorted(xs, key=cmpkey(key), reverse=bool(reverse))
    B['sorted'] = sorted_

    def ext(sel, less):
        def f(*a, key=None, default=MISSING):
            xs = list(I.iterate(a[0])) if len(a) == 1 else list(a)
            if not xs:
                if default is not MISSING:
                    return default
                raise PyRaise(ValueError('min()/max() of an empty sequence'), I.where())
            xs = [unwrap0(x) for x in xs]
            if key is None and all(is_scalar(x) for x in xs):
                if all(isinstance(x, int) for x in xs):
                    return max(xs) if sel is T.maximum else min(xs)
                r = xs[0]
                for x in xs[1:]:
                    r = sel(r, x)
                return T.to_num(r)
            best = xs[0]
            for x in xs[1:]:
                kx, kb = (I.call(key, [x]), I.call(key, [best])) if key is not None else (x, best)
                if I.truth(I.compare(less, kx, kb)):
                    best = x
            return best
        return f
    B['min'] = ext(T.minimum, 'lt')
    B['max'] = ext(T.maximum, 'gt')
    B['abs'] = lambda x: abs(x) if isinstance(x, int) else (ew(T.absv, x) if not isinstance(x, Opaque) else Opaque('abs'))

    def summ(x, start=0):
        r = start
        for y in I.iterate(x):
            r = I.binop('add', r, y)
        return r
    B['sum'] = summ

    def rnd(x, n=None):
        x = unwrap0(x)
        if isinstance(x, int):
            return x
        if isinstance(x, Opaque):
            return Opaque('round')
        if n is None:
            r = T.rnd(x)
            return int(r.const()) if r.const() is not None else r
        return jnp['round'](x, n)
    B['round'] = rnd
    B['pow'] = lambda a, b, *c: I.binop('pow', a, b) if not c else pow(cint(a), cint(b), cint(c[0]))
    B['divmod'] = lambda a, b: (I.binop('floordiv', a, b), I.binop('mod', a, b))

    def zp(*xs, strict=False):
        ls = [I.iterate(x) for x in xs]
        return zip(*ls, strict=bool(strict))
    B['zip'] = zp
    B['enumerate'] = lambda x, start=0: enumerate(I.iterate(x), cint(start))
    B['map'] = lambda f, *xs: (I.call(f, list(a)) for a in zip(*[I.iterate(x) for x in xs]))
    B['filter'] = lambda f, xs: (x for x in I.iterate(xs) if I.truth(I.call(f, [x]) if f is not None else x))

    def any_(x):
        r = T.boolean(False)
        for y in I.iterate(x):
            if isinstance(y, S):
                r = T.bor(r, T.to_bool(y))
            elif I.truth(y):
                return True
        c = r.const()
        return c if c is not None else r

    def all_(x):
        r = T.boolean(True)
        for y in I.iterate(x):
            if isinstance(y, S):
                r = T.band(r, T.to_bool(y))
            elif not I.truth(y):
                return False
        c = r.const()
        return c if c is not None else r
    B['any'], B['all'] = any_, all_
    B['reversed'] = lambda x: reversed(list(I.iterate(x)))
    B['iter'] = lambda x: iter(list(I.iterate(x))) if not hasattr(x, '__next__') else x

    def nxt(it, *d):
        try:
            return next(it)
        except StopIteration:
            if d:
                return d[0]
            raise PyRaise(StopIteration(), I.where())
        except TypeError:
            xs = list(I.iterate(it))
            if xs:
                return xs[0]
            if d:
                return d[0]
            raise PyRaise(StopIteration(), I.where())
    B['next'] = nxt
    B['callable'] = lambda f: isinstance(f, (Func, Bound, JitFunc, Partial, IClass, TypeTok)) or (isinstance(f, Obj) and f.cls.find('__call__')[1] is not None) or (callable(f) and not isinstance(f, (Opaque,)))
    B['id'] = lambda x: id(x)
    B['hash'] = lambda x: id(x)
    B['repr'] = lambda x: repr(x) if isinstance(x, str) else mk_str(x)
    B['slice'] = lambda *a: slice(*[None if x is None else I.as_index(x) for x in a])
    B['property'] = lambda f, *a: Property(f, a[0] if a else None)
    B['staticmethod'] = lambda f: StaticM(f)
    B['classmethod'] = lambda f: ClassM(f)
    B['super'] = lambda c=None, s=None: Super(c, s)
    B['vars'] = lambda o: o.attrs if isinstance(o, (Obj, Opaque)) else o.ns if isinstance(o, (Module, IClass)) else _attr_err(o)
    B['dir'] = lambda o: sorted(set(o.attrs) | {n for c in o.cls.mro for n in c.ns}) if isinstance(o, Obj) else []
    B['open'] = lambda *a, **k: _open(*a, **k)
    B['format'] = lambda x, s='': (lambda v: format(v, s) if isinstance(v, (int, float, str, bool)) and v != '<sym>' else mk_str(x))(I.plain(x))
    B['ord'], B['chr'] = ord, chr
    B['NotImplemented'] = Opaque('NotImplemented')
    B['Ellipsis'] = Ellipsis
    B['__import__'] = lambda n, *a: I.import_name(n)
    B['exec'] = B['eval'] = lambda *a: _unm('exec/eval')
    B['memoryview'] = Opaque('memoryview')
    B['__debug__'] = True

    def _unm(s):
        raise Unmodelled(s)

    def _attr_err(o):
        raise PyRaise(TypeError('vars() argument must have __dict__'), I.where())

    def _open(*a, **k):
        o = Opaque('file', a, k)
        I.effect('open', None, a, k, o)
        return o
    import builtins as _b
    for n in dir(_b):
        v = getattr(_b, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            B[n] = v
    return B
