"""Hash-consed value graph: the abstract domain of the analysis.

A scalar of the analysed program is abstracted by its *value number*: an
interned decision diagram whose inner nodes test boolean atoms (comparisons,
boolean inputs) and whose leaves are polynomials with exact rational
coefficients over interned atoms (inputs, sin/cos/tan, sqrt, max, ...).  Two
program values with the same value number are equal for every input: that is
the proof rule.  Values whose numbers differ are compared by random
interpretation (Gulwani & Necula): both graphs - never the program - are
evaluated at sampled points of the abstract inputs; only a robust difference
makes a violation.
"""
from __future__ import annotations
import math, sys, zlib
from fractions import Fraction as F
import numpy as np

sys.setrecursionlimit(200000)

LEAF_LIMIT = 300        # leaves of a numeric decision diagram before freezing
BDD_LIMIT = 4000        # nodes of a boolean diagram before freezing
POLY_LIMIT = 160        # monomials before a polynomial becomes a named atom
MUL_LIMIT = 6000        # monomial products per multiplication

INF = float('inf')


class Atom:
    __slots__ = ('id', 'op', 'args', 'lo', 'hi', 'meta', 'isbool')

    def __repr__(self):
        return show_atom(self)


class Poly:
    __slots__ = ('id', 't', '_iv', '_items')

    def items(self):
        return self._items

    def const(self):
        if not self.t:
            return F(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __repr__(self):
        return show_poly(self)


class Dec:
    __slots__ = ('id', 'var', 'hi', 'lo', 'val', 'leaves', 'nodes')

    def __repr__(self):
        return show_dec(self)


class Overflow(Exception):
    pass


class Ctx:
    """interning tables (one per analysis process)"""

    def __init__(self):
        self.atoms = []
        self.akey = {}
        self.pkey = {}
        self.dkey = {}
        self.cache = {}
        self.nd = 0
        self.np_ = 0


C = Ctx()
STAT = {'atoms': 0, 'polys': 0, 'decs': 0, 'freezes': 0}


def reset():
    global C, ZERO, ONE, PI, TRUE, FALSE, D0, D1
    C = Ctx()
    _boot()


# ----------------------------------------------------------------- atoms
def atom(op, args=(), isbool=False, lo=-INF, hi=INF, meta=None):
    key = (op, isbool) + tuple(args)
    a = C.akey.get(key)
    if a is None:
        a = Atom()
        a.id = len(C.atoms)
        a.op = op
        a.args = tuple(args)
        a.lo, a.hi = lo, hi
        a.meta = meta
        a.isbool = isbool
        C.atoms.append(a)
        C.akey[key] = a
    return a


# ----------------------------------------------------------------- polys
def mkpoly(t):
    """t: dict monomial -> Fraction; monomial: tuple of (atom id, exponent)"""
    t = {m: c for m, c in t.items() if c != 0}
    key = frozenset(t.items())
    p = C.pkey.get(key)
    if p is None:
        p = Poly()
        p.t = t
        p._items = sorted(t.items(), key=lambda kv: (len(kv[0]), kv[0]))
        C.np_ += 1
        p.id = C.np_
        p._iv = None
        C.pkey[key] = p
    return p


def pconst(c):
    return mkpoly({(): F(c)})


def patom(a, e=1):
    return mkpoly({((a.id, e),): F(1)})


def padd(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    t = dict(p.t)
    for m, c in q.t.items():
        n = t.get(m, 0) + c
        if n:
            t[m] = n
        else:
            t.pop(m, None)
    return mkpoly(t)


def pscale(p, k):
    if k == 1:
        return p
    if k == 0:
        return ZERO
    return mkpoly({m: c * k for m, c in p.t.items()})


def pneg(p):
    return pscale(p, F(-1))


def _mono_mul(m1, m2):
    """returns (monomial, needs_reduction)"""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    red = False
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = n
            if n >= 2 and C.atoms[a].op in ('sin', 'sqrt', 'abs', 'ind'):
                red = True
    return tuple(sorted(d.items())), red


def _reduce_mono(m, c):
    """expand reducible powers of one monomial into a polynomial"""
    rest = []
    res = pconst(c)
    for a, e in m:
        A = C.atoms[a]
        if e >= 2 and A.op == 'sin':
            cs = patom(_cos_atom(A.args[0]))
            f = padd(ONE, pneg(pmul(cs, cs)))
            for _ in range(e // 2):
                res = pmul(res, f)
            if e % 2:
                rest.append((a, 1))
        elif e >= 2 and A.op in ('sqrt', 'abs'):
            arg = PBYID(A.args[0])
            f = arg if A.op == 'sqrt' else pmul(arg, arg)
            for _ in range(e // 2):
                res = pmul(res, f)
            if e % 2:
                rest.append((a, 1))
        elif e >= 2 and A.op == 'ind':
            rest.append((a, 1))
        else:
            rest.append((a, e))
    if rest:
        res = pmul(res, mkpoly({tuple(rest): F(1)}))
    return res


def PBYID(p):
    return p            # args hold Poly objects directly


def let(p):
    """name a large polynomial"""
    if len(p.t) <= 1:
        return p
    # canonical scale so that equal-up-to-sign values share the atom
    k = p._items[-1][1]
    q = pscale(p, 1 / k)
    lo, hi = interval(q)
    STAT['freezes'] += 1
    return pscale(patom(atom('let', (q,), lo=lo, hi=hi)), k)


def pmul(p, q):
    if not p.t or not q.t:
        return ZERO
    c = p.const()
    if c is not None:
        return pscale(q, c)
    c = q.const()
    if c is not None:
        return pscale(p, c)
    key = ('p*', p.id, q.id) if p.id <= q.id else ('p*', q.id, p.id)
    r = C.cache.get(key)
    if r is not None:
        return r
    p0, q0 = p, q
    if len(p.t) * len(q.t) > MUL_LIMIT or len(p.t) > POLY_LIMIT or len(q.t) > POLY_LIMIT:
        if len(p.t) >= len(q.t):
            p = let(p)
        else:
            q = let(q)
        if len(p.t) * len(q.t) > MUL_LIMIT:
            p, q = let(p), let(q)
    t = {}
    extra = []
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m, red = _mono_mul(m1, m2)
            if red:
                extra.append(_reduce_mono(m, c1 * c2))
            else:
                t[m] = t.get(m, 0) + c1 * c2
    r = mkpoly(t)
    for x in extra:
        r = padd(r, x)
    if len(r.t) > 4 * POLY_LIMIT:
        r = let(r)
    C.cache[key] = r
    return r


def _content(p):
    """split p = k * q with q's last monomial having coefficient 1"""
    k = p._items[-1][1]
    return k, pscale(p, 1 / k)


def pinv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return patom(atom('divzero'))
        return pconst(1 / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return mkpoly({tuple((a, -e) for a, e in m): 1 / c})
    k, q = _content(p)
    # pull out a common monomial factor
    common = None
    for m in q.t:
        d = dict(m)
        if common is None:
            common = {a: e for a, e in d.items() if e > 0}
        else:
            common = {a: min(e, d.get(a, 0)) for a, e in common.items() if d.get(a, 0) > 0}
        if not common:
            break
    fac = ONE
    if common:
        inv = mkpoly({tuple(sorted((a, -e) for a, e in common.items())): F(1)})
        q = pmul(q, inv)
        fac = inv
        k2, q = _content(q)
        k = k * k2
    if len(q.t) == 1:
        return pmul(pmul(pconst(1 / k), fac), pinv(q))
    lo, hi = interval(q)
    l2, h2 = -INF, INF
    if lo > 0 or hi < 0:
        l2, h2 = sorted((1 / hi if hi not in (INF, -INF) else 0.0, 1 / lo if lo not in (INF, -INF) else 0.0))
    a = atom('inv', (q,), lo=l2, hi=h2)
    return pmul(pmul(pconst(1 / k), fac), patom(a))


def pdiv(p, q):
    if p is q:
        return ONE
    c = q.const()
    if c is not None and c != 0:
        return pscale(p, 1 / c)
    # proportional polynomials
    if p.t and len(p.t) == len(q.t) and len(p.t) > 1:
        kp, pp = _content(p)
        kq, qq = _content(q)
        if pp is qq:
            return pconst(kp / kq)
    return pmul(p, pinv(q))


def ppow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return pinv(ppow(p, -n))
    r = p
    for _ in range(n - 1):
        r = pmul(r, p)
    return r


# ------------------------------------------------------------- intervals
def _imul(a, b):
    (al, ah), (bl, bh) = a, b
    if (al, ah) == (0, 0) or (bl, bh) == (0, 0):
        return (0.0, 0.0)
    ps = []
    for x in (al, ah):
        for y in (bl, bh):
            if (x == 0 and abs(y) == INF) or (y == 0 and abs(x) == INF):
                ps.append(0.0)
            else:
                ps.append(x * y)
    return (min(ps), max(ps))


def _ipow(a, e):
    lo, hi = a
    if e < 0:
        if lo > 0 or hi < 0:
            il = 1.0 / hi if abs(hi) != INF else 0.0
            ih = 1.0 / lo if abs(lo) != INF else 0.0
            return _ipow((min(il, ih), max(il, ih)), -e)
        if lo == 0 and hi > 0:
            return _ipow((1.0 / hi if hi != INF else 0.0, INF), -e)
        return (-INF, INF)
    if e == 1:
        return a
    if e % 2 == 0:
        m = max(abs(lo), abs(hi))
        if lo <= 0 <= hi:
            return (0.0, m ** e if m != INF else INF)
        n = min(abs(lo), abs(hi))
        return (n ** e, m ** e if m != INF else INF)
    return (lo ** e if abs(lo) != INF else lo, hi ** e if abs(hi) != INF else hi)


def interval(p):
    if p._iv is not None:
        return p._iv
    lo = hi = 0.0
    for m, c in p.t.items():
        iv = (1.0, 1.0)
        for a, e in m:
            A = C.atoms[a]
            iv = _imul(iv, _ipow((A.lo, A.hi), e))
        fc = float(c)
        iv = _imul(iv, (fc, fc))
        lo += iv[0]
        hi += iv[1]
        if lo == -INF and hi == INF:
            break
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    p._iv = (lo, hi)
    return p._iv


SLACK = 1e-9


# ------------------------------------------------------- decision diagrams
def leaf(v):
    key = ('L', v) if isinstance(v, bool) else ('P', v.id)
    d = C.dkey.get(key)
    if d is None:
        d = Dec()
        d.var = None
        d.hi = d.lo = None
        d.val = v
        C.nd += 1
        d.id = C.nd
        d.leaves = 1
        d.nodes = 1
        C.dkey[key] = d
    return d


def node(var, hi, lo):
    if hi is lo:
        return hi
    key = (var, hi.id, lo.id)
    d = C.dkey.get(key)
    if d is None:
        d = Dec()
        d.var, d.hi, d.lo, d.val = var, hi, lo, None
        C.nd += 1
        d.id = C.nd
        d.leaves = min(hi.leaves + lo.leaves, 10 ** 9)
        d.nodes = min(hi.nodes + lo.nodes + 1, 10 ** 9)
        C.dkey[key] = d
    return d


def _boot():
    global ZERO, ONE, PI, TRUE, FALSE, D0, D1, PIA
    ZERO = mkpoly({})
    ONE = mkpoly({(): F(1)})
    PIA = atom('pi', lo=math.pi - 1e-12, hi=math.pi + 1e-12)
    PI = patom(PIA)
    TRUE = leaf(True)
    FALSE = leaf(False)
    D0 = leaf(ZERO)
    D1 = leaf(ONE)


_boot()


def iff_atom(a):
    return node(a.id, TRUE, FALSE)


def freeze_num(d):
    if d.var is None:
        return d
    lo, hi = dec_interval(d)
    STAT['freezes'] += 1
    return leaf(patom(atom('ite', (d,), lo=lo, hi=hi)))


def freeze_bool(d):
    if d.var is None or (d.hi is TRUE and d.lo is FALSE):
        return d
    STAT['freezes'] += 1
    return iff_atom(atom('bfrz', (d,), isbool=True))


def dec_interval(d):
    key = ('div', d.id)
    r = C.cache.get(key)
    if r is None:
        if d.var is None:
            r = interval(d.val)
        else:
            a, b = dec_interval(d.hi), dec_interval(d.lo)
            r = (min(a[0], b[0]), max(a[1], b[1]))
        C.cache[key] = r
    return r


def _apply(name, f, ds, budget):
    """n-ary apply of leaf function f over diagrams ds (memoised, budgeted)"""
    key = ('ap', name) + tuple(d.id for d in ds)
    r = C.cache.get(key)
    if r is not None:
        return r
    vs = [d.var for d in ds if d.var is not None]
    if not vs:
        r = f(*[d.val for d in ds])
        if not isinstance(r, Dec):
            r = leaf(r)
    else:
        budget[0] -= 1
        if budget[0] < 0:
            raise Overflow()
        v = min(vs)
        hi = _apply(name, f, [d.hi if d.var == v else d for d in ds], budget)
        lo = _apply(name, f, [d.lo if d.var == v else d for d in ds], budget)
        if isinstance(r_ := hi, Dec) and (_mixed(v, hi) or _mixed(v, lo)):
            r = _ite(v, hi, lo, budget)
        else:
            r = node(v, hi, lo)
    C.cache[key] = r
    return r


def _mixed(v, d):
    return d.var is not None and d.var <= v


def _ite(v, hi, lo, budget):
    """if atom v then hi else lo, when hi/lo may test atoms ordered before v"""
    key = ('ite_', v, hi.id, lo.id)
    r = C.cache.get(key)
    if r is not None:
        return r
    budget[0] -= 1
    if budget[0] < 0:
        raise Overflow()
    vs = [d.var for d in (hi, lo) if d.var is not None and d.var <= v]
    if not vs:
        r = node(v, hi, lo)
    else:
        w = min(vs)
        if w == v:
            r = _ite(v, hi.hi if hi.var == v else hi, lo.lo if lo.var == v else lo, budget)
        else:
            a = _ite(v, hi.hi if hi.var == w else hi, lo.hi if lo.var == w else lo, budget)
            b = _ite(v, hi.lo if hi.var == w else hi, lo.lo if lo.var == w else lo, budget)
            r = node(w, a, b)
    C.cache[key] = r
    return r


def napply(name, f, *ds):
    """numeric apply with freezing on blow-up"""
    ds = list(ds)
    while True:
        if all(d.var is None for d in ds):
            r = f(*[d.val for d in ds])
            r = r if isinstance(r, Dec) else leaf(r)
            return r
        try:
            r = _apply(name, f, ds, [LEAF_LIMIT])
            if r.leaves > LEAF_LIMIT and r.var is not None and not is_bool(r):
                return freeze_num(r)
            return r
        except Overflow:
            k = max(range(len(ds)), key=lambda i: ds[i].leaves)
            ds[k] = freeze_bool(ds[k]) if is_bool(ds[k]) else freeze_num(ds[k])


def is_bool(d):
    while d.var is not None:
        d = d.hi
    return isinstance(d.val, bool)


def bapply(name, f, *ds):
    ds = list(ds)
    while True:
        try:
            return _apply(name, f, ds, [BDD_LIMIT])
        except Overflow:
            k = max(range(len(ds)), key=lambda i: ds[i].nodes)
            ds[k] = freeze_bool(ds[k])


# boolean ops
def b_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return bapply('and', lambda x, y: x and y, a, b)


def b_not(a):
    return bapply('not', lambda x: not x, a)


def b_or(a, b):
    return b_not(b_and(b_not(a), b_not(b)))


def b_xor(a, b):
    return bapply('xor', lambda x, y: x != y, a, b)


def d_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    isb = is_bool(a)
    lim = BDD_LIMIT if isb else LEAF_LIMIT
    while True:
        try:
            r = _ite3(c, a, b, [lim])
            if not isb and r.leaves > LEAF_LIMIT and r.var is not None:
                return freeze_num(r)
            return r
        except Overflow:
            cand = [('a', a.leaves), ('b', b.leaves), ('c', c.leaves)]
            w = max(cand, key=lambda kv: kv[1])[0]
            if w == 'c':
                c = freeze_bool(c)
            elif w == 'a':
                a = freeze_bool(a) if isb else freeze_num(a)
            else:
                b = freeze_bool(b) if isb else freeze_num(b)


def _ite3(c, a, b, budget):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = ('ite3', c.id, a.id, b.id)
    r = C.cache.get(key)
    if r is not None:
        return r
    budget[0] -= 1
    if budget[0] < 0:
        raise Overflow()
    v = min(d.var for d in (c, a, b) if d.var is not None)
    f = lambda d, side: (getattr(d, side) if d.var == v else d)
    r = node(v, _ite3(f(c, 'hi'), f(a, 'hi'), f(b, 'hi'), budget),
             _ite3(f(c, 'lo'), f(a, 'lo'), f(b, 'lo'), budget))
    C.cache[key] = r
    return r


# numeric leaf functions -------------------------------------------------
def _norm_angle(p, period=2):
    """strip multiples of period*pi; returns (poly, k) with pi coefficient in [0, period) -> moved to k"""
    m = ((PIA.id, 1),)
    k = p.t.get(m, F(0))
    if k:
        t = dict(p.t)
        t.pop(m)
        p = mkpoly(t)
    k = k % period
    return p, k


def _sign_norm(p):
    if p.t and p._items[-1][1] < 0:
        return pneg(p), -1
    return p, 1


def _cos_atom(p):
    return atom('cos', (p,), **_cos_range(p, 0.0))


def _cos_range(p, shift):
    """bounds of cos(p - shift)"""
    lo, hi = interval(p)
    if not hi - lo < 6.28 or abs(lo) > 1e6:
        return dict(lo=-1, hi=1)
    a, b = lo - shift, hi - shift
    v = [math.cos(a), math.cos(b)]
    k0, k1 = math.ceil(a / math.pi - 1e-9), math.floor(b / math.pi + 1e-9)
    v += [1.0 if k % 2 == 0 else -1.0 for k in range(k0, k1 + 1)]
    return dict(lo=max(-1, min(v) - 1e-9), hi=min(1, max(v) + 1e-9))


def p_sin(p):
    p, k = _norm_angle(p)
    if k == 1:
        return pneg(p_sin(p))
    if k == F(1, 2):
        return p_cos(p)
    if k == F(3, 2):
        return pneg(p_cos(p))
    if k:
        p = padd(p, pscale(PI, k))
    if not p.t:
        return ZERO
    p, s = _sign_norm(p)
    return pscale(patom(atom('sin', (p,), **_cos_range(p, math.pi / 2))), F(s))


def p_cos(p):
    p, k = _norm_angle(p)
    if k == 1:
        return pneg(p_cos(p))
    if k == F(1, 2):
        return pneg(p_sin(p))
    if k == F(3, 2):
        return p_sin(p)
    if k:
        p = padd(p, pscale(PI, k))
    if not p.t:
        return ONE
    p, s = _sign_norm(p)
    return patom(_cos_atom(p))


def p_tan(p):
    p, k = _norm_angle(p, 1)
    if k:
        p = padd(p, pscale(PI, k))
    if not p.t:
        return ZERO
    p, s = _sign_norm(p)
    return pscale(patom(atom('tan', (p,))), F(s))


def _perfect(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def p_sqrt(p):
    c = p.const()
    if c is not None:
        if c < 0:
            return patom(atom('nan'))
        a, b = _perfect(c.numerator), _perfect(c.denominator)
        if a is not None and b is not None:
            return pconst(F(a, b))
    if not p.t:
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(e % 2 == 0 for _, e in m) and c > 0:
            a, b = _perfect(c.numerator), _perfect(c.denominator)
            if a is not None and b is not None:
                r = mkpoly({tuple((x, e // 2) for x, e in m): F(a, b)})
                return p_abs(r)
    lo, hi = interval(p)
    lo = math.sqrt(max(lo, 0.0)) if lo != INF else INF
    hi = math.sqrt(max(hi, 0.0)) if hi != INF else INF
    return patom(atom('sqrt', (p,), lo=lo, hi=hi))


def p_abs(p):
    lo, hi = interval(p)
    if lo >= 0:
        return p
    if hi <= 0:
        return pneg(p)
    k, q = _content(p)
    h = max(abs(lo), abs(hi)) / abs(float(k))
    return pscale(patom(atom('abs', (q,), lo=0.0, hi=h)), abs(k))


def p_max(*ps):
    args = {}
    for p in ps:
        # flatten
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1 and C.atoms[m[0][0]].op == 'max':
                for x in C.atoms[m[0][0]].args:
                    args[x.id] = x
                continue
        args[p.id] = p
    lst = list(args.values())
    # drop dominated arguments
    keep = []
    for p in lst:
        dom = False
        for q in lst:
            if q is p:
                continue
            lo, hi = interval(padd(q, pneg(p)))
            if lo > 0 or (lo >= 0 and q.id < p.id) or (lo >= 0 and not (interval(padd(p, pneg(q)))[0] >= 0)):
                dom = True
                break
        if not dom:
            keep.append(p)
    if not keep:
        keep = lst[:1]
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=lambda p: p.id)
    ivs = [interval(p) for p in keep]
    return patom(atom('max', tuple(keep), lo=max(i[0] for i in ivs), hi=max(i[1] for i in ivs)))


def p_min(*ps):
    return pneg(p_max(*[pneg(p) for p in ps]))


def p_exp(p):
    if not p.t:
        return ONE
    lo, hi = interval(p)
    f = lambda x: 0.0 if x == -INF else (INF if x > 700 else math.exp(x))
    return patom(atom('exp', (p,), lo=f(lo), hi=f(hi)))


def p_log(p):
    if p is ONE:
        return ZERO
    return patom(atom('log', (p,)))


def p_mod(p, m):
    """python/numpy floored modulo"""
    mc = m.const()
    pc = p.const()
    if mc is not None and pc is not None and mc != 0:
        return pconst(pc - mc * (pc / mc).__floor__())
    # strip integer multiples of the modulus
    if len(m.t) == 1:
        (mm, c), = m.t.items()
        k = p.t.get(mm, F(0)) / c
        if mm != () or True:
            fl = k.__floor__() if mm != () else 0
            if fl:
                p = padd(p, pscale(m, F(-fl)))
    lo, hi = interval(m)
    plo, phi = interval(p)
    if lo > 0 and plo >= 0 and phi < lo:
        return p
    return patom(atom('mod', (p, m), lo=0.0 if lo > 0 else -INF, hi=hi if lo > 0 else INF))


def p_floor(p):
    c = p.const()
    if c is not None:
        return pconst(c.__floor__())
    lo, hi = interval(p)
    return patom(atom('floor', (p,), lo=lo - 1, hi=hi))


def p_round(p):
    c = p.const()
    if c is not None:
        return pconst(round(c))
    lo, hi = interval(p)
    return patom(atom('round', (p,), lo=lo - 1, hi=hi + 1))


def p_lt(p, q):
    """p < q  as a boolean diagram"""
    d = padd(p, pneg(q))
    lo, hi = interval(d)
    if hi < 0:
        return TRUE
    if lo >= 0:
        return FALSE
    c = d.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    if len(d.t) > 2 * POLY_LIMIT:
        d = let(d)
    k, n = _content(d)
    # strip positive monomial factors (signs of positive atoms do not matter)
    n = _strip_positive(n)
    k2, n = _content(n)
    k = k * k2
    op = 'LT' if k > 0 else 'GT'
    return iff_atom(atom(op, (n,), isbool=True))


def _strip_positive(n):
    common = None
    for m in n.t:
        d = {a: e for a, e in m if C.atoms[a].lo > 0}
        if common is None:
            common = d
        else:
            common = {a: e for a, e in common.items() if d.get(a) == e}
        if not common:
            return n
    inv = mkpoly({tuple(sorted((a, -e) for a, e in common.items())): F(1)})
    return pmul(n, inv)


def p_eq(p, q):
    d = padd(p, pneg(q))
    c = d.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    lo, hi = interval(d)
    if lo > 0 or hi < 0:
        return FALSE
    return b_not(b_or(p_lt(p, q), p_lt(q, p)))


# ------------------------------------------------------------ scalar wrapper
class S:
    """scalar abstract value; b: boolean-valued"""
    __slots__ = ('d', 'b')

    def __init__(self, d, b=False):
        self.d = d
        self.b = b

    def __eq__(self, o):
        return isinstance(o, S) and self.d is o.d

    def __hash__(self):
        return hash(self.d.id)

    def __repr__(self):
        return show_dec(self.d, 400)

    def const(self):
        if self.d.var is not None:
            return None
        if isinstance(self.d.val, bool):
            return self.d.val
        return self.d.val.const()


def num(c):
    return S(leaf(pconst(c)))


def flt(x):
    """float literal -> exact decimal"""
    if x != x:
        return S(leaf(patom(atom('nan'))))
    if x in (INF, -INF):
        return S(leaf(pscale(patom(atom('inf', lo=1e300, hi=INF)), F(1 if x > 0 else -1))))
    return num(F(repr(float(x))))


def boolean(v):
    return S(TRUE if v else FALSE, True)


def sym(name, lo=-INF, hi=INF, kind='real'):
    return S(leaf(patom(atom('sym', (name,), lo=lo, hi=hi, meta=kind))))


def bsym(name):
    return S(iff_atom(atom('bsym', (name,), isbool=True)), True)


def uf(name, args, lo=-INF, hi=INF):
    """uninterpreted function application"""
    ds = tuple(to_num(a).d for a in args)
    return S(leaf(patom(atom('uf', (name,) + ds, lo=lo, hi=hi))))


def buf(name, args):
    ds = tuple(to_num(a).d for a in args)
    return S(iff_atom(atom('buf', (name,) + ds, isbool=True)), True)


def to_num(x):
    """coerce python number / S to numeric S"""
    if isinstance(x, S):
        if x.b:
            return S(d_ite(x.d, D1, D0))
        return x
    if isinstance(x, bool):
        return num(int(x))
    if isinstance(x, int):
        return num(x)
    if isinstance(x, F):
        return num(x)
    if isinstance(x, float):
        return flt(x)
    if isinstance(x, np.bool_):
        return num(int(x))
    if isinstance(x, np.integer):
        return num(int(x))
    if isinstance(x, np.floating):
        return flt(float(x))
    raise TypeError(f'not numeric: {type(x).__name__} {x!r}')


def to_bool(x):
    """truth value as boolean S"""
    if isinstance(x, S):
        if x.b:
            return x
        return S(napply('ne0', lambda p: b_not(p_eq(p, ZERO)), x.d), True)
    if isinstance(x, (bool, int, np.bool_, np.integer)):
        return boolean(bool(x))
    raise TypeError(f'not boolean: {type(x).__name__} {x!r}')


def add(a, b):
    return S(napply('add', padd, to_num(a).d, to_num(b).d))


def sub(a, b):
    return S(napply('sub', lambda p, q: padd(p, pneg(q)), to_num(a).d, to_num(b).d))


def mul(a, b):
    return S(napply('mul', pmul, to_num(a).d, to_num(b).d))


def div(a, b):
    return S(napply('div', pdiv, to_num(a).d, to_num(b).d))


def neg(a):
    return S(napply('neg', pneg, to_num(a).d))


def un(name, f, a):
    return S(napply(name, f, to_num(a).d))


def sin(a): return un('sin', p_sin, a)
def cos(a): return un('cos', p_cos, a)
def tan(a): return un('tan', p_tan, a)
def sqrt(a): return un('sqrt', p_sqrt, a)
def absv(a): return un('abs', p_abs, a)
def exp(a): return un('exp', p_exp, a)
def log(a): return un('log', p_log, a)
def floor(a): return un('floor', p_floor, a)
def rnd(a): return un('round', p_round, a)


def mod(a, b):
    return S(napply('mod', p_mod, to_num(a).d, to_num(b).d))


def maximum(a, b):
    return S(napply('max', p_max, to_num(a).d, to_num(b).d))


def minimum(a, b):
    return S(napply('min', p_min, to_num(a).d, to_num(b).d))


def maxn(xs):
    ds = [to_num(x).d for x in xs]
    if all(d.var is None for d in ds):
        return S(leaf(p_max(*[d.val for d in ds])))
    r = S(ds[0])
    for d in ds[1:]:
        r = maximum(r, S(d))
    return r


def minn(xs):
    return neg(maxn([neg(x) for x in xs]))


def lt(a, b):
    return S(napply('lt', p_lt, to_num(a).d, to_num(b).d), True)


def gt(a, b): return lt(b, a)
def le(a, b): return bnot(lt(b, a))
def ge(a, b): return bnot(lt(a, b))


def eq(a, b):
    if isinstance(a, S) and a.b and isinstance(b, (S, bool)) and (isinstance(b, bool) or b.b):
        return bnot(bxor(a, to_bool(b)))
    return S(napply('eq', p_eq, to_num(a).d, to_num(b).d), True)


def ne(a, b): return bnot(eq(a, b))
def bnot(a): return S(b_not(to_bool(a).d), True)
def band(a, b): return S(b_and(to_bool(a).d, to_bool(b).d), True)
def bor(a, b): return S(b_or(to_bool(a).d, to_bool(b).d), True)
def bxor(a, b): return S(b_xor(to_bool(a).d, to_bool(b).d), True)


def ite(c, a, b):
    c = to_bool(c)
    if isinstance(a, bool):
        a = boolean(a)
    if isinstance(b, bool):
        b = boolean(b)
    if isinstance(a, S) and a.b and isinstance(b, S) and b.b:
        return S(d_ite(c.d, a.d, b.d), True)
    return S(d_ite(c.d, to_num(a).d, to_num(b).d))


def power(a, n):
    if isinstance(n, S):
        c = n.const()
        if c is not None and c.denominator == 1:
            n = int(c)
        elif c == F(1, 2):
            return sqrt(a)
        elif c == F(-1, 2):
            return div(1, sqrt(a))
    if isinstance(n, F):
        n = int(n) if n.denominator == 1 else n
    if isinstance(n, int) and not isinstance(n, bool) and abs(n) <= 12:
        return S(napply('pow%d' % n, lambda p: ppow(p, n), to_num(a).d))
    return S(napply('powx', lambda p, q: patom(atom('pow', (p, q))), to_num(a).d, to_num(n).d))


def fn(name, *args):
    """total uninterpreted-with-evaluation functions (arctan2, erf, ...)"""
    def f(*ps):
        cs = [p.const() for p in ps]
        return patom(atom('fn', (name,) + tuple(ps)))
    return S(napply('fn:' + name, f, *[to_num(a).d for a in args]))


# ------------------------------------------------------------- calculus
def _sv(p):
    return S(leaf(p))


def diff(s, var):
    """partial derivative of a value graph with respect to an input atom (one-sided at kinks)"""
    return _Diff(var).dec(to_num(s).d)


class _Diff:
    def __init__(self, var):
        self.var, self.dc, self.pc, self.ac = var, {}, {}, {}

    def dec(self, d):
        r = self.dc.get(d.id)
        if r is None:
            r = self.poly(d.val) if d.var is None else ite(S(iff_atom(C.atoms[d.var]), True), self.dec(d.hi), self.dec(d.lo))
            self.dc[d.id] = r
        return r

    def poly(self, p):
        r = self.pc.get(p.id)
        if r is None:
            r = num(0)
            for m, c in p.items():
                for k, (a, e) in enumerate(m):
                    da = self.atom(C.atoms[a])
                    if da.const() == 0:
                        continue
                    rest = m[:k] + (((a, e - 1),) if e != 1 else ()) + m[k + 1:]
                    r = add(r, mul(_sv(mkpoly({rest: c * e})), da))
            self.pc[p.id] = r
        return r

    def atom(self, a):
        r = self.ac.get(a.id)
        if r is None:
            r = self.ac[a.id] = num(1) if a is self.var else self._atom(a)
        return r

    def _atom(self, a):
        op, A = a.op, a.args
        P = lambda k=0: _sv(A[k])
        D = lambda k=0: self.poly(A[k])
        if op in ('sym', 'pi', 'nan', 'inf', 'divzero', 'floor', 'round', 'ind'):
            return num(0)
        if op == 'sin':
            return mul(cos(P()), D())
        if op == 'cos':
            return neg(mul(sin(P()), D()))
        if op == 'tan':
            return mul(add(1, mul(_sv(patom(a)), _sv(patom(a)))), D())
        if op == 'exp':
            return mul(_sv(patom(a)), D())
        if op == 'log':
            return div(D(), P())
        if op == 'sqrt':
            d = D()
            return num(0) if d.const() == 0 else div(d, mul(2, _sv(patom(a))))
        if op == 'abs':
            return mul(ite(gt(P(), 0), num(1), ite(lt(P(), 0), num(-1), num(0))), D())
        if op == 'max':
            cur, dc = P(), D()
            for k in range(1, len(A)):
                dc = ite(lt(cur, P(k)), D(k), dc)
                cur = maximum(cur, P(k))
            return dc
        if op == 'let':
            return D()
        if op == 'inv':
            return neg(div(D(), mul(P(), P())))
        if op == 'mod':
            return sub(D(), mul(D(1), floor(div(P(), P(1)))))
        if op == 'ite':
            return self.dec(A[0])
        if op == 'fn' and A[0] == 'arctan2':
            y, x = P(1), P(2)
            return div(sub(mul(x, D(1)), mul(y, D(2))), add(mul(x, x), mul(y, y)))
        if op in ('uf', 'fn'):
            r = num(0)
            args = [S(x) if isinstance(x, Dec) else _sv(x) for x in A[1:]]
            for k, x in enumerate(args):
                dx = self.dec(x.d)
                if dx.const() != 0:
                    r = add(r, mul(uf(f'd{k}:{A[0]}', args), dx))
            return r
        if op == 'pow':
            x, y, me = P(), P(1), _sv(patom(a))
            r = mul(mul(y, div(me, x)), D())
            return r if D(1).const() == 0 else add(r, mul(mul(me, log(x)), D(1)))
        raise NotImplementedError('derivative of ' + op)


def subst(s, m):
    """the value graph with input atoms replaced (m: atom id -> value)"""
    r = _Subst(m).dec(s.d)
    return r


class _Subst:
    def __init__(self, m):
        self.m, self.dc, self.pc, self.ac, self.dep = m, {}, {}, {}, {}

    def uses(self, x):
        k = (type(x).__name__, x.id)
        r = self.dep.get(k)
        if r is None:
            self.dep[k] = False
            if isinstance(x, Dec):
                r = (isinstance(x.val, Poly) and self.uses(x.val)) if x.var is None else (self.uses(C.atoms[x.var]) or self.uses(x.hi) or self.uses(x.lo))
            elif isinstance(x, Poly):
                r = any(self.uses(C.atoms[a]) for mm in x.t for a, _ in mm)
            else:
                r = x.id in self.m or any(self.uses(y) for y in x.args if isinstance(y, (Dec, Poly)))
            self.dep[k] = r
        return r

    def dec(self, d):
        if not self.uses(d):
            return S(d, is_bool(d))
        r = self.dc.get(d.id)
        if r is None:
            r = self.poly(d.val) if d.var is None else ite(self.atom(C.atoms[d.var]), self.dec(d.hi), self.dec(d.lo))
            self.dc[d.id] = r
        return r

    def poly(self, p):
        if not self.uses(p):
            return _sv(p)
        r = self.pc.get(p.id)
        if r is None:
            r = num(0)
            for mm, c in p.items():
                keep, x = [], None
                for a, e in mm:
                    if not self.uses(C.atoms[a]):
                        keep.append((a, e))
                        continue
                    y = power(self.atom(C.atoms[a]), e)
                    x = y if x is None else mul(x, y)
                k = _sv(mkpoly({tuple(keep): c}))
                r = add(r, k if x is None else mul(k, x))
            self.pc[p.id] = r
        return r

    def atom(self, a):
        r = self.ac.get(a.id)
        if r is None:
            if a.id in self.m:
                r = self.m[a.id]
            elif not self.uses(a):
                r = S(iff_atom(a), True) if a.isbool else _sv(patom(a))
            else:
                r = self._atom(a)
            self.ac[a.id] = r
        return r

    def _atom(self, a):
        op, A = a.op, a.args
        P = lambda k=0: self.poly(A[k])
        one = dict(sin=sin, cos=cos, tan=tan, exp=exp, log=log, sqrt=sqrt, abs=absv, floor=floor, round=rnd)
        if op in one:
            return one[op](P())
        if op == 'max':
            return maxn([P(k) for k in range(len(A))])
        if op == 'let':
            return P()
        if op == 'inv':
            return div(1, P())
        if op == 'mod':
            return mod(P(), P(1))
        if op in ('ite', 'bfrz'):
            return self.dec(A[0])
        if op == 'pow':
            return power(P(), P(1))
        if op == 'fn':
            return fn(A[0], *[self.poly(x) for x in A[1:]])
        if op == 'uf':
            return uf(A[0], [self.dec(d) for d in A[1:]], a.lo, a.hi)
        if op == 'buf':
            return buf(A[0], [self.dec(d) for d in A[1:]])
        if op == 'LT':
            return lt(P(), 0)
        if op == 'GT':
            return gt(P(), 0)
        raise NotImplementedError('substitution in ' + op)


# ------------------------------------------------------------------- display
def show_atom(a, depth=3):
    if a.op == 'sym' or a.op == 'bsym':
        return a.args[0]
    if a.op == 'pi':
        return 'pi'
    if depth <= 0:
        return a.op + '#%d' % a.id

    def s(x):
        if isinstance(x, Poly):
            return show_poly(x, depth - 1)
        if isinstance(x, Dec):
            return show_dec(x, 120, depth - 1)
        return str(x)
    if a.op == 'LT':
        return f'[{s(a.args[0])} < 0]'
    if a.op == 'GT':
        return f'[{s(a.args[0])} > 0]'
    if a.op in ('uf', 'buf', 'fn'):
        return f'{a.args[0]}({", ".join(s(x) for x in a.args[1:])})'
    return f'{a.op}({", ".join(s(x) for x in a.args)})'


def show_poly(p, depth=3):
    if not p.t:
        return '0'
    out = []
    for m, c in list(p.items())[:12]:
        fs = []
        for a, e in m:
            x = show_atom(C.atoms[a], depth)
            fs.append(x if e == 1 else f'{x}^{e}')
        cs = str(c) if c.denominator < 10 ** 6 else '%g' % float(c)
        if fs:
            out.append(('' if c == 1 else '-' if c == -1 else cs + '*') + '*'.join(fs))
        else:
            out.append(cs)
    if len(p.t) > 12:
        out.append('... %d terms' % len(p.t))
    return ' + '.join(out)


def show_dec(d, limit=200, depth=3):
    if d.var is None:
        r = str(d.val) if isinstance(d.val, bool) else show_poly(d.val, depth)
    elif depth <= 0:
        r = 'dec#%d' % d.id
    else:
        r = f'({show_atom(C.atoms[d.var], depth - 1)} ? {show_dec(d.hi, limit, depth - 1)} : {show_dec(d.lo, limit, depth - 1)})'
    return r if len(r) <= limit else r[:limit] + '...'


# ------------------------------------------------------ random interpretation
def _h(*parts):
    return zlib.crc32(repr(parts).encode())


class RI:
    """evaluates value graphs at n sampled points"""

    def __init__(self, n=256, seed=1, fix=None, dtype=float):
        self.n = n
        self.seed = seed
        self.dtype = dtype
        self.ac, self.pc, self.dc = {}, {}, {}
        self.fragile = np.zeros(n, bool)
        self.fix = fix or {}
        self._twin = None
        r = np.random.RandomState(_h(seed, 'base') & 0x7fffffff)
        # per-sample scales: how far points lie apart, how aligned the angles are
        self.posscale = 10 ** r.uniform(-0.8, 0.35, n)
        self.base = r.uniform(-math.pi, math.pi, n)
        self.angspread = np.where(r.rand(n) < 0.35, 10 ** r.uniform(-2, 0.2, n), r.uniform(0.2, 3.3, n))
        self.special = r.rand(n) < 0.25

    def rng(self, *k):
        return np.random.RandomState(_h(self.seed, *k) & 0x7fffffff)

    def sample(self, name, kind, lo, hi):
        if name in self.fix:
            return np.broadcast_to(np.asarray(self.fix[name], float), (self.n,)).copy()
        r = self.rng('sym', name)
        n = self.n
        if kind == 'angle':
            v = self.base + r.uniform(-1, 1, n) * self.angspread
            z = self.special & (r.rand(n) < 0.3)
            v = np.where(z, np.round(v / (math.pi / 2)) * (math.pi / 2), v)
            return v
        if kind == 'pos':
            v = r.uniform(-10, 10, n) * self.posscale
            z = self.special & (r.rand(n) < 0.15)
            return np.where(z, 0.0, v)
        if kind == 'normal':
            return r.normal(0, 1, n) * np.where(self.special, 3.0, 1.0)
        l = lo if lo > -1e9 else -10.0
        h = hi if hi < 1e9 else 10.0
        v = r.uniform(l, h, n)
        if l <= 0 <= h:
            # spread over magnitudes as well
            v = np.where(r.rand(n) < 0.3, v * 10 ** r.uniform(-2, 0, n), v)
        if lo > -1e9 and hi < 1e9:
            w = r.rand(n)
            z = self.special
            v = np.where(z & (w < 0.12), l, v)
            v = np.where(z & (w > 0.88), h, v)
        if l <= 0 <= h:
            v = np.where(self.special & (r.rand(n) < 0.25), 0.0, v)
        return v

    def atom(self, a):
        v = self.ac.get(a.id)
        if v is None:
            with np.errstate(all='ignore'):
                v = self._atom(a)
            self.ac[a.id] = v
        return v

    def _mix(self, name, args, salt):
        r = self.rng('uf', name, salt)
        acc1 = np.full(self.n, r.uniform(0, 6))
        acc2 = np.full(self.n, r.uniform(0, 6))
        for x in args:
            x = np.clip(np.nan_to_num(x, nan=0.77, posinf=1e3, neginf=-1e3), -1e6, 1e6)
            acc1 = acc1 + r.uniform(0.3, 1.3) * x
            acc2 = acc2 + r.uniform(0.3, 1.3) * x * np.where(r.rand() < 0.5, -1, 1)
        return np.sin(acc1) + 0.5 * np.cos(acc2 * 1.3) + 0.1 * np.sin(acc1 * 0.37)

    def _atom(self, a):
        op = a.op
        n = self.n
        if op == 'sym':
            return self.sample(a.args[0], a.meta, a.lo, a.hi).astype(self.dtype)
        if op == 'bsym':
            if a.args[0] in self.fix:
                return np.broadcast_to(np.asarray(self.fix[a.args[0]], bool), (n,)).copy()
            return self.rng('bsym', a.args[0]).rand(n) < 0.5
        if op == 'pi':
            return np.full(n, np.arccos(self.dtype(-1)))
        if op in ('sin', 'cos', 'tan', 'exp', 'log'):
            return getattr(np, op)(self.poly(a.args[0]))
        if op == 'abs':
            return np.abs(self.poly(a.args[0]))
        if op == 'sqrt':
            x = self.poly(a.args[0])
            return np.sqrt(np.where((x < 0) & (x > -1e-9 * (1 + np.abs(self.pmag(a.args[0])))), 0.0, x))
        if op == 'max':
            r = self.poly(a.args[0])
            for p in a.args[1:]:
                r = np.maximum(r, self.poly(p))
            return r
        if op == 'let':
            return self.poly(a.args[0])
        if op == 'inv':
            return 1.0 / self.poly(a.args[0])
        if op == 'pow':
            return np.power(self.poly(a.args[0]), self.poly(a.args[1]))
        if op == 'mod':
            x, m = self.poly(a.args[0]), self.poly(a.args[1])
            r = np.mod(x, m)
            self.fragile |= (np.minimum(np.abs(r), np.abs(r - m)) < 1e-9 * (1 + np.abs(x)))
            return r
        if op in ('floor', 'round'):
            x = self.poly(a.args[0])
            y = x if op == 'floor' else x + 0.5
            self.fragile |= (np.abs(y - np.round(y)) < 1e-9 * (1 + np.abs(x))) & (y != np.round(y))
            return np.floor(x) if op == 'floor' else np.round(x)
        if op == 'ite':
            return self.dec(a.args[0])
        if op == 'bfrz':
            return self.dec(a.args[0])
        if op == 'uf':
            v = self._mix(a.args[0], [self.dec(d) for d in a.args[1:]], 0)
            if a.lo > -1e9 and a.hi < 1e9:
                v = a.lo + (a.hi - a.lo) * (v + 1.6) / 3.2
            return v
        if op == 'buf':
            v = self._mix(a.args[0], [self.dec(d) for d in a.args[1:]], 1)
            self.fragile |= np.abs(v) < 1e-8
            return v > 0
        if op == 'fn':
            xs = [self.poly(p) for p in a.args[1:]]
            f = FNS.get(a.args[0])
            if f is None:
                return self._mix('fn:' + a.args[0], xs, 2)
            return f(*xs)
        if op in ('LT', 'GT'):
            x = self.poly(a.args[0])
            mag = self.pmag(a.args[0])
            self.fragile |= (np.abs(x) < 1e-9 * (1e-3 + mag)) & (x != 0)
            return x < 0 if op == 'LT' else x > 0
        if op == 'nan':
            return np.full(n, np.nan)
        if op == 'inf':
            return np.full(n, np.inf)
        if op == 'divzero':
            return np.full(n, np.inf)
        raise NotImplementedError(op)

    def pmag(self, p):
        """sum of magnitudes of the monomials (rounding scale)"""
        self.poly(p)
        return self.pc[p.id][1]

    def number(self, c):
        if self.dtype is float:
            return float(c)
        num = getattr(c, 'numerator', None)
        if num is None or isinstance(c, float):
            return self.dtype(c)
        return self.dtype(str(num)) / self.dtype(str(c.denominator))

    def twin(self):
        """the same points in extended precision"""
        if self._twin is None:
            self._twin = RI(self.n, self.seed, self.fix, np.longdouble)
        return self._twin

    def poly(self, p):
        v = self.pc.get(p.id)
        if v is None:
            with np.errstate(all='ignore'):
                r = np.zeros(self.n, self.dtype)
                mag = np.zeros(self.n, self.dtype)
                for m, c in p.items():
                    x = np.full(self.n, self.number(c))
                    for a, e in m:
                        y = self.atom(C.atoms[a])
                        x = x * (y if e == 1 else y ** float(e))
                    r = r + x
                    mag = mag + np.abs(x)
            v = (r, mag)
            self.pc[p.id] = v
        return v[0]

    def dec(self, d):
        v = self.dc.get(d.id)
        if v is not None:
            return v
        if d.var is None:
            v = np.full(self.n, d.val) if isinstance(d.val, bool) else self.poly(d.val)
        else:
            c = self.atom(C.atoms[d.var])
            v = np.where(c, self.dec(d.hi), self.dec(d.lo))
        self.dc[d.id] = v
        return v

    def val(self, s):
        if isinstance(s, S):
            return self.dec(s.d)
        if isinstance(s, bool):
            return np.full(self.n, s)
        return self.dec(to_num(s).d)


def _erf(x):
    from math import erf
    return np.vectorize(erf)(x)


FNS = {
    'arctan2': np.arctan2, 'arctan': np.arctan, 'arcsin': np.arcsin, 'arccos': np.arccos,
    'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh, 'log1p': np.log1p, 'expm1': np.expm1,
    'trunc': np.trunc, 'fmod': np.fmod, 'erf': _erf, 'log2': np.log2, 'log10': np.log10,
    'copysign': np.copysign, 'remainder_ieee': lambda a, b: a - b * np.round(a / b),
}


def support(ds):
    """input atoms (sym, bsym, uf, buf) the value graphs mention"""
    seen, out, st = set(), {}, []
    for d in ds:
        st.append(d)
    while st:
        x = st.pop()
        k = (type(x).__name__, x.id)
        if k in seen:
            continue
        seen.add(k)
        if isinstance(x, Dec):
            if x.var is None:
                if isinstance(x.val, Poly):
                    st.append(x.val)
            else:
                st += [x.hi, x.lo, C.atoms[x.var]]
        elif isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    st.append(C.atoms[a])
        else:
            if x.op in ('sym', 'bsym', 'uf', 'buf'):
                out[x.id] = x
            for y in x.args:
                if isinstance(y, (Dec, Poly)):
                    st.append(y)
    return out
