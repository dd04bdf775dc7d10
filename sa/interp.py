"""Abstract interpreter of the analysed Python source (AST -> value graph).

Nothing of the repository is imported or executed: the modules under
/repo/mbd are parsed, and their statements are given their abstract effect
over the value domain of `terms`.  Data-dependent branches are handled by
trace partitioning (`partition`): the analysis is repeated per branch outcome
and the outcomes are merged under their branch condition.
"""
from __future__ import annotations
import threading
import ast, builtins, os
import numpy as np
from fractions import Fraction as F
from . import terms as T
from .terms import S
from .values import *

REPO = os.environ.get('SA_REPO', '/repo')


class _Sig(Exception):
    pass


class Ret(_Sig):
    def __init__(self, v):
        self.v = v


class Brk(_Sig):
    pass


class Cnt(_Sig):
    pass


class TooManyPaths(Exception):
    pass


class Infeasible(Exception):
    pass


_AST_CACHE = {}
_SRC = {}


def parse(path):
    r = _AST_CACHE.get(path)
    if r is None:
        with open(path) as f:
            src = f.read()
        _SRC[path] = src
        r = _AST_CACHE[path] = ast.parse(src, path)
    return r


BINOPS = {
    ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv',
    ast.Mod: 'mod', ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or',
    ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift',
}
CMPS = {ast.Lt: 'lt', ast.Gt: 'gt', ast.LtE: 'le', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}
_NATIVE = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'mod': lambda a, b: a % b, 'floordiv': lambda a, b: a // b, 'pow': lambda a, b: a ** b,
    'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
    'lshift': lambda a, b: a << b, 'rshift': lambda a, b: a >> b,
    'lt': lambda a, b: a < b, 'gt': lambda a, b: a > b, 'le': lambda a, b: a <= b, 'ge': lambda a, b: a >= b,
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
}
MUTATING = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', 'popitem'}


class Gen:
    """a generator of the analysed program, run in step with its consumer on a thread of its own"""

    def __init__(self, I, f, sc):
        self.I, self.f, self.sc = I, f, sc
        self.thread = None
        self.turn = {'in': threading.Semaphore(0), 'out': threading.Semaphore(0)}
        self.done, self.value, self.box, self.frame = False, None, None, None

    def body(self):
        self.turn['in'].acquire()
        I = self.I
        kind, v = self.box
        try:
            if kind == 'throw':
                raise v
            I.stack.append([self.f.qual, self.f.module.path, self.f.node.lineno])
            try:
                I.block(self.sc_node(), self.sc)
                self.value = None
            except Ret as r:
                self.value = r.v
            I.stack.pop()
            self.box = ('end', None)
        except BaseException as ex:
            if I.stack and I.stack[-1][0] == self.f.qual:
                I.stack.pop()
            self.box = ('raise', ex)
        self.done = True
        self.turn['out'].release()

    def sc_node(self):
        return self.f.node.body

    def emit(self, v):
        self.frame = self.I.stack.pop()
        self.box = ('item', v)
        self.turn['out'].release()
        self.turn['in'].acquire()
        self.I.stack.append(self.frame)
        kind, v = self.box
        if kind == 'throw':
            raise v
        return v

    def resume(self, kind, v):
        if self.done:
            if kind == 'throw':
                raise v
            raise StopIteration
        if self.thread is None:
            old = threading.stack_size(256 << 20)
            self.thread = threading.Thread(target=self.body, daemon=True)
            self.thread.start()
            threading.stack_size(old)
        self.box = (kind, v)
        self.turn['in'].release()
        self.turn['out'].acquire()
        kind, v = self.box
        if kind == 'item':
            return v
        if kind == 'raise':
            raise v
        raise StopIteration

    def __iter__(self):
        return self

    def __next__(self):
        return self.resume('send', None)

    def send(self, v):
        return self.resume('send', v)

    def throw(self, *a):
        v = a[1] if len(a) > 1 and a[1] is not None else a[0]
        return self.resume('throw', PyRaise(v))

    def close(self):
        if self.thread is not None and not self.done:
            try:
                self.resume('throw', PyRaise(GeneratorExit()))
            except (StopIteration, PyRaise):
                pass
        self.done = True


class Interp:
    def __init__(self, repo=None, prefix=(), max_steps=40_000_000):
        self.repo = repo or REPO
        self.modules = {}
        self.prefix = list(prefix)      # branch outcomes to take
        self.taken = []                 # [(condition S, outcome)]
        self.pc = T.TRUE
        self.events = []                # effect log
        self.visited = {}               # qualname -> file:line
        self.stack = []
        self.overlays = []
        self.recorders = []
        self.jit_model = True
        self.stale = []                 # (jit function, attribute) pairs served from a stale trace
        self.steps = 0
        self.max_steps = max_steps
        self.minimize_log = []
        self.fs = None
        from . import libs
        self.libs = libs.build(self)
        self.builtins = libs.builtins_ns(self)

    # ------------------------------------------------------------- modules
    def module_path(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.exists(base + '.py'):
            return base + '.py', False
        return None, False

    def load(self, name, run_name=None):
        if name in self.modules:
            return self.modules[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        if name in self.modules:
            return self.modules[name]
        path, pkg = self.module_path(name)
        if path is None:
            d = os.path.join(self.repo, *name.split('.'))
            if not os.path.isdir(d):
                raise PyRaise(ModuleNotFoundError(f'No module named {name}'))
            m = Module(name, d, {'__name__': name, '__path__': [d]})       # a folder without __init__.py
            m.pkg = True
            self.modules[name] = m
            return m
        m = Module(name, path, {'__name__': run_name or name, '__file__': path})
        m.pkg = pkg
        if pkg:
            m.ns['__path__'] = [os.path.dirname(path)]
        self.modules[name] = m
        sc = Scope(None, m)
        sc.vars = m.ns
        self.run_body(parse(path).body, sc, m)
        if '.' in name:
            p, c = name.rsplit('.', 1)
            self.modules[p].ns.setdefault(c, m)
        return m

    def load_source(self, src, name='spec', extra=None):
        m = Module(name, f'<{name}>', {'__name__': name})
        m.pkg = False
        if extra:
            m.ns.update(extra)
        sc = Scope(None, m)
        sc.vars = m.ns
        key = ('src', src)
        tree = _AST_CACHE.get(key)
        if tree is None:
            tree = _AST_CACHE[key] = ast.parse(src, f'<{name}>')
        self.run_body(tree.body, sc, m)
        return m

    def run_body(self, body, sc, m):
        self.stack.append(['<module>', m.path, 0])
        try:
            for st in body:
                self.stmt(st, sc)
        finally:
            self.stack.pop()

    def import_name(self, name):
        """import a.b.c -> the value of module a.b.c"""
        top = name.split('.')[0]
        if self.module_path(top)[0] is not None and top == 'mbd':
            return self.load(name)
        return self.libs_get(name)

    def libs_get(self, name):
        parts = name.split('.')
        v = self.libs.get(parts[0])
        if v is None:
            return Opaque(name)
        for p in parts[1:]:
            v = self.getattr(v, p)
        return v

    # ---------------------------------------------------------- statements
    def where(self):
        for q, f, l in reversed(self.stack):
            if not f.startswith('<'):
                return f'{os.path.relpath(f, self.repo)}:{l} ({q})'
        return self.stack[-1] if self.stack else '?'

    def block(self, body, sc):
        for st in body:
            self.stmt(st, sc)

    def stmt(self, st, sc):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unmodelled('step budget exhausted (unbounded loop?) at ' + str(self.where()))
        self.stack[-1][2] = st.lineno
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unmodelled(f'statement {type(st).__name__} at {self.where()}')
        m(st, sc)

    def s_Expr(self, st, sc):
        v = st.value
        if isinstance(v, ast.Constant):
            return
        self.ev(v, sc)

    def s_Pass(self, st, sc):
        pass

    def s_Import(self, st, sc):
        for a in st.names:
            v = self.import_name(a.name)
            if a.asname:
                self.store(a.asname, v, sc)
            else:
                top = a.name.split('.')[0]
                self.store(top, self.import_name(top), sc)

    def s_ImportFrom(self, st, sc):
        if st.level:
            base = sc.module.name
            if not getattr(sc.module, 'pkg', False):
                base = base.rsplit('.', 1)[0]
            for _ in range(st.level - 1):
                base = base.rsplit('.', 1)[0]
            name = base + ('.' + st.module if st.module else '')
        else:
            name = st.module
        m = self.import_name(name)
        for a in st.names:
            if a.name == '*':
                src = m.ns if isinstance(m, Module) else m.d if isinstance(m, NS) else {}
                for k, v in src.items():
                    if not k.startswith('_'):
                        self.store(k, v, sc)
                continue
            if isinstance(m, Module):
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    sub = f'{m.name}.{a.name}'
                    if self.module_path(sub)[0]:
                        v = self.load(sub)
                    else:
                        raise PyRaise(ImportError(f'cannot import name {a.name} from {m.name}'), self.where())
            else:
                v = self.getattr(m, a.name)
            self.store(a.asname or a.name, v, sc)

    def s_Assign(self, st, sc):
        v = self.ev(st.value, sc)
        for t in st.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, st, sc):
        if sc.iscls and isinstance(st.target, ast.Name):
            sc.vars.setdefault('__annotations__', []).append(st.target.id)
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, sc), sc)

    def s_AugAssign(self, st, sc):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, sc)
            self.store(t.id, self.inplace(op, cur, self.ev(st.value, sc)), sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            self.setattr(o, t.attr, self.inplace(op, self.getattr(o, t.attr), self.ev(st.value, sc)))
        else:
            o = self.ev(t.value, sc)
            i = self.ev(t.slice, sc)
            self.setitem(o, i, self.inplace(op, self.getitem(o, i), self.ev(st.value, sc)))

    def inplace(self, op, a, b):
        if isinstance(a, list) and op == 'add':
            a.extend(self.iterate(b))
            return a
        if isinstance(a, (set, dict)) and op == 'or':
            a.update(b)
            return a
        if isinstance(a, Arr) and a.mut:
            r = self.binop(op, a, b)
            a.a[...] = nd(r)
            return a
        return self.binop(op, a, b)

    def s_Return(self, st, sc):
        raise Ret(self.ev(st.value, sc) if st.value is not None else None)

    def s_If(self, st, sc):
        if self.truth(self.ev(st.test, sc)):
            self.block(st.body, sc)
        else:
            self.block(st.orelse, sc)

    def s_For(self, st, sc):
        broke = False
        for v in self.iterate(self.ev(st.iter, sc)):
            self.assign(st.target, v, sc)
            try:
                self.block(st.body, sc)
            except Brk:
                broke = True
                break
            except Cnt:
                continue
        if not broke:
            self.block(st.orelse, sc)

    def s_While(self, st, sc):
        n = 0
        while self.truth(self.ev(st.test, sc)):
            n += 1
            if n > 200000:
                raise Unmodelled('while loop without a static bound at ' + str(self.where()))
            try:
                self.block(st.body, sc)
            except Brk:
                return
            except Cnt:
                continue
        self.block(st.orelse, sc)

    def s_Break(self, st, sc):
        raise Brk()

    def s_Continue(self, st, sc):
        raise Cnt()

    def s_FunctionDef(self, st, sc):
        f = self.mkfunc(st, sc)
        for d in reversed(st.decorator_list):
            f = self.call(self.ev(d, sc), [f], {})
        self.store(st.name, f, sc)

    def s_ClassDef(self, st, sc):
        bases = [self.ev(b, sc) for b in st.bases]
        for k in st.keywords:
            if k.arg == 'metaclass':
                pass
        cs = Scope(sc, sc.module, True)
        cs.vars['__qualname__'] = st.name
        self.stack.append([st.name, self.stack[-1][1], st.lineno])
        try:
            self.block(st.body, cs)
        finally:
            self.stack.pop()
        c = IClass(st.name, bases, cs.vars, sc.module)
        for b in bases:
            if isinstance(b, IClass) and b.dc is not None:
                c.dc = list(b.dc)
                c.tuplelike = b.tuplelike
        if any(isinstance(b, Opaque) and b.name in ('typing.NamedTuple', 'NamedTuple') for b in bases):
            c.tuplelike = True
            self.libs['__dataclass__'](c)
        for v in cs.vars.values():
            for f in self._funcs(v):
                f.cls = c
                f.qual = f'{c.name}.{f.name}'
        for n, v in list(cs.vars.items()):
            if isinstance(v, Obj) and v.cls.find('__set_name__')[1] is not None:
                self.call(self.getattr(v, '__set_name__'), [c, n], {})
        if any(getattr(k, 'enum', None) for k in c.mro[1:]):
            self.libs['__enum__'](c)
        for k in c.mro[1:]:
            if '__init_subclass__' in k.ns:
                f = k.ns['__init_subclass__']
                self.call(Bound(f.fn if isinstance(f, ClassM) else f, c), [], {k2.arg: self.ev(k2.value, sc) for k2 in st.keywords if k2.arg != 'metaclass'})
                break
        for d in reversed(st.decorator_list):
            c = self.call(self.ev(d, sc), [c], {})
        self.store(st.name, c, sc)

    def _funcs(self, v):
        if isinstance(v, Func):
            yield v
        elif isinstance(v, JitFunc):
            yield from self._funcs(v.fn)
        elif isinstance(v, Property):
            yield from self._funcs(v.fget)
            if v.fset:
                yield from self._funcs(v.fset)
        elif isinstance(v, (StaticM, ClassM)):
            yield from self._funcs(v.fn)

    def s_Raise(self, st, sc):
        if st.exc is None:
            raise PyRaise(self._cur_exc[-1] if getattr(self, '_cur_exc', None) else RuntimeError('no active exception'), self.where())
        v = self.ev(st.exc, sc)
        if isinstance(v, (IClass,)) or (isinstance(v, type) and issubclass(v, BaseException)):
            v = self.call(v, [], {})
        raise PyRaise(v, self.where())

    def s_Assert(self, st, sc):
        if not self.truth(self.ev(st.test, sc)):
            msg = self.ev(st.msg, sc) if st.msg is not None else ''
            raise PyRaise(AssertionError(msg), self.where())

    def exc_match(self, v, t):
        if isinstance(t, tuple):
            return any(self.exc_match(v, x) for x in t)
        if isinstance(t, IClass):
            return isinstance(v, Obj) and t in v.cls.mro
        if isinstance(t, type):
            if isinstance(v, Obj):
                nb = v.cls.native_base()
                return nb is not None and issubclass(nb, t)
            return isinstance(v, t)
        return False

    def s_Try(self, st, sc):
        try:
            try:
                self.block(st.body, sc)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.value, self.ev(h.type, sc)):
                        if h.name:
                            self.store(h.name, e.value, sc)
                        self._cur_exc = getattr(self, '_cur_exc', []) + [e.value]
                        try:
                            self.block(h.body, sc)
                        finally:
                            self._cur_exc = self._cur_exc[:-1]
                        break
                else:
                    raise
            else:
                self.block(st.orelse, sc)
        except (PyRaise, _Sig) as e:
            self.block(st.finalbody, sc)
            raise
        else:
            self.block(st.finalbody, sc)

    def s_With(self, st, sc):
        self.with_items(st.items, st.body, sc)

    def with_items(self, items, body, sc):
        if not items:
            self.block(body, sc)
            return
        it = items[0]
        cm = self.ev(it.context_expr, sc)
        v = self.call(self.getattr(cm, '__enter__'), [], {})
        leave = self.getattr(cm, '__exit__')
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, sc)
        try:
            self.with_items(items[1:], body, sc)
        except PyRaise as e:
            r = self.call(leave, [type(e.value), e.value, None], {})
            if isinstance(r, Opaque) or r is None or not self.truth(r):
                raise
        except _Sig:
            self.call(leave, [None, None, None], {})
            raise
        else:
            self.call(leave, [None, None, None], {})

    def s_Global(self, st, sc):
        sc.globals_ = tuple(sc.globals_) + tuple(st.names)

    def s_Nonlocal(self, st, sc):
        sc.nonlocals = tuple(sc.nonlocals) + tuple(st.names)

    def s_Delete(self, st, sc):
        for t in st.targets:
            if isinstance(t, ast.Name):
                sc.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, sc)
                if isinstance(o, (Obj, Opaque)):
                    o.attrs.pop(t.attr, None)
            else:
                o, i = self.ev(t.value, sc), self.ev(t.slice, sc)
                if isinstance(o, (dict, list)):
                    try:
                        del o[i]
                    except (KeyError, IndexError) as e:
                        raise PyRaise(e, self.where())

    def s_Match(self, st, sc):
        v = self.ev(st.subject, sc)
        for c in st.cases:
            b = {}
            if self.match(c.pattern, v, b, sc):
                for k, x in b.items():
                    self.store(k, x, sc)
                if c.guard is None or self.truth(self.ev(c.guard, sc)):
                    self.block(c.body, sc)
                    return

    def match(self, p, v, b, sc):
        n = type(p).__name__
        if n == 'MatchValue':
            return self.truth(self.compare('eq', v, self.ev(p.value, sc)))
        if n == 'MatchSingleton':
            return v is p.value
        if n == 'MatchAs':
            if p.pattern is not None and not self.match(p.pattern, v, b, sc):
                return False
            if p.name:
                b[p.name] = v
            return True
        if n == 'MatchOr':
            return any(self.match(q, v, b, sc) for q in p.patterns)
        if n == 'MatchSequence':
            if not isinstance(v, (list, tuple, Arr)):
                return False
            vs = list(self.iterate(v))
            star = [i for i, q in enumerate(p.patterns) if type(q).__name__ == 'MatchStar']
            if star:
                i, rest = star[0], len(p.patterns) - star[0] - 1
                if len(vs) < len(p.patterns) - 1:
                    return False
                ok = all(self.match(q, x, b, sc) for q, x in zip(p.patterns[:i], vs)) and \
                    all(self.match(q, x, b, sc) for q, x in zip(p.patterns[i + 1:], vs[len(vs) - rest:]))
                if ok and p.patterns[i].name:
                    b[p.patterns[i].name] = vs[i:len(vs) - rest]
                return ok
            return len(vs) == len(p.patterns) and all(self.match(q, x, b, sc) for q, x in zip(p.patterns, vs))
        if n == 'MatchMapping':
            if not isinstance(v, dict):
                return False
            keys = [self.hashable(self.ev(k, sc)) for k in p.keys]
            if not all(k in v for k in keys) or not all(self.match(q, v[k], b, sc) for k, q in zip(keys, p.patterns)):
                return False
            if p.rest:
                b[p.rest] = {k: x for k, x in v.items() if k not in keys}
            return True
        if n == 'MatchClass':
            c = self.ev(p.cls, sc)
            if not self.truth(self.builtins['isinstance'](v, c)):
                return False
            if isinstance(c, IClass):
                names = list(c.find('__match_args__')[0] or [f[0] for f in c.dc or ()])
            elif p.patterns:
                return len(p.patterns) == 1 and self.match(p.patterns[0], v, b, sc)
            else:
                names = []
            pairs = list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns))
            if len(p.patterns) > len(names):
                raise Unmodelled('match class pattern')
            return all(self.hasattr(v, k) and self.match(q, self.getattr(v, k), b, sc) for k, q in pairs)
        raise Unmodelled('match pattern ' + n)

    # --------------------------------------------------------- names, stores
    def lookup(self, name, sc):
        s = sc
        first = True
        while s is not None:
            if (first or not s.iscls) and name in s.vars and name not in s.globals_:
                return s.vars[name]
            first = False
            s = s.parent
        g = sc.module.ns
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise(NameError(f"name '{name}' is not defined"), self.where())

    def store(self, name, v, sc):
        if name in sc.globals_:
            sc.module.ns[name] = v
            return
        if name in sc.nonlocals:
            s = sc.parent
            while s is not None:
                if name in s.vars and not s.iscls:
                    s.vars[name] = v
                    return
                s = s.parent
        sc.vars[name] = v

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.store(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = t.elts
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Opaque):
                vs = [self.opaque_item(v, i) for i in range(len(elts))]
            else:
                vs = list(self.iterate(v))
            if star:
                k = star[0]
                tail = len(elts) - k - 1
                if len(vs) < len(elts) - 1:
                    raise PyRaise(ValueError('not enough values to unpack'), self.where())
                for e, x in zip(elts[:k], vs[:k]):
                    self.assign(e, x, sc)
                self.assign(elts[k].value, vs[k:len(vs) - tail], sc)
                for e, x in zip(elts[k + 1:], vs[len(vs) - tail:] if tail else []):
                    self.assign(e, x, sc)
            else:
                if len(vs) != len(elts):
                    raise PyRaise(ValueError(f'cannot unpack {len(vs)} values into {len(elts)}'), self.where())
                for e, x in zip(elts, vs):
                    self.assign(e, x, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, sc), self.ev(t.slice, sc), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc)
        else:
            raise Unmodelled('assignment target ' + type(t).__name__)

    def opaque_item(self, o, i):
        k = ('item', repr(i))
        if k not in o.attrs:
            o.attrs[k] = Opaque(f'{o.name}[{i!r}]', parent=o)
        return o.attrs[k]

    # ---------------------------------------------------------- expressions
    def ev(self, e, sc):
        return getattr(self, 'e_' + type(e).__name__, self.e_unknown)(e, sc)

    def e_unknown(self, e, sc):
        raise Unmodelled(f'expression {type(e).__name__} at {self.where()}')

    def e_Constant(self, e, sc):
        v = e.value
        if isinstance(v, float):
            return T.flt(v)
        return v

    def e_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def e_Tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def e_List(self, e, sc):
        return self.elts(e.elts, sc)

    def e_Set(self, e, sc):
        return set(self.elts(e.elts, sc))

    def elts(self, es, sc):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.ev(x.value, sc)))
            else:
                out.append(self.ev(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, sc))
            else:
                d[self.hashable(self.ev(k, sc))] = self.ev(v, sc)
        return d

    def hashable(self, k):
        if isinstance(k, S):
            c = k.const()
            if c is not None and not k.b and c.denominator == 1:
                return int(c)
        return k

    def e_Lambda(self, e, sc):
        return self.mkfunc(e, sc)

    def e_IfExp(self, e, sc):
        return self.ev(e.body, sc) if self.truth(self.ev(e.test, sc)) else self.ev(e.orelse, sc)

    def e_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, sc)
            t = self.truth(v)
            if isand and not t:
                return v if not self.symbolic(v) else False
            if not isand and t:
                return v if not self.symbolic(v) else True
        return v if not self.symbolic(v) else (True if isand else False)

    def symbolic(self, v):
        return isinstance(v, S) and v.const() is None

    def e_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        op = e.op
        if isinstance(op, ast.Not):
            return not self.truth(v)
        if isinstance(op, ast.USub):
            return self.neg(v)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, Opaque):
                return Opaque('~' + v.name, (v,))
            return ew(self._invert, v)
        raise Unmodelled('unary op')

    @staticmethod
    def _invert(x):
        if isinstance(x, S):
            if not x.b:
                raise PyRaise(TypeError('ufunc invert not supported for float'))
            return T.bnot(x)
        return ~x if not isinstance(x, bool) else ~int(x)

    def neg(self, v):
        if isinstance(v, Opaque):
            return Opaque('-' + v.name, (v,))
        if isinstance(v, Obj):
            return self.call(self.getattr(v, '__neg__'), [], {})
        return ew(lambda x: -x if isinstance(x, int) and not isinstance(x, bool) else (-int(x) if isinstance(x, bool) else T.neg(x)), v)

    def e_BinOp(self, e, sc):
        return self.binop(BINOPS[type(e.op)], self.ev(e.left, sc), self.ev(e.right, sc))

    def binop(self, op, a, b):
        ta, tb = type(a), type(b)
        if (ta is int or ta is bool) and (tb is int or tb is bool):
            if op == 'truediv':
                if b == 0:
                    raise PyRaise(ZeroDivisionError('division by zero'), self.where())
                return T.num(F(int(a), int(b)))
            if op == 'pow' and b < 0:
                return T.num(F(int(a)) ** int(b))
            if op == 'matmul':
                raise PyRaise(TypeError('matmul'), self.where())
            try:
                return _NATIVE[op](a, b)
            except ZeroDivisionError as ex:
                raise PyRaise(ex, self.where())
        if isinstance(a, Affine) or isinstance(b, Affine):
            if op == 'add':
                if isinstance(a, Affine) and isinstance(b, Affine):
                    return a.then(b.m, b.t)
                if isinstance(a, Affine):
                    return Affine(a.m, a.t, b)
                return Opaque('transform', (a, b))
        for o, dn in ((a, '__%s__'), (b, '__r%s__')):
            if isinstance(o, Obj):
                nm = dn % {'and': 'and', 'or': 'or'}.get(op, op)
                f, _ = o.cls.find(nm)
                if f is not None:
                    return self.call(self.getattr(o, nm), [b if o is a else a], {})
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, str) or isinstance(b, str):
                return Opaque('str', (a, b))
            return Opaque(f'({getattr(a, "name", "_")} {op} {getattr(b, "name", "_")})', (a, b))
        if isinstance(a, (str, list, tuple, dict, set, frozenset)) or isinstance(b, (str, list, tuple, dict, set)):
            arr = isinstance(a, (Arr, S)) or isinstance(b, (Arr, S))
            if not arr:
                if op == 'mod' and isinstance(a, str):
                    return self.str_mod(a, b)
                try:
                    return _NATIVE[op](a, b)
                except (TypeError, KeyError) as ex:
                    raise PyRaise(TypeError(str(ex)), self.where())
            if isinstance(a, (list, tuple)) and op == 'mul' and isinstance(b, S) or isinstance(b, (list, tuple)) and op == 'mul' and isinstance(a, S):
                raise PyRaise(TypeError("can't multiply sequence by non-int"), self.where())
            if isinstance(a, str) or isinstance(b, str):
                raise PyRaise(TypeError('unsupported operand types'), self.where())
        if a is None or b is None:
            raise PyRaise(TypeError(f'unsupported operand type(s) for {op}: None'), self.where())
        if op == 'matmul':
            return self.libs['__np__']['matmul'](a, b)
        if is_scalar(a) and is_scalar(b):
            return self._sbin(op, a, b)
        if isinstance(a, (Arr, S, int, list, tuple, float, F)) and isinstance(b, (Arr, S, int, list, tuple, float, F)) or is_scalar(a) or is_scalar(b):
            return ew(lambda x, y: self._sbin(op, x, y), a, b)
        if any(isinstance(x, complex) or type(x).__module__.startswith('sa.') and not isinstance(x, (Arr, S, Obj, IClass)) for x in (a, b)):
            raise Unmodelled(f'{type_name(a)} {op} {type_name(b)} at {self.where()}')
        raise PyRaise(TypeError(f'unsupported operands {type_name(a)} {op} {type_name(b)}'), self.where())

    def _sbin(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return self.binop(op, a, b)
        if op == 'add':
            if isinstance(a, S) and a.b and isinstance(b, S) and b.b:
                return T.bor(a, b)
            return T.add(a, b)
        if op == 'sub':
            return T.sub(a, b)
        if op == 'mul':
            if isinstance(a, S) and a.b and isinstance(b, S) and b.b:
                return T.band(a, b)
            return T.mul(a, b)
        if op == 'truediv':
            return T.div(a, b)
        if op == 'mod':
            return T.mod(a, b)
        if op == 'floordiv':
            return T.floor(T.div(a, b))
        if op == 'pow':
            return T.power(a, b)
        if op in ('and', 'or', 'xor'):
            ka = isinstance(a, S) and not a.b and a.const() is None
            if ka:
                raise PyRaise(TypeError(f'bitwise {op} on floats'), self.where())
            return {'and': T.band, 'or': T.bor, 'xor': T.bxor}[op](a, b)
        raise Unmodelled('scalar op ' + op)

    def e_Compare(self, e, sc):
        left = self.ev(e.left, sc)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, sc)
            v = self.cmp1(op, left, right)
            if len(e.ops) == 1:
                return v
            if not self.truth(v):
                return False
            res = v
            left = right
        return res if not self.symbolic(res) else True

    def cmp1(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.In):
                return r
            return (not r) if isinstance(r, bool) else (T.bnot(r) if isinstance(r, S) else r)
        return self.compare(CMPS[type(op)], a, b)

    def is_(self, a, b):
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            return a is b
        return a is b or (isinstance(a, (int, str)) and type(a) is type(b) and a == b)

    def contains(self, c, x):
        if isinstance(c, Opaque):
            return Opaque('in', (x, c))
        if isinstance(c, str):
            return x in c if isinstance(x, str) else False
        if isinstance(c, dict):
            return self.hashable(x) in c
        if isinstance(c, Obj):
            f, _ = c.cls.find('__contains__')
            if f is not None:
                return self.call(self.getattr(c, '__contains__'), [x], {})
        res = T.boolean(False)
        for y in self.iterate(c):
            r = self.compare('eq', x, y)
            if r is True:
                return True
            if isinstance(r, S):
                k = r.const()
                if k is True:
                    return True
                if k is None:
                    res = T.bor(res, r)
        k = res.const()
        return k if k is not None else res

    def compare(self, op, a, b):
        if (type(a) is int or type(a) is bool) and (type(b) is int or type(b) is bool):
            return _NATIVE[op](a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if op == 'eq' and a is b:
                return True
            if op in ('eq', 'ne') and (a is None or b is None):
                return op == 'ne'
            return Opaque(f'cmp-{op}', (a, b))
        if is_scalar(a) and is_scalar(b):
            return getattr(T, op)(norm_scalar(a), norm_scalar(b))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return op == 'ne'
            return ew(lambda x, y: _NATIVE[op](x, y) if isinstance(x, int) and isinstance(y, int) else getattr(T, op)(x, y), a, b)
        for o, p in ((a, b), (b, a)):
            if isinstance(o, Obj):
                f, _ = o.cls.find(f'__{op}__')
                if f is not None and o is a:
                    return self.call(self.getattr(o, f'__{op}__'), [p], {})
                if op == 'ne' and o.cls.find('__eq__')[0] is not None and (o is a or not isinstance(a, Obj)):
                    return self._not(self.call(self.getattr(o, '__eq__'), [p], {}))
                swap = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[op]
                if o is b and o.cls.find(f'__{swap}__')[0] is not None and not (isinstance(a, Obj) and a.cls.find(f'__{op}__')[0] is not None):
                    return self.call(self.getattr(o, f'__{swap}__'), [a], {})
        if op in ('eq', 'ne') and isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.cls.dc is not None:
            r = self.compare('eq', [a.attrs[f[0]] for f in a.cls.dc], [b.attrs[f[0]] for f in b.cls.dc])
            return r if op == 'eq' else self._not(r)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in ('eq', 'ne'):
            if type(a) is not type(b) or len(a) != len(b):
                return op == 'ne'
            r = True
            for x, y in zip(a, b):
                k = self.compare('eq', x, y)
                if k is True:
                    continue
                r = self._and(r, k)
            return r if op == 'eq' else self._not(r)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            for x, y in zip(a, b):
                if self.truth(self.compare('eq', x, y)):
                    continue
                return self.compare(op, x, y)
            return _NATIVE[op](len(a), len(b))
        if op in ('eq', 'ne'):
            try:
                r = (a == b)
            except Exception:
                r = a is b
            return bool(r) if op == 'eq' else not r
        try:
            return _NATIVE[op](a, b)
        except TypeError as ex:
            raise PyRaise(ex, self.where())

    def _and(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a and b
        return T.band(a, b)

    def _not(self, a):
        return (not a) if isinstance(a, bool) else T.bnot(a)

    def truth(self, v):
        if isinstance(v, (bool, int, str, list, tuple, dict, set, frozenset, range, type(None))):
            return bool(v)
        if isinstance(v, S):
            c = v.const()
            if c is not None:
                return bool(c)
            return self.decide(T.to_bool(v))
        if isinstance(v, Arr):
            if v.a.size == 1:
                return self.truth(v.a.reshape(-1)[0])
            if v.a.size == 0:
                return False
            raise PyRaise(ValueError('truth value of an array is ambiguous'), self.where())
        if isinstance(v, Opaque):
            return self.decide(T.bsym('opaque:%s' % (v.name,)), v)
        if isinstance(v, Obj):
            for n in ('__bool__', '__len__'):
                f, _ = v.cls.find(n)
                if f is not None:
                    return self.truth(self.call(self.getattr(v, n), [], {}))
            return True
        if isinstance(v, (F, float, np.bool_, np.integer)):
            return bool(v)
        return True

    def decide(self, cond, opaque=None):
        """trace partitioning at a data-dependent branch"""
        c = cond.d
        t = T.b_and(self.pc, c)
        f = T.b_and(self.pc, T.b_not(c))
        if t is T.FALSE and f is T.FALSE:
            raise Infeasible()
        if t is T.FALSE:
            return False
        if f is T.FALSE:
            return True
        i = len(self.taken)
        r = self.prefix[i] if i < len(self.prefix) else True
        self.taken.append((cond, r, self.where()))
        self.pc = t if r else f
        return r

    def e_Attribute(self, e, sc):
        return self.getattr(self.ev(e.value, sc), e.attr)

    def e_Subscript(self, e, sc):
        o = self.ev(e.value, sc)
        return self.getitem(o, self.ev(e.slice, sc))

    def e_Slice(self, e, sc):
        g = lambda x: None if x is None else self.as_index(self.ev(x, sc))
        return slice(g(e.lower), g(e.upper), g(e.step))

    def as_index(self, v):
        if isinstance(v, S):
            c = v.const()
            if c is not None and (isinstance(c, bool) or c.denominator == 1):
                return int(c)
            return v
        if isinstance(v, Arr) and v.a.size == 1 and v.a.shape == ():
            return self.as_index(v.a[()])
        return v

    def e_JoinedStr(self, e, sc):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                out += self.fmt(self.ev(v.value, sc), v, sc)
        return out

    def fmt(self, x, v, sc):
        spec = self.e_JoinedStr(v.format_spec, sc) if v.format_spec is not None else ''
        if isinstance(x, S):
            c = x.const()
            if c is None:
                return '<sym>'
            x = bool(c) if isinstance(c, bool) else float(c)
        if isinstance(x, (Obj, Opaque, Arr, Func, Bound, JitFunc, IClass, Key, Module)) or not isinstance(x, (int, str, float, bool, type(None))):
            return f'<{type(x).__name__}:{getattr(x, "name", "")}>' if not isinstance(x, (list, tuple, dict)) else str(type(x).__name__)
        try:
            if v.conversion == 114:
                x = repr(x)
            return format(x, spec)
        except (ValueError, TypeError) as ex:
            raise PyRaise(ex, self.where())

    def str_mod(self, a, b):
        try:
            if isinstance(b, tuple):
                return a % tuple(self.plain(x) for x in b)
            return a % self.plain(b)
        except Exception:
            return a

    def plain(self, x):
        if isinstance(x, S):
            c = x.const()
            return '<sym>' if c is None else (float(c) if not isinstance(c, bool) else c)
        return x

    def e_FormattedValue(self, e, sc):
        return self.fmt(self.ev(e.value, sc), e, sc)

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        self.assign(e.target, v, sc)
        return v

    def e_Starred(self, e, sc):
        raise Unmodelled('starred')

    def generator_of(self, sc):
        while sc is not None and sc.func is None:
            sc = sc.parent
        return sc.func

    def e_Yield(self, e, sc):
        return self.generator_of(sc).emit(self.ev(e.value, sc) if e.value is not None else None)

    def e_YieldFrom(self, e, sc):
        g = self.generator_of(sc)
        it = self.iterate(self.ev(e.value, sc))
        for v in it:
            g.emit(v)
        return it.value if isinstance(it, Gen) else None

    def comp(self, gens, sc, emit):
        def go(i, s):
            if i == len(gens):
                emit(s)
                return
            g = gens[i]
            for v in self.iterate(self.ev(g.iter, s if i else sc)):
                self.assign(g.target, v, s)
                if all(self.truth(self.ev(c, s)) for c in g.ifs):
                    go(i + 1, s)
        s = Scope(sc, sc.module)
        go(0, s)

    def e_ListComp(self, e, sc):
        out = []
        self.comp(e.generators, sc, lambda s: out.append(self.ev(e.elt, s)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, sc):
        return set(self.e_ListComp(e, sc))

    def e_DictComp(self, e, sc):
        out = {}

        def emit(s):
            out[self.hashable(self.ev(e.key, s))] = self.ev(e.value, s)
        self.comp(e.generators, sc, emit)
        return out

    # -------------------------------------------------------------- iteration
    def iterate(self, v):
        if isinstance(v, (list, tuple, range, str, set, frozenset)):
            return iter(v)
        if isinstance(v, dict):
            return iter(list(v))
        if isinstance(v, Arr):
            if v.a.ndim == 0:
                raise PyRaise(TypeError('iteration over a 0-d array'), self.where())
            return (wrap(v.a[i], v.mut) for i in range(v.a.shape[0]))
        if isinstance(v, S):
            raise PyRaise(TypeError('iteration over a 0-d array'), self.where())
        if isinstance(v, Obj):
            if v.cls.tuplelike:
                return iter([v.attrs[f[0]] for f in v.cls.dc])
            f, _ = v.cls.find('__iter__')
            if f is not None:
                return self.iterate(self.call(self.getattr(v, '__iter__'), [], {}))
            raise PyRaise(TypeError(f"'{v.cls.name}' object is not iterable"), self.where())
        if isinstance(v, IClass) and getattr(v, 'members', None) is not None:
            return iter(list(v.members.values()))
        if isinstance(v, Opaque):
            it = v.attrs.get('__iter__')
            if it is not None:
                return iter(it)
            raise Unmodelled(f'iteration over opaque {v.name} at {self.where()}')
        if hasattr(v, '__next__') or hasattr(v, '__iter__'):
            return iter(v)
        raise PyRaise(TypeError(f'not iterable: {type_name(v)}'), self.where())

    # ----------------------------------------------------------- subscripting
    def getitem(self, o, i):
        i = self.as_index(i)
        if isinstance(o, Arr):
            return self.libs['__np__']['__getitem__'](o, i)
        if isinstance(o, dict):
            try:
                return o[self.hashable(i)]
            except KeyError as ex:
                raise PyRaise(ex, self.where())
            except TypeError as ex:
                raise PyRaise(ex, self.where())
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(i, S):
                # symbolic position: select
                r = None
                for k in range(len(o)):
                    r = o[k] if r is None else self.merge(T.eq(i, k), o[k], r)
                return r
            try:
                return o[i]
            except (IndexError, TypeError) as ex:
                raise PyRaise(ex, self.where())
        if isinstance(o, Obj):
            if o.cls.tuplelike:
                return self.getitem(tuple(o.attrs[f[0]] for f in o.cls.dc), i)
            f, _ = o.cls.find('__getitem__')
            if f is not None:
                return self.call(self.getattr(o, '__getitem__'), [i], {})
        if isinstance(o, Opaque):
            return self.opaque_item(o, i)
        if hasattr(o, 'sa_getitem'):
            return o.sa_getitem(i)
        if isinstance(o, IClass) and getattr(o, 'members', None) is not None:
            if i not in o.members:
                raise PyRaise(KeyError(i), self.where())
            return o.members[i]
        if isinstance(o, (IClass, type, NS)) or callable(o):
            return o                       # generic alias
        if is_scalar(o):
            if i is Ellipsis or i == ():
                return o
            if i is None:
                return Arr(nd(o)[None])
            raise PyRaise(IndexError('invalid index to scalar variable'), self.where())
        if isinstance(o, Key):
            return Opaque('key-data')
        raise PyRaise(TypeError(f'{type_name(o)} is not subscriptable'), self.where())

    def setitem(self, o, i, v):
        i = self.as_index(i)
        if isinstance(o, Arr):
            if not o.mut:
                raise PyRaise(TypeError('JAX arrays are immutable'), self.where())
            o.a[self.libs['__np__']['__index__'](i)] = nd(v) if not is_scalar(v) else norm_scalar(v)
            return
        if isinstance(o, dict):
            o[self.hashable(i)] = v
            return
        if isinstance(o, list):
            try:
                o[i] = list(self.iterate(v)) if isinstance(i, slice) else v
            except IndexError as ex:
                raise PyRaise(ex, self.where())
            return
        if isinstance(o, Obj):
            self.call(self.getattr(o, '__setitem__'), [i, v], {})
            return
        if isinstance(o, Opaque):
            self.effect('setitem', o, (i, v), {})
            o.attrs[('item', repr(i))] = v
            return
        raise PyRaise(TypeError(f"'{type_name(o)}' object does not support item assignment"), self.where())

    # -------------------------------------------------------------- attributes
    def bind(self, v, o, c):
        if isinstance(v, (Func, JitFunc)):
            return Bound(v, o)
        if isinstance(v, Property):
            r = self.call(v.fget, [o], {})
            if getattr(v, 'once', False) and isinstance(o, Obj):
                o.attrs[getattr(v.fget, 'name', '')] = r
            return r
        if isinstance(v, Obj) and v.cls.find('__get__')[1] is not None:
            return self.call(self.getattr(v, '__get__'), [o if isinstance(o, Obj) else None, o.cls if isinstance(o, Obj) else o], {})
        if isinstance(v, StaticM):
            return v.fn
        if isinstance(v, ClassM):
            return Bound(v.fn, o.cls if isinstance(o, Obj) else o)
        if isinstance(v, NativeMethod):
            return Bound(v, o)
        return v

    def getattr(self, o, name, default=None, has_default=False):
        if isinstance(o, Obj):
            a = o.attrs
            if self.overlays:
                k = (id(o), name)
                for ov in self.overlays:
                    if k in ov:
                        v = ov[k][1]
                        if name in a and a[name] is not v and not same_value(a[name], v):
                            self.stale.append((ov.get('__fn__'), o.cls.name, name))
                        return v
            if name not in a or isinstance(o.cls.find(name)[0], Obj):
                d, c = o.cls.find(name)
                if isinstance(d, Obj) and d.cls.find('__get__')[1] is not None:
                    return self.bind(d, o, c)
            if name in a:
                v = a[name]
                if self.recorders:
                    for r in self.recorders:
                        r.setdefault((id(o), name), (o, v))
                return v
            v, c = o.cls.find(name)
            if c is not None:
                return self.bind(v, o, c)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            if name == 'replace' and o.cls.dc is not None:
                return lambda **kw: self.replace(o, kw)
            if name == '_replace' and o.cls.dc is not None:
                return lambda **kw: self.replace(o, kw)
            if name == '_asdict' and o.cls.dc is not None:
                return lambda: dict(o.attrs)
            if name == 'args' and o.cls.native_base():
                return o.attrs.get('args', ())
            f, c = o.cls.find('__getattr__')
            if f is not None:
                try:
                    return self.call(Bound(f, o), [name], {})
                except PyRaise as ex:
                    if has_default and isinstance(ex.value, AttributeError):
                        return default
                    raise
            for cc in o.cls.mro:
                for b in cc.bases:
                    if isinstance(b, Opaque):
                        return self.getattr(b, name)
            if has_default:
                return default
            raise PyRaise(AttributeError(f"'{o.cls.name}' object has no attribute '{name}'"), self.where())
        if isinstance(o, Module):
            if name in o.ns:
                return o.ns[name]
            sub = f'{o.name}.{name}'
            if sub in self.modules:
                return self.modules[sub]
            if has_default:
                return default
            raise PyRaise(AttributeError(f'module {o.name} has no attribute {name}'), self.where())
        if isinstance(o, NS):
            if name in o.d:
                return o.d[name]
            if name in ('__name__',):
                return o.name
            return Opaque(f'{o.name}.{name}')
        if isinstance(o, Super):
            mro = o.self_.cls.mro if isinstance(o.self_, Obj) else o.self_.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], o.self_, c)
            if name == '__init__':
                return lambda *a, **k: None
            if name in ('__setattr__',):
                return lambda n, v: o.self_.attrs.__setitem__(n, v)
            if has_default:
                return default
            raise PyRaise(AttributeError(f"'super' object has no attribute '{name}'"), self.where())
        if isinstance(o, (Arr, S)):
            f = self.libs['__arrattr__'](o, name)
            if f is not NotImplemented:
                return f
            if has_default:
                return default
            if hasattr(np.ndarray, name) or name in ('device', 'devices', 'block_until_ready', 'weak_type', 'addressable_data', 'is_fully_replicated', 'sharding'):
                raise Unmodelled(f'array attribute {name} at {self.where()}')
            raise PyRaise(AttributeError(f"array has no attribute '{name}'"), self.where())
        if isinstance(o, IClass):
            v, c = o.find(name)
            if c is not None:
                if isinstance(v, ClassM):
                    return Bound(v.fn, o)
                if isinstance(v, StaticM):
                    return v.fn
                return v
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__mro__':
                return tuple(o.mro) + (self.builtins['object'],)
            if name == '__bases__':
                return tuple(o.bases)
            if name == '__dict__':
                return o.ns
            if name == '__dataclass_fields__' and o.dc is not None:
                return {f[0]: f for f in o.dc}
            if has_default:
                return default
            raise PyRaise(AttributeError(f"class {o.name} has no attribute '{name}'"), self.where())
        if isinstance(o, Opaque):
            if name in o.attrs:
                return o.attrs[name]
            v = Opaque(f'{o.name}.{name}', parent=o)
            if not name.startswith('__'):
                o.attrs[name] = v
            elif name == '__enter__':
                return lambda *a: o
            elif name == '__exit__':
                return lambda *a: None
            return v
        if isinstance(o, Key):
            if name == 'shape':
                return (2,)
            if name == 'dtype':
                return 'uint32'
            return Opaque('key.' + name)
        if isinstance(o, Affine):
            f = self.libs['__affine__'](o, name)
            if f is not None:
                return f
            return Opaque('Affine2D.' + name)
        if isinstance(o, (Func, JitFunc)):
            if name in o.attrs:
                return o.attrs[name]
            f = o
            while isinstance(f, JitFunc):
                if name == '__wrapped__':
                    return f.fn
                if name in ('clear_cache', '_clear_cache'):
                    return lambda: o.cache.clear()
                if name in ('lower', 'trace', 'eval_shape'):
                    return Opaque('jit.' + name)
                f = f.fn
            if name in ('__name__', '__qualname__'):
                return f.name if isinstance(f, Func) else 'fn'
            if name == '__doc__':
                return ast.get_docstring(f.node) if isinstance(f, Func) and not isinstance(f.node, ast.Lambda) else None
            if name == '__get__':
                return lambda inst, c=None: Bound(o, inst)
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.fn
            return self.getattr(o.fn, name, default, has_default)
        if isinstance(o, Property):
            if name == 'setter':
                def setter(f):
                    return Property(o.fget, f)
                return setter
        if isinstance(o, Partial):
            if name == 'func':
                return o.fn
            if name == 'args':
                return o.args
            if name == 'keywords':
                return o.kwargs
        if isinstance(o, slice):
            return getattr(o, name)
        if o is None or isinstance(o, (int, bool, str, list, dict, tuple, set, frozenset, range, F, BaseException)) or isinstance(o, type) or hasattr(o, name):
            if isinstance(o, (int, bool)) and not hasattr(o, name):
                f = self.libs['__arrattr__'](T.num(int(o)), name)
                if f is not NotImplemented:
                    return f
            if isinstance(o, type) and name in ('__name__',):
                return o.__name__
            try:
                return getattr(o, name)
            except AttributeError as ex:
                if has_default:
                    return default
                raise PyRaise(ex, self.where())
        if has_default:
            return default
        if type(o).__module__ == 'sa.libs':
            raise Unmodelled(f'attribute {name} of {type_name(o)} at {self.where()}')
        raise PyRaise(AttributeError(f"'{type_name(o)}' object has no attribute '{name}'"), self.where())

    def hasattr(self, o, name):
        if isinstance(o, Opaque):
            return self.decide(T.bsym(f'opaque:hasattr:{o.name}.{name}'))
        try:
            self.getattr(o, name)
            return True
        except PyRaise as e:
            if isinstance(e.value, AttributeError):
                return False
            raise

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            d, c = o.cls.find(name)
            if isinstance(d, Obj) and d.cls.find('__set__')[1] is not None:
                self.call(self.getattr(d, '__set__'), [o, v], {})
                return
            if isinstance(d, Property) and not getattr(d, 'once', False):
                if d.fset is None:
                    raise PyRaise(AttributeError(f"can't set attribute '{name}'"), self.where())
                self.call(d.fset, [o, v], {})
                return
            if o.cls.dc is not None and getattr(o.cls, 'frozen', False):
                raise PyRaise(AttributeError(f'cannot assign to field {name} (frozen dataclass)'), self.where())
            f, c = o.cls.find('__setattr__')
            if f is not None:
                self.call(Bound(f, o), [name, v], {})
                return
            o.attrs[name] = v
            self.events.append(('setattr', o, name, self.where()))
            return
        if isinstance(o, (IClass,)):
            o.ns[name] = v
            return
        if isinstance(o, Module):
            o.ns[name] = v
            return
        if isinstance(o, (Opaque, Func, JitFunc)):
            o.attrs[name] = v
            if isinstance(o, Opaque):
                self.effect(f'{o.name}.{name}=', o, (v,), {})
            return
        raise PyRaise(AttributeError(f"'{type_name(o)}' object attribute '{name}' is read-only"), self.where())

    def replace(self, o, kw):
        n = Obj(o.cls)
        n.attrs = dict(o.attrs)
        names = [f[0] for f in o.cls.dc]
        for k, v in kw.items():
            if k not in names:
                raise PyRaise(TypeError(f'replace() got an unexpected field {k}'), self.where())
            n.attrs[k] = v
        post, _ = o.cls.find('__post_init__')
        if post is not None:
            for k in list(n.attrs):
                if k not in names:
                    del n.attrs[k]
            self.call(Bound(post, n), [], {})
        return n

    # -------------------------------------------------------------------- calls
    def mkfunc(self, node, sc):
        a = node.args
        defaults = [self.ev(d, sc) for d in a.defaults]
        kwd = {k.arg: self.ev(d, sc) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(node, 'name', '<lambda>')
        f = Func(node, sc, defaults, kwd, name, sc.module)
        outer = self.stack[-1][0] if self.stack else ''
        if not sc.iscls and outer not in ('<module>', ''):
            f.qual = f'{outer}.<locals>.{name}'
        return f

    def e_Call(self, e, sc):
        fe = e.func
        if isinstance(fe, ast.Name) and fe.id == 'super' and not e.args:
            s = sc
            while s is not None:
                if s.func is not None or '__class_cell__' in s.vars:
                    if '__class_cell__' in s.vars:
                        return Super(s.vars['__class_cell__'], s.vars['__self_cell__'])
                s = s.parent
            raise PyRaise(RuntimeError('super(): no arguments'), self.where())
        if isinstance(fe, ast.Name) and fe.id in ('locals', 'globals') and not e.args:
            try:
                self.lookup(fe.id, sc)
            except PyRaise:
                return sc.module.ns if fe.id == 'globals' else sc.vars
        f = self.ev(fe, sc)
        args = self.elts(e.args, sc)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.ev(k.value, sc)
                if isinstance(m, dict):
                    kwargs.update(m)
                else:
                    raise Unmodelled('** of ' + type_name(m))
            else:
                kwargs[k.arg] = self.ev(k.value, sc)
        self.stack[-1][2] = e.lineno
        return self.call(f, args, kwargs)

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, JitFunc):
            return self.call_jit(f, list(args), kwargs)
        if isinstance(f, NativeMethod):
            return f.fn(*args, **kwargs)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, IClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Opaque):
            return self.call_opaque(f, args, kwargs)
        if isinstance(f, Obj):
            c, _ = f.cls.find('__call__')
            if c is not None:
                return self.call(Bound(c, f), args, kwargs)
            raise PyRaise(TypeError(f"'{f.cls.name}' object is not callable"), self.where())
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, ClassM):
            return self.call(f.fn, args, kwargs)
        if f is None or isinstance(f, (S, Arr, str, list, dict, tuple, Module, NS)):
            raise PyRaise(TypeError(f"'{type_name(f)}' object is not callable"), self.where())
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*args)
        if callable(f):
            slf = getattr(f, '__self__', None)
            if isinstance(slf, (list, dict, set, str, tuple, int)) and not isinstance(slf, bool):
                return self.call_native_method(f, slf, args, kwargs)
            try:
                return f(*args, **kwargs)
            except TypeError as ex:
                tb = ex.__traceback__
                depth = 0
                while tb is not None:
                    depth += 1
                    tb = tb.tb_next
                if depth <= 1:
                    raise Unmodelled(f'library model {getattr(f, "__name__", f)}: {ex} at {self.where()}')
                raise
        raise Unmodelled(f'call of {f!r} at {self.where()}')

    def call_native_method(self, f, slf, args, kwargs):
        name = f.__name__
        if name == 'sort':
            key = kwargs.get('key')
            r = self.builtins['sorted'](slf, key=key, reverse=kwargs.get('reverse', False))
            slf[:] = r
            return None
        if name == 'extend':
            slf.extend(list(self.iterate(args[0])))
            return None
        if name == 'join':
            return slf.join(str(x) if not isinstance(x, str) else x for x in self.iterate(args[0]))
        if name == 'format' and isinstance(slf, str):
            try:
                return slf.format(*[self.plain(a) for a in args], **{k: self.plain(v) for k, v in kwargs.items()})
            except Exception:
                return slf
        if name in ('index', 'count', 'remove') and isinstance(slf, (list, tuple)):
            pass
        args = [self.as_index(a) if isinstance(a, S) and isinstance(slf, (list, str)) and name in ('pop', 'insert') else a for a in args]
        if isinstance(slf, dict) and name in ('get', 'pop', 'setdefault') and args:
            args = [self.hashable(args[0])] + list(args[1:])
        if isinstance(slf, dict) and name == 'update' and args and not isinstance(args[0], dict):
            args = [dict(self.iterate(args[0]))]
        try:
            r = f(*args, **kwargs)
        except (KeyError, IndexError, ValueError, TypeError, AttributeError) as ex:
            raise PyRaise(ex, self.where())
        if isinstance(r, float):
            r = T.flt(r)
        if name in ('keys', 'values', 'items'):
            r = list(r)
        return r

    def call_opaque(self, f, args, kwargs):
        h = self.libs['__opaque_call__'].get(f.name)
        if h is not None:
            return h(f, args, kwargs)
        r = Opaque(f.name + '()', args, kwargs, parent=f.parent)
        self.effect(f.name, f, args, kwargs, r)
        # methods of figures/axes that hand back their argument
        last = f.name.rsplit('.', 1)[-1]
        if last in ('add_patch', 'add_artist') and args:
            return args[0]
        if last == 'plot':
            r.attrs['__iter__'] = [self.opaque_item(r, 0)]
        return r

    def effect(self, name, f, args, kwargs, result=None):
        self.events.append(('call', name, tuple(list(a) if type(a) is list else a for a in args), dict(kwargs), self.where(), f, result, self.pc))

    def is_generator(self, f):
        if f.isgen is None:
            f.isgen = False
            if not isinstance(f.node, ast.Lambda):
                st = list(f.node.body)
                while st:
                    n = st.pop()
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        f.isgen = True
                        break
                    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    st.extend(ast.iter_child_nodes(n))
        return f.isgen

    def bind_args(self, f, args, kwargs, sc):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        v = sc.vars
        kwargs = dict(kwargs)
        if len(args) > len(pos) and a.vararg is None:
            raise PyRaise(TypeError(f'{f.name}() takes {len(pos)} positional arguments but {len(args)} were given'), self.where())
        for n, x in zip(pos, args):
            v[n] = x
        if a.vararg is not None:
            v[a.vararg.arg] = tuple(args[len(pos):])
        nd_ = len(f.defaults)
        for i, n in enumerate(pos):
            if i < len(args):
                if n in kwargs:
                    raise PyRaise(TypeError(f"{f.name}() got multiple values for argument '{n}'"), self.where())
                continue
            if n in kwargs:
                v[n] = kwargs.pop(n)
            else:
                k = i - (len(pos) - nd_)
                if k >= 0:
                    v[n] = f.defaults[k]
                else:
                    raise PyRaise(TypeError(f"{f.name}() missing required argument: '{n}'"), self.where())
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                v[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                v[x.arg] = f.kwdefaults[x.arg]
            else:
                raise PyRaise(TypeError(f"{f.name}() missing keyword-only argument: '{x.arg}'"), self.where())
        if a.kwarg is not None:
            v[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyRaise(TypeError(f"{f.name}() got an unexpected keyword argument '{next(iter(kwargs))}'"), self.where())

    def call_func(self, f, args, kwargs):
        sc = Scope(f.scope, f.module)
        self.bind_args(f, args, kwargs, sc)
        if len(self.stack) > 180:
            raise Unmodelled('recursion too deep at ' + str(self.where()))
        if f.cls is not None:
            first = f.node.args.posonlyargs + f.node.args.args
            sc.vars['__class_cell__'] = f.cls
            sc.vars['__self_cell__'] = sc.vars[first[0].arg] if first else None
        node = f.node
        if not f.module.path.startswith('<'):
            self.visited.setdefault(f.qual, f'{os.path.relpath(f.module.path, self.repo)}:{node.lineno}')
        if self.is_generator(f):
            sc.func = Gen(self, f, sc)
            return sc.func
        self.stack.append([f.qual, f.module.path, node.lineno])
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, sc)
            try:
                self.block(node.body, sc)
            except Ret as r:
                return r.v
            return None
        finally:
            self.stack.pop()

    # jit: attributes of objects are baked into the trace -------------------
    def sig(self, v):
        if isinstance(v, Arr):
            return ('a', v.a.shape)
        if is_scalar(v):
            return 's'
        if isinstance(v, (list, tuple)):
            return (type(v).__name__,) + tuple(self.sig(x) for x in v)
        if isinstance(v, dict):
            return ('d',) + tuple((k, self.sig(x)) for k, x in sorted(v.items(), key=lambda kv: str(kv[0])))
        if isinstance(v, Obj) and v.cls.dc is not None:
            return (v.cls.name,) + tuple(self.sig(x) for x in v.attrs.values())
        if v is None:
            return None
        return ('o', type(v).__name__)

    def static_key(self, v):
        if isinstance(v, Obj) and v.cls.find('__eq__')[1] is None and v.cls.dc is None or isinstance(v, (Func, JitFunc, IClass, Opaque, Module, Partial)):
            return id(v)
        if isinstance(v, Obj):
            return (id(v.cls), self.sig(v))
        if callable(v):
            return id(v)
        if isinstance(v, Bound):
            return (id(v.fn), id(v.self_))
        if isinstance(v, tuple):
            return tuple(self.static_key(x) for x in v)
        return v

    def call_jit(self, f, args, kwargs):
        if not self.jit_model:
            return self.call(f.fn, args, kwargs)
        key = []
        for i, a in enumerate(args):
            if i in f.static or isinstance(a, (Func, Bound, Opaque, Partial, JitFunc)) or (callable(a) and not isinstance(a, (Obj, S, Arr))):
                key.append(self.static_key(a))
            elif isinstance(a, Obj) and a.cls.dc is None:
                key.append(id(a))
            else:
                key.append(self.sig(a))
        for k, v in sorted(kwargs.items()):
            key.append((k, self.static_key(v) if k in f.static_names else self.sig(v)))
        try:
            key = tuple(key)
            hash(key)
        except TypeError:
            raise PyRaise(ValueError('Non-hashable static arguments'), self.where())
        snap = f.cache.get(key)
        if snap is None:
            rec = {'__fn__': f}
            self.recorders.append(rec)
            try:
                r = self.call(f.fn, args, kwargs)
            finally:
                self.recorders.pop()
            f.cache[key] = rec
            return r
        # reads recorded by an enclosing trace as well
        for rec in self.recorders:
            for k, v in snap.items():
                if k != '__fn__':
                    rec.setdefault(k, v)
        self.overlays.append(snap)
        try:
            return self.call(f.fn, args, kwargs)
        finally:
            self.overlays.pop()

    def instantiate(self, c, args, kwargs):
        if getattr(c, 'members', None) is not None:
            for m in c.members.values():
                if m is args[0] or self.truth(self.compare('eq', m.value, args[0])):
                    return m
            raise PyRaise(ValueError(f'{args[0]} is not a valid {c.name}'), self.where())
        nb = c.native_base()
        o = Obj(c)
        if nb is not None and issubclass(nb, BaseException):
            o.attrs['args'] = tuple(args)
        new, _ = c.find('__new__')
        init, _ = c.find('__init__')
        if c.dc is not None and (init is None or isinstance(init, NativeMethod)):
            self.dc_init(o, c, args, kwargs)
        elif init is not None:
            self.call(Bound(init, o), args, kwargs)
        elif args or kwargs:
            if nb is None and not any(isinstance(b, Opaque) for cc in c.mro for b in cc.bases):
                raise PyRaise(TypeError(f'{c.name}() takes no arguments'), self.where())
        return o

    def dc_init(self, o, c, args, kwargs):
        names = [f[0] for f in c.dc]
        if len(args) > len(names):
            raise PyRaise(TypeError(f'{c.name}() takes {len(names)} arguments'), self.where())
        kwargs = dict(kwargs)
        for n, v in zip(names, args):
            o.attrs[n] = v
        for n, dflt, fac in c.dc:
            if n in o.attrs:
                if n in kwargs:
                    raise PyRaise(TypeError(f'multiple values for {n}'), self.where())
                continue
            if n in kwargs:
                o.attrs[n] = kwargs.pop(n)
            elif fac is not None:
                o.attrs[n] = self.call(fac, [], {})
            elif dflt is not MISSING:
                o.attrs[n] = dflt
            else:
                raise PyRaise(TypeError(f"{c.name}() missing required argument: '{n}'"), self.where())
        if kwargs:
            raise PyRaise(TypeError(f"{c.name}() got an unexpected keyword argument '{next(iter(kwargs))}'"), self.where())
        post, _ = c.find('__post_init__')
        if post is not None:
            self.call(Bound(post, o), [], {})

    # ----------------------------------------------------------------- merging
    def merge(self, c, a, b):
        """if c then a else b over whole values (pytrees)"""
        k = c.const() if isinstance(c, S) else bool(c)
        if k is not None:
            return a if k else b
        if a is b:
            return a
        if isinstance(a, Arr) or isinstance(b, Arr):
            if is_scalar(a) or is_scalar(b) or (isinstance(a, Arr) and isinstance(b, Arr)):
                return ew(lambda x, y: T.ite(c, x, y), a, b)
        if is_scalar(a) and is_scalar(b):
            if isinstance(a, int) and isinstance(b, int) and a == b and type(a) is type(b):
                return a
            return T.ite(c, norm_scalar(a), norm_scalar(b))
        if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
            return type(a)(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
            return {k: self.merge(c, a[k], b[k]) for k in a}
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.cls.dc is not None:
            n = Obj(a.cls)
            for k in a.attrs:
                n.attrs[k] = self.merge(c, a.attrs[k], b.attrs[k])
            return n
        if a is None and b is None:
            return None
        if isinstance(a, str) and a == b:
            return a
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return Opaque('merge', (a, b))
        raise PyRaise(TypeError(f'branch outputs differ in structure: {type_name(a)} vs {type_name(b)}'), self.where())


class _Missing:
    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()


class NativeMethod:
    def __init__(self, fn):
        self.fn = fn


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.a.shape == b.a.shape and all(same_value(x, y) for x, y in zip(a.a.reshape(-1), b.a.reshape(-1)))
    if is_scalar(a) and is_scalar(b):
        try:
            return T.to_num(a).d is T.to_num(b).d
        except TypeError:
            return False
    if type(a) is type(b) and isinstance(a, (str, int, tuple, list, dict)):
        try:
            return a == b
        except Exception:
            return False
    return False


def partition(run, limit=64, repo=None):
    """run(interp) for every feasible combination of data-dependent branches.

    returns [(path condition Dec, ('ok', value) | ('raise', exc), interp)]
    """
    out = []
    work = [[]]
    while work:
        prefix = work.pop()
        it = Interp(repo, prefix)
        try:
            res = ('ok', run(it))
        except PyRaise as e:
            res = ('raise', e)
        except Infeasible:
            continue
        for i in range(len(prefix), len(it.taken)):
            work.append([t[1] for t in it.taken[:i]] + [not it.taken[i][1]])
        out.append((it.pc, res, it))
        if len(out) + len(work) > limit:
            raise TooManyPaths(f'more than {limit} traces; branches: ' + '; '.join(sorted({str(t[2]) for t in it.taken})[:8]))
    return out
