"""Symbolic, path-joining interpreter for the Python and Cython layers.

Values are immutable terms (tuples):
  ('const', v)  ('arg', fn, name)  ('name', n)  ('self', mod, cls)
  ('attr', t, n)  ('item', t, k)  ('slice', a, b, c)  ('elem', t)
  ('call', f, args, kwargs)  ('op', o, ...)  ('list'|'tuple'|'set', items)
  ('obj', n)  a dict or list literal whose contents live in the state
  ('func', mod, qual)  ('class', mod, name)  ('module', name)
  ('phi', frozenset)  ('fstr', parts)  ('lambda', id)
Branches on constants are decided; all others are taken and joined.  Calls of
package functions are inlined.  Every store and call is reported to the hooks
with the conditions it is under.  Nothing is executed.
"""
import ast

from . import cy2py
from .cxx import AnalysisBroken

ABSENT = ('absent',)
NONE = ('const', None)
UNK = ('name', '?')


def const(v):
    return ('const', v)


def isconst(t):
    return t[0] == 'const'


def phi(ts):
    s = set()
    for t in ts:
        if t[0] == 'phi':
            s |= t[1]
        else:
            s.add(t)
    if len(s) == 1:
        return next(iter(s))
    return ('phi', frozenset(s))


def alts(t):
    return list(t[1]) if t[0] == 'phi' else [t]


def subterms(t):
    """Every term inside t, t included."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            stack.extend(x)


def show(t, depth=6):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth == 0:
        return '…'
    k = t[0]
    d = depth - 1
    if k == 'const':
        return repr(t[1])
    if k == 'name':
        return t[1]
    if k == 'arg':
        return t[2]
    if k == 'self':
        return 'self'
    if k == 'attr':
        return f'{show(t[1], d)}.{t[2]}'
    if k == 'item':
        return f'{show(t[1], d)}[{show(t[2], d)}]'
    if k == 'elem':
        return f'each({show(t[1], d)})'
    if k == 'call':
        a = [show(x, d) for x in t[2]] + [
            f'{n}={show(v, d)}' for n, v in t[3]]
        return f'{show(t[1], d)}({", ".join(a)})'
    if k == 'op':
        return f'{t[1]}({", ".join(show(x, d) for x in t[2:])})'
    if k in ('list', 'tuple', 'set'):
        return f'{k}({", ".join(show(x, d) for x in t[1])})'
    if k in ('func', 'class'):
        return t[2]
    if k == 'module':
        return t[1]
    if k == 'phi':
        return ' | '.join(sorted(show(x, d) for x in t[1]))
    if k == 'fstr':
        return 'f"' + ''.join(show(x, d) for x in t[1]) + '"'
    if k == 'slice':
        return ':'.join('' if x is None else show(x, d) for x in t[1:3])
    return str(t[:2])


class St:
    __slots__ = ('frames', 'heap', 'over', 'conds', 'extra')

    def __init__(self):
        self.frames = [{}]
        self.heap = {}
        self.over = {}
        self.conds = ()
        self.extra = {}

    def fork(self):
        s = St()
        s.frames = [dict(f) for f in self.frames]
        s.heap = {k: (v[0], dict(v[1])) for k, v in self.heap.items()}
        s.over = dict(self.over)
        s.conds = self.conds
        s.extra = dict(self.extra)
        return s


STRM = {'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'split',
        'startswith', 'endswith', 'join', 'format', 'encode', 'decode',
        'title', 'capitalize', 'count', 'find', 'index', 'removesuffix',
        'removeprefix', 'zfill', 'rsplit'}
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
       ast.Mod: '%', ast.Pow: '**', ast.FloorDiv: '//', ast.MatMult: '@',
       ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<',
       ast.RShift: '>>', ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<',
       ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=', ast.Is: 'is',
       ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


def pyop(o, a, b):
    import operator as p
    f = {'+': p.add, '-': p.sub, '*': p.mul, '/': p.truediv, '%': p.mod,
         '**': p.pow, '//': p.floordiv, '|': p.or_, '&': p.and_, '==': p.eq,
         '!=': p.ne, '<': p.lt, '>': p.gt, '<=': p.le, '>=': p.ge,
         'is': lambda x, y: x is y if x is None or y is None or isinstance(
             x, bool) else x == y,
         'is not': lambda x, y: not (x is y if x is None or y is None or
                                     isinstance(x, bool) else x == y),
         'in': lambda x, y: x in y, 'not in': lambda x, y: x not in y,
         '^': p.xor}.get(o)
    if f is None:
        raise ValueError
    if o == '**' and (abs(b) > 64 or abs(a) > 1e6):
        raise ValueError
    return f(a, b)


class Module:
    """Top-level names of one module of the package."""

    def __init__(self, fname):
        self.fname = fname
        self.tree = cy2py.module(fname)
        self.funcs, self.classes, self.imports = {}, {}, {}
        self.consts = {}
        self.scan(self.tree.body)

    def scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
                for x in s.body:
                    if isinstance(x, ast.FunctionDef):
                        key = f'{s.name}.{x.name}'
                        if not any(isinstance(d, ast.Attribute) and
                                   d.attr == 'setter'
                                   for d in x.decorator_list):
                            self.funcs[key] = x
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (
                        a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = (
                        s.module or '', a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self.scan(s.body)
                for h in getattr(s, 'handlers', []):
                    self.scan(h.body)
                self.scan(s.orelse)


_mods = {}


def modules():
    import os
    from .cxx import PKG
    if not _mods:
        for f in sorted(os.listdir(PKG)):
            if f.endswith(('.py', '.pyx')):
                _mods[f] = Module(f)
    return _mods


def find_module(name):
    """File of a package module given an import name."""
    base = name.split('.')[-1]
    for ext in ('.py', '.pyx'):
        if base + ext in modules():
            return base + ext
    return None


class Stop(Exception):
    pass


class Dead(Exception):
    """The path ended in the middle of a statement."""


class PySym:
    maxdepth = 8
    unroll = 16

    def __init__(self):
        self.mods = modules()
        self.nobj = 0
        self.stack = []         # (mod, qual)
        self.rets = []
        self.loops = []
        self.st = None

    # ------------------------------------------------------------- hooks
    def on_store(self, target, value, node):
        """target: ('attr'|'item'|..) term being assigned."""

    def on_call(self, f, args, kw, node):
        """Return a term to override the call, else None."""

    def inline(self, f):
        return True

    def on_return(self, value, node):
        pass

    def on_load(self, t, node):
        pass

    def on_test(self, t, node):
        pass

    # ------------------------------------------------------------- driver
    def run(self, mod, qual, args=None, st=None):
        """Interpret a function with symbolic arguments; returns the term
        it returns.  args maps parameter names to terms."""
        m = self.mods[mod]
        fn = m.funcs.get(qual)
        if fn is None:
            raise AnalysisBroken(f'{mod}: no function {qual}')
        self.st = st or St()
        env = {}
        a = fn.args
        cls = qual.split('.')[0] if '.' in qual else None
        deco = {getattr(d, 'id', getattr(d, 'attr', ''))
                for d in fn.decorator_list}
        allargs = a.posonlyargs + a.args + a.kwonlyargs
        for i, x in enumerate(allargs):
            if cls and i == 0 and 'staticmethod' not in deco:
                env[x.arg] = ('class', mod, cls) if 'classmethod' in deco \
                    else ('self', mod, cls)
            else:
                env[x.arg] = ('arg', qual, x.arg)
        if a.vararg:
            env[a.vararg.arg] = ('arg', qual, '*' + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ('arg', qual, '**' + a.kwarg.arg)
        env.update(args or {})
        return self.call_body(mod, qual, fn, env)

    def call_body(self, mod, qual, fn, env):
        self.stack.append((mod, qual))
        self.st.frames.append(env)
        self.rets.append([])
        saved, self.loops = self.loops, []
        conds = self.st.conds
        self.block(fn.body)
        self.loops = saved
        rets = self.rets.pop()
        if self.st is not None:
            rets.append((self.st, NONE))
        self.stack.pop()
        if not rets:
            self.st = None
            return UNK
        st = rets[0][0]
        for s, _ in rets[1:]:
            st = self.join(st, s)
        st.frames.pop()
        st.conds = conds
        self.st = st
        return phi([v for _, v in rets])

    # ------------------------------------------------------------- states
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        s = St()
        s.frames = []
        for x, y in zip(a.frames, b.frames):
            f = {}
            for k in x.keys() | y.keys():
                u, w = x.get(k), y.get(k)
                f[k] = u if u == w else phi(
                    [t if t is not None else ('unbound', k)
                     for t in (u, w)])
            s.frames.append(f)
        for k in a.heap.keys() | b.heap.keys():
            u, w = a.heap.get(k), b.heap.get(k)
            if u is None or w is None:
                s.heap[k] = u or w
                continue
            d = {}
            for q in list(u[1]) + [q for q in w[1] if q not in u[1]]:
                p, r = u[1].get(q), w[1].get(q)
                d[q] = p if p == r else phi(
                    [t if t is not None else ('absent',) for t in (p, r)])
            s.heap[k] = (u[0], d)
        for k in a.over.keys() | b.over.keys():
            u, w = a.over.get(k), b.over.get(k)
            s.over[k] = u if u == w else phi(
                [t if t is not None else k for t in (u, w)])
        n = 0
        for p, q in zip(a.conds, b.conds):
            if p != q:
                break
            n += 1
        s.conds = a.conds[:n]
        s.extra = self.join_extra(a.extra, b.extra)
        return s

    def join_extra(self, a, b):
        return a if a == b else {**a, **b}

    # ------------------------------------------------------------- stmts
    def block(self, body):
        for s in body:
            if self.st is None:
                return
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is not None:
                try:
                    m(s)
                except Dead:
                    if self.st is not None:
                        raise

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)
        elif hasattr(s, 'ctype'):
            self.assign(s.target, ('cdecl', s.ctype, s.target.id), s)

    def s_AugAssign(self, s):
        cur = self.ev(load(s.target))
        v = self.binop(OPS[type(s.op)], cur, self.ev(s.value))
        self.on_aug(s, cur, v)
        self.assign(s.target, v, s)

    def on_aug(self, node, cur, v):
        pass

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.on_return(v, s)
        if self.st is not None:
            self.rets[-1].append((self.st, v))
        self.st = None

    def s_Raise(self, s):
        if s.exc is not None:
            self.ev(s.exc)
        self.on_raise(s)
        self.st = None

    def on_raise(self, node):
        pass

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.on_del(self.ev(load(t)), t)
                self.st.frames[-1].pop(t.id, None)
            else:
                self.on_del(self.ev(load(t)), t)

    def on_del(self, t, node):
        pass

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    def s_FunctionDef(self, s):
        self.st.frames[-1][s.name] = ('localfn', id(s))
        self.local = getattr(self, 'local', {})
        self.local[id(s)] = s

    def s_Assert(self, s):
        self.ev(s.test)

    def s_Import(self, s):
        for a in s.names:
            self.st.frames[-1][a.asname or a.name.split('.')[0]] = (
                'module', a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s):
        for a in s.names:
            self.st.frames[-1][a.asname or a.name] = self.imported(
                s.module or '', a.name)

    def truth(self, t):
        if t[0] == 'const':
            return bool(t[1])
        if t[0] in ('list', 'tuple', 'set'):
            return bool(t[1])
        if t[0] in ('func', 'class', 'module', 'localfn', 'self'):
            return True
        if t[0] == 'phi':
            r = {self.truth(x) for x in t[1]}
            return r.pop() if len(r) == 1 else None
        if t[0] == 'op' and t[1] == 'not':
            x = self.truth(t[2])
            return None if x is None else not x
        return self.known(t)

    def known(self, t):
        """Is the truth of t fixed by the conditions we are under?"""
        for c, pol, _ in self.st.conds:
            if c == t:
                return pol
        return None

    def assume(self, st, t, pol, node):
        """State st under t == pol (st is mutated and returned)."""
        def add(t, pol):
            if t[0] == 'op' and t[1] == 'not':
                add(t[2], not pol)
                return
            if t[0] == 'op' and t[1] == 'and' and pol:
                for x in t[2:]:
                    add(x, True)
                return
            if t[0] == 'op' and t[1] == 'or' and not pol:
                for x in t[2:]:
                    add(x, False)
                return
            st.conds = st.conds + ((t, pol, node.lineno),)
        add(t, pol)
        return st

    def s_If(self, s):
        t = self.ev(s.test)
        if self.st is None:
            return
        self.on_test(t, s)
        r = self.truth(t)
        if r is True:
            self.block(s.body)
            return
        if r is False:
            self.block(s.orelse)
            return
        base = self.st
        conds = base.conds
        self.st = self.assume(base.fork(), t, True, s)
        self.narrow(s.test, True)
        self.block(s.body)
        a = self.st
        self.st = self.assume(base, t, False, s)
        self.narrow(s.test, False)
        self.block(s.orelse)
        b = self.st
        both = a is not None and b is not None
        self.st = self.join(a, b)
        if both and self.st is not None:
            self.st.conds = self.st.conds[:len(conds)] if len(
                self.st.conds) > len(conds) else self.st.conds

    def narrow(self, test, pol):
        """x is None / x == const tests fix the variable."""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Name):
            op = type(test.ops[0])
            if (op in (ast.Is, ast.Eq) and pol) or (
                    op in (ast.IsNot, ast.NotEq) and not pol):
                c = test.comparators[0]
                if isinstance(c, ast.Constant) and (
                        c.value is None or isinstance(c.value, str)):
                    f = self.st.frames[-1]
                    cur = f.get(test.left.id)
                    if cur is not None and cur[0] in ('phi', 'arg'):
                        f[test.left.id] = const(c.value)
            elif c_none(test):
                f = self.st.frames[-1]
                cur = f.get(test.left.id)
                if cur is not None and cur[0] == 'phi':
                    rest = [x for x in cur[1] if x != NONE]
                    if rest:
                        f[test.left.id] = phi(rest)

    def items(self, t):
        """Concrete elements of an iterable term, or None."""
        if t[0] in ('list', 'tuple'):
            if any(x[0] == 'star' for x in t[1]):
                return None
            return list(t[1])
        if t[0] == 'set':
            return sorted(t[1], key=repr)
        if t[0] == 'const' and isinstance(t[1], (str, tuple, list)):
            return [const(x) for x in t[1]]
        if t[0] == 'const' and isinstance(t[1], (frozenset, dict)):
            return [const(x) for x in sorted(t[1], key=repr)]
        if t[0] == 'obj':
            k, d = self.st.heap[t]
            if k == 'list':
                return list(d.values()) if '*' not in d else None
            return [x for x in d if x != '*'] if '*' not in d else None
        if t[0] == 'call' and t[1] == ('name', 'range'):
            if all(isconst(a) and isinstance(a[1], int) for a in t[2]):
                r = range(*[a[1] for a in t[2]])
                if len(r) <= self.unroll:
                    return [const(i) for i in r]
            return None
        if t[0] == 'call' and t[1] == ('name', 'enumerate') and t[2]:
            x = self.items(t[2][0])
            if x is not None:
                return [('tuple', (const(i), v)) for i, v in enumerate(x)]
        if t[0] == 'call' and t[1] == ('name', 'zip'):
            xs = [self.items(a) for a in t[2]]
            if any(x is not None for x in xs):
                n = min(len(x) for x in xs if x is not None)
                cols = [x if x is not None else [
                    ('item', a, const(i)) for i in range(n)]
                    for a, x in zip(t[2], xs)]
                return [('tuple', tuple(c)) for c in zip(*cols)]
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in (
                'items', 'keys', 'values') and t[1][1][0] == 'obj':
            k, d = self.st.heap[t[1][1]]
            if k == 'dict' and '*' not in d:
                if t[1][2] == 'items':
                    return [('tuple', (a, b)) for a, b in d.items()]
                return list(d) if t[1][2] == 'keys' else list(d.values())
        if t[0] == 'call' and t[1] in (('name', 'list'), ('name', 'tuple'),
                                       ('name', 'sorted'),
                                       ('name', 'reversed')) and \
                len(t[2]) == 1:
            x = self.items(t[2][0])
            if x is not None and t[1][1] == 'reversed':
                x = x[::-1]
            return x
        return None

    def elem(self, it):
        if it[0] == 'call' and it[1] == ('name', 'enumerate') and it[2]:
            return ('tuple', (('index', it[2][0]), self.elem(it[2][0])))
        if it[0] == 'call' and it[1] == ('name', 'zip'):
            return ('tuple', tuple(self.elem(a) for a in it[2]))
        return ('elem', it)

    def s_For(self, s):
        it = self.ev(s.iter)
        if self.st is None:
            return
        xs = self.items(it)
        brk = []
        if xs is not None and len(xs) <= self.unroll:
            for x in xs:
                if self.st is None:
                    break
                self.assign(s.target, x, s)
                cont = []
                self.loops.append((brk, cont))
                self.block(s.body)
                self.loops.pop()
                for c in cont:
                    self.st = self.join(self.st, c)
        else:
            before = self.st.fork()
            for _ in range(2):
                if self.st is None:
                    break
                self.assign(s.target, self.elem(it), s)
                cont = []
                self.loops.append((brk, cont))
                self.block(s.body)
                self.loops.pop()
                for c in cont:
                    self.st = self.join(self.st, c)
                self.st = self.join(self.st, before.fork())
        if self.st is not None and s.orelse:
            self.block(s.orelse)
        for b in brk:
            self.st = self.join(self.st, b)

    def s_While(self, s):
        brk = []
        t = self.ev(s.test)
        before = self.st.fork()
        for _ in range(2):
            if self.st is None:
                break
            cont = []
            self.loops.append((brk, cont))
            self.block(s.body)
            self.loops.pop()
            for c in cont:
                self.st = self.join(self.st, c)
            if self.st is not None:
                self.ev(s.test)
            self.st = self.join(self.st, before.fork())
        if self.truth(t) is True:
            self.st = None
        for b in brk:
            self.st = self.join(self.st, b)

    def s_Break(self, s):
        if self.loops:
            self.loops[-1][0].append(self.st)
        self.st = None

    def s_Continue(self, s):
        if self.loops:
            self.loops[-1][1].append(self.st)
        self.st = None

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, s)
        self.block(s.body)

    def s_Try(self, s):
        start = self.st.fork()
        conds = self.st.conds
        self.in_try(s, True)
        self.block(s.body)
        self.in_try(s, False)
        end = self.st
        if end is not None and s.orelse:
            e2 = end.fork()
            self.block(s.orelse)
            normal, end = self.st, e2
        else:
            normal = end
        outs = [normal]
        for h in s.handlers:
            self.st = self.join(start.fork(), end.fork() if end is not None
                                else None)
            self.st.conds = conds + ((('except', handler_names(h)), True,
                                      h.lineno),)
            if h.name:
                self.st.frames[-1][h.name] = ('exc', handler_names(h))
            self.block(h.body)
            outs.append(self.st)
        self.st = None
        live = [o for o in outs if o is not None]
        for o in live:
            self.st = self.join(self.st, o)
        if len(live) > 1 and self.st is not None:
            self.st.conds = self.st.conds[:len(conds)]
        if s.finalbody:
            if self.st is None:
                self.st = start
                self.block(s.finalbody)
                self.st = None
            else:
                self.block(s.finalbody)

    def in_try(self, s, entering):
        pass

    # ------------------------------------------------------------- stores
    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.st.frames[-1][t.id] = v
            self.on_store(('local', t.id), v, node)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            xs = self.items(v)
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, ('item', v, (
                        'slice', const(i), None, None)), node)
                elif xs is not None and len(xs) == n:
                    self.assign(e, xs[i], node)
                elif v[0] == 'phi' and all(
                        x[0] in ('tuple', 'list') and len(x[1]) == n
                        for x in v[1]):
                    self.assign(e, phi([x[1][i] for x in v[1]]), node)
                else:
                    self.assign(e, self.getitem(v, const(i)), node)
            return
        if isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            for o in alts(b):
                tt = ('attr', o, t.attr)
                self.on_store(tt, v, node)
                if b[0] != 'phi':
                    self.st.over[tt] = v
                else:
                    self.st.over[tt] = phi([v, self.st.over.get(tt, tt)])
            return
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            k = self.ev(t.slice)
            for o in alts(b):
                self.on_store(('item', o, k), v, node)
                if o[0] == 'obj':
                    kind, d = self.st.heap[o]
                    key = self.hkey(kind, k)
                    if b[0] == 'phi':
                        d[key] = phi([v, d.get(key, ('absent',))])
                    else:
                        d[key] = v
                else:
                    tt = ('item', o, k)
                    self.st.over[tt] = v if b[0] != 'phi' else phi(
                        [v, self.st.over.get(tt, tt)])
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, v, node)

    def hkey(self, kind, k):
        if kind == 'dict':
            return k
        return k[1] if isconst(k) and isinstance(k[1], int) else '*'

    # ------------------------------------------------------------- exprs
    def ev(self, e):
        if e is None:
            return NONE
        if self.st is None:
            raise Dead
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return UNK
        r = m(e)
        if self.st is None:
            raise Dead
        return r

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        t = self.lookup(e.id, e)
        self.on_load(t, e)
        return t

    def lookup(self, n, node=None):
        f = self.st.frames[-1]
        if n in f:
            return f[n]
        mod = self.stack[-1][0] if self.stack else None
        return self.glob(mod, n)

    def glob(self, mod, n):
        m = self.mods.get(mod)
        if m is not None:
            if n in m.funcs:
                return ('func', mod, n)
            if n in m.classes:
                return ('class', mod, n)
            if n in m.imports:
                return self.imported(*m.imports[n])
            if n in m.consts:
                try:
                    return freeze(ast.literal_eval(m.consts[n]))
                except Exception:
                    return ('global', mod, n)
        return ('name', n)

    def imported(self, mod, n):
        if n is None:
            return ('module', mod)
        f = find_module(mod) if not mod.startswith(('libc', 'cython')) \
            else None
        if f is not None and (mod.startswith('triumvirate') or
                              not mod.count('.')):
            r = self.glob(f, n)
            if r[0] != 'name':
                return r
        g = find_module(n) if mod in ('triumvirate', '') else None
        if g is not None:
            return ('module', 'triumvirate.' + n)
        return ('ext', mod, n)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Attribute(self, e):
        b = self.ev(e.value)
        t = self.getattr(b, e.attr)
        self.on_load(t, e)
        return t

    def getattr(self, b, a):
        if b[0] == 'phi':
            return phi([self.getattr(x, a) for x in b[1]])
        t = ('attr', b, a)
        if t in self.st.over:
            return self.st.over[t]
        if b[0] in ('self', 'class'):
            q = self.method(b[1], b[2], a)
            if q is not None:
                fn = self.mods[q[1]].funcs[q[2]]
                deco = {getattr(d, 'id', getattr(d, 'attr', ''))
                        for d in fn.decorator_list}
                if 'property' in deco and b[0] == 'self' and len(
                        self.stack) < self.maxdepth and \
                        (q[1], q[2]) not in self.stack:
                    return self.call_body(q[1], q[2], fn, {
                        fn.args.args[0].arg: b})
                return ('method', b, q[1], q[2])
        if b[0] == 'module':
            f = find_module(b[1]) if b[1].startswith('triumvirate') else None
            if f is not None:
                r = self.glob(f, a)
                if r[0] != 'name':
                    return r
        return t

    def method(self, mod, cls, name, depth=0):
        m = self.mods.get(mod)
        if m is None or depth > 5:
            return None
        if f'{cls}.{name}' in m.funcs:
            return ('func', mod, f'{cls}.{name}')
        c = m.classes.get(cls)
        for b in (c.bases if c is not None else []):
            r = None
            if isinstance(b, ast.Name):
                g = self.glob(mod, b.id)
                if g[0] == 'class':
                    r = self.method(g[1], g[2], name, depth + 1)
            if r is not None:
                return r
        return None

    def e_Subscript(self, e):
        b = self.ev(e.value)
        k = self.ev(e.slice)
        t = self.getitem(b, k)
        self.on_load(t, e)
        return t

    def getitem(self, b, k):
        if b[0] == 'phi':
            return phi([self.getitem(x, k) for x in b[1]])
        if b[0] == 'obj':
            kind, d = self.st.heap[b]
            key = self.hkey(kind, k)
            if kind == 'list' and isinstance(key, int) and key < 0 and \
                    '*' not in d:
                key += len(d)
            if key in d:
                return d[key]
            if k[0] == 'slice':
                return ('item', b, k)
            if d and not isconst(k):
                return phi(list(d.values()))
            return ('item', b, k)
        if b[0] in ('tuple', 'list') and isconst(k) and isinstance(
                k[1], int) and -len(b[1]) <= k[1] < len(b[1]):
            return b[1][k[1]]
        if b[0] == 'const' and isconst(k):
            try:
                return freeze(b[1][k[1]])
            except Exception:
                pass
        t = ('item', b, k)
        if t in self.st.over:
            return self.st.over[t]
        return t

    def e_Slice(self, e):
        return ('slice', self.ev(e.lower) if e.lower else None,
                self.ev(e.upper) if e.upper else None,
                self.ev(e.step) if e.step else None)

    def e_List(self, e):
        return self.newlist([self.ev(x) for x in e.elts])

    def newlist(self, xs):
        self.nobj += 1
        o = ('obj', self.nobj)
        if any(x[0] == 'star' for x in xs):
            self.st.heap[o] = ('list', {'*': phi(xs)})
        else:
            self.st.heap[o] = ('list', dict(enumerate(xs)))
        return o

    def e_Tuple(self, e):
        return ('tuple', tuple(self.ev(x) for x in e.elts))

    def e_Set(self, e):
        xs = [self.ev(x) for x in e.elts]
        if all(isconst(x) for x in xs):
            return const(frozenset(x[1] for x in xs))
        return ('set', tuple(xs))

    def e_Starred(self, e):
        return ('star', self.ev(e.value))

    def e_Dict(self, e):
        self.nobj += 1
        o = ('obj', self.nobj)
        d = {}
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v)
            if k is None:
                if vv[0] == 'obj' and self.st.heap[vv][0] == 'dict':
                    d.update(self.st.heap[vv][1])
                else:
                    d['*'] = vv
            else:
                d[self.ev(k)] = vv
        self.st.heap[o] = ('dict', d)
        return o

    def e_BinOp(self, e):
        return self.binop(OPS[type(e.op)], self.ev(e.left),
                          self.ev(e.right))

    def binop(self, o, a, b):
        if isconst(a) and isconst(b):
            try:
                return freeze(pyop(o, a[1], b[1]))
            except Exception:
                pass
        if o == '%' and isconst(a) and isinstance(a[1], str):
            return ('fmt', a, b)
        if o == '+' and a[0] in ('list', 'tuple') and b[0] == a[0]:
            return (a[0], a[1] + b[1])
        if o == '+' and a[0] == 'obj' and b[0] == 'obj':
            x, y = self.items(a), self.items(b)
            if x is not None and y is not None:
                return self.newlist(x + y)
        return ('op', o, a, b)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        k = type(e.op)
        if k is ast.Not:
            t = self.truth(v)
            return const(not t) if t is not None else ('op', 'not', v)
        if isconst(v):
            try:
                if k is ast.USub:
                    return const(-v[1])
                if k is ast.UAdd:
                    return v
            except Exception:
                pass
        return ('op', 'neg' if k is ast.USub else 'unary', v)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        out = []
        saved = self.st.conds
        for x in e.values:
            v = self.ev(x)
            t = self.truth(v)
            if t is not None and t != isand:
                out.append(v)
                break
            if t is None or x is e.values[-1]:
                out.append(v)
            self.assume(self.st, v, isand, x)
        self.st.conds = saved
        if len(out) == 1:
            return out[0]
        if not out:
            return const(isand)
        return ('op', 'and' if isand else 'or') + tuple(out)

    def e_Compare(self, e):
        left = self.ev(e.left)
        out = []
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c)
            out.append(self.compare(OPS[type(op)], left, right))
            left = right
        if len(out) == 1:
            return out[0]
        if all(isconst(x) for x in out):
            return const(all(x[1] for x in out))
        return ('op', 'and') + tuple(x for x in out if not isconst(x))

    def compare(self, o, a, b):
        if o in ('in', 'not in') and b[0] == 'call' and b[1][0] == 'attr' \
                and b[1][2] == 'keys' and b[1][1][0] == 'obj' and \
                self.st.heap[b[1][1]][0] == 'dict':
            b = b[1][1]
        if b[0] in ('obj', 'tuple', 'list') and o in ('in', 'not in'):
            xs = self.items(b)
            kind, d = self.st.heap[b] if b[0] == 'obj' else ('tuple', {})
            if kind == 'dict' and a in d and ABSENT in alts(d[a]):
                xs = None
            if xs is not None and all(isconst(x) for x in xs):
                try:
                    b = const(frozenset(x[1] for x in xs))
                except TypeError:
                    pass
        if isconst(a) and isconst(b):
            try:
                return const(pyop(o, a[1], b[1]))
            except Exception:
                pass
        if a[0] == 'phi' and isconst(b) and all(isconst(x) for x in a[1]):
            try:
                r = {pyop(o, x[1], b[1]) for x in a[1]}
                if len(r) == 1:
                    return const(r.pop())
            except Exception:
                pass
        if o in ('is', 'is not') and NONE in (a, b):
            x = a if b == NONE else b
            if x[0] in ('obj', 'tuple', 'list', 'func', 'class', 'self',
                        'fstr', 'localfn', 'module'):
                return const(o == 'is not')
        if o in ('!=', 'not in', 'is not'):
            pos = {'!=': '==', 'not in': 'in', 'is not': 'is'}[o]
            k = self.known(('op', pos, a, b))
            if k is not None:
                return const(not k)
            return ('op', 'not', ('op', pos, a, b))
        k = self.known(('op', o, a, b))
        if k is not None:
            return const(k)
        return ('op', o, a, b)

    def e_IfExp(self, e):
        t = self.ev(e.test)
        r = self.truth(t)
        if r is not None:
            return self.ev(e.body if r else e.orelse)
        saved = self.st.conds
        self.assume(self.st, t, True, e)
        a = self.ev(e.body)
        self.st.conds = saved
        self.assume(self.st, t, False, e)
        b = self.ev(e.orelse)
        self.st.conds = saved
        return phi([a, b])

    def e_JoinedStr(self, e):
        ps = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value)
                if v.format_spec is not None:
                    x = ('format', x, self.ev(v.format_spec))
                ps.append(x)
            else:
                ps.append(self.ev(v))
        if all(isconst(p) and isinstance(p[1], (str, int)) and not
               isinstance(p[1], bool) for p in ps):
            return const(''.join(str(p[1]) for p in ps))
        return ('fstr', tuple(ps))

    def e_FormattedValue(self, e):
        return self.ev(e.value)

    def e_Lambda(self, e):
        self.local = getattr(self, 'local', {})
        self.local[id(e)] = e
        return ('localfn', id(e))

    def comp(self, e, elts):
        outs = []
        saved = dict(self.st.frames[-1])

        def gen(i):
            if i == len(e.generators):
                outs.append(tuple(self.ev(x) for x in elts))
                return
            g = e.generators[i]
            it = self.ev(g.iter)
            xs = self.items(it)
            exact = xs is not None and len(xs) <= self.unroll
            if not exact:
                gen.exact = False
                xs = [self.elem(it)]
            for x in xs:
                self.assign(g.target, x, e)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c))
                    if t is None:
                        gen.exact = False
                    elif not t:
                        ok = False
                if ok:
                    gen(i + 1)
        gen.exact = True
        gen(0)
        self.st.frames[-1] = saved
        return outs, gen.exact

    def e_ListComp(self, e):
        outs, exact = self.comp(e, [e.elt])
        if exact:
            return self.newlist([o[0] for o in outs])
        return ('comp', tuple(o[0] for o in outs))

    def e_GeneratorExp(self, e):
        outs, exact = self.comp(e, [e.elt])
        if exact:
            return ('tuple', tuple(o[0] for o in outs))
        return ('comp', tuple(o[0] for o in outs))

    def e_SetComp(self, e):
        outs, exact = self.comp(e, [e.elt])
        return ('set' if exact else 'comp', tuple(o[0] for o in outs))

    def e_DictComp(self, e):
        outs, exact = self.comp(e, [e.key, e.value])
        self.nobj += 1
        o = ('obj', self.nobj)
        d = {k: v for k, v in outs}
        if not exact:
            d = {'*': phi([v for _, v in outs]) if outs else UNK, **d}
        self.st.heap[o] = ('dict', d)
        return o

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        if e.value is not None:
            self.ev(e.value)
        return UNK

    def e_Call(self, e):
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                xs = self.items(v)
                if xs is not None:
                    args.extend(xs)
                else:
                    args.append(('star', v))
            else:
                args.append(self.ev(a))
        kw = []
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None and v[0] == 'obj' and \
                    self.st.heap[v][0] == 'dict':
                for kk, vv in self.st.heap[v][1].items():
                    if kk != '*' and isconst(kk):
                        kw.append((kk[1], vv))
            else:
                kw.append((k.arg or '**', v))
        if self.st is None:
            return UNK
        return self.docall(f, args, kw, e)

    def docall(self, f, args, kw, e):
        if f[0] == 'phi':
            base = self.st
            outs, st = [], None
            for x in f[1]:
                self.st = base.fork()
                outs.append(self.docall(x, args, kw, e))
                st = self.join(st, self.st)
            self.st = st
            return phi(outs)
        r = self.on_call(f, args, kw, e)
        if r is not None:
            return r
        if f[0] in ('func', 'method', 'localfn') and self.inline(f):
            r = self.try_inline(f, args, kw, e)
            if r is not None:
                return r
        return self.builtin(f, args, kw, e)

    def try_inline(self, f, args, kw, e):
        if f[0] == 'localfn':
            fn = self.local[f[1]]
            if isinstance(fn, ast.Lambda):
                env = self.bind(fn, args, kw)
                if env is None:
                    return None
                self.st.frames.append({**self.st.frames[-1], **env})
                r = self.ev(fn.body)
                self.st.frames.pop()
                return r
            mod, q = self.stack[-1][0], fn.name
            outer = self.st.frames[-1]
        else:
            mod, q = f[-2], f[-1]
            fn = self.mods[mod].funcs[q]
            outer = {}
            if f[0] == 'method':
                deco = {getattr(d, 'id', getattr(d, 'attr', ''))
                        for d in fn.decorator_list}
                if 'staticmethod' not in deco:
                    args = [f[1]] + list(args)
        if len(self.stack) >= self.maxdepth or (mod, q) in self.stack:
            return None
        env = self.bind(fn, args, kw)
        if env is None:
            return None
        return self.call_body(mod, q, fn, {**outer, **env})

    def bind(self, fn, args, kw):
        """Bind arguments; None when not understood."""
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if any(x[0] == 'star' for x in args) or any(
                k == '**' for k, _ in kw):
            if not (a.kwarg or a.vararg):
                pass
            for i, x in enumerate(args):
                if x[0] == 'star':
                    break
                if i < len(names):
                    env[names[i]] = x
            for n in names + [x.arg for x in a.kwonlyargs]:
                env.setdefault(n, ('spread', n))
            for k, v in kw:
                if k != '**':
                    env[k] = v
            if a.vararg:
                env[a.vararg.arg] = UNK
            if a.kwarg:
                env[a.kwarg.arg] = UNK
            return env
        rest = []
        for i, x in enumerate(args):
            if i < len(names):
                env[names[i]] = x
            else:
                rest.append(x)
        extra = {}
        for k, v in kw:
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                extra[const(k)] = v
        dn = names[len(names) - len(a.defaults):]
        for n, d in zip(dn, a.defaults):
            if n not in env:
                env[n] = self.default(d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default(d)
        for n in names:
            env.setdefault(n, ('missing', n))
        if a.vararg:
            env[a.vararg.arg] = ('tuple', tuple(rest))
        if a.kwarg:
            self.nobj += 1
            o = ('obj', self.nobj)
            self.st.heap[o] = ('dict', extra)
            env[a.kwarg.arg] = o
        return env

    def default(self, d):
        try:
            return freeze(ast.literal_eval(d))
        except Exception:
            return ('default', ast.dump(d)[:80])

    def builtin(self, f, args, kw, e):
        if f[0] == 'attr':
            b, m = f[1], f[2]
            if m == '__new__' and len(args) == 1 and args[0][0] == 'class':
                return ('self',) + tuple(args[0][1:])
            if isconst(b) and m in STRM and all(isconst(a) for a in args) \
                    and not kw and isinstance(b[1], (str, bytes)):
                try:
                    return freeze(getattr(b[1], m)(*[a[1] for a in args]))
                except Exception:
                    pass
            if m == 'format' and isconst(b):
                return ('fmt', b, ('tuple', tuple(args) + tuple(
                    v for _, v in kw)))
            if b[0] == 'obj':
                r = self.container(b, m, args, kw, e)
                if r is not None:
                    return r
            if m == 'get' and args and b[0] != 'obj':
                t = ('item', b, args[0])
                if t in self.st.over:
                    return self.st.over[t]
        if f[0] == 'name':
            n = f[1]
            if n in ('int', 'float', 'str', 'len', 'bool', 'abs', 'max',
                     'min', 'sum', 'round', 'tuple', 'frozenset') and \
                    args and not kw and all(isconst(a) for a in args):
                try:
                    return freeze(getattr(__builtins__, n, None)(*[
                        a[1] for a in args]) if not isinstance(
                            __builtins__, dict) else __builtins__[n](
                                *[a[1] for a in args]))
                except Exception:
                    pass
            if n == 'len' and len(args) == 1:
                x = self.items(args[0])
                if x is not None and args[0][0] in ('obj', 'tuple', 'list'):
                    return const(len(x))
            if n == 'dict':
                self.nobj += 1
                o = ('obj', self.nobj)
                d = {}
                if args:
                    xs = self.items(args[0])
                    if args[0][0] == 'obj' and \
                            self.st.heap[args[0]][0] == 'dict':
                        d.update(self.st.heap[args[0]][1])
                    elif xs is not None and all(
                            x[0] == 'tuple' and len(x[1]) == 2 for x in xs):
                        d.update({x[1][0]: x[1][1] for x in xs})
                    else:
                        return ('call', f, tuple(args), tuple(kw))
                for k, v in kw:
                    d[const(k)] = v
                self.st.heap[o] = ('dict', d)
                return o
            if n in ('list', 'tuple') and len(args) == 1:
                xs = self.items(args[0])
                if xs is not None:
                    return self.newlist(xs) if n == 'list' else (
                        'tuple', tuple(xs))
            if n in ('list',) and not args:
                return self.newlist([])
        return ('call', f, tuple(args), tuple(kw))

    def container(self, b, m, args, kw, e):
        kind, d = self.st.heap[b]
        if kind == 'dict':
            if m == 'update':
                for a in args:
                    if a[0] == 'obj' and self.st.heap[a][0] == 'dict':
                        for k, v in self.st.heap[a][1].items():
                            self.on_store(('item', b, k), v, e)
                            d[k] = v
                    else:
                        d['*'] = a
                for k, v in kw:
                    d[const(k)] = v
                return NONE
            if m == 'get' and args:
                if args[0] in d:
                    return d[args[0]]
                if '*' not in d and isconst(args[0]):
                    return args[1] if len(args) > 1 else NONE
            if m == 'copy':
                self.nobj += 1
                o = ('obj', self.nobj)
                self.st.heap[o] = (kind, dict(d))
                return o
            if m == 'pop' and args and args[0] in d:
                return d.pop(args[0])
            if m == 'setdefault' and args:
                if args[0] in d:
                    return d[args[0]]
                d[args[0]] = args[1] if len(args) > 1 else NONE
                return d[args[0]]
        else:
            if m == 'append' and args:
                if '*' in d or self.loops:
                    d['*'] = phi([args[0]] + ([d['*']] if '*' in d else []))
                else:
                    d[len(d)] = args[0]
                return NONE
            if m == 'extend' and args:
                xs = self.items(args[0])
                if xs is not None and '*' not in d:
                    for x in xs:
                        d[len(d)] = x
                else:
                    d['*'] = args[0]
                return NONE
            if m == 'copy':
                self.nobj += 1
                o = ('obj', self.nobj)
                self.st.heap[o] = (kind, dict(d))
                return o
        return None


def handler_names(h):
    t = h.type
    if t is None:
        return ('BaseException',)
    if isinstance(t, ast.Tuple):
        return tuple(sorted(ast.unparse(x) for x in t.elts))
    return (ast.unparse(t),)


def c_none(test):
    c = test.comparators[0]
    return isinstance(c, ast.Constant) and c.value is None


def load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return t


def freeze(v):
    if isinstance(v, (list, tuple)):
        k = 'list' if isinstance(v, list) else 'tuple'
        return (k, tuple(freeze(x) for x in v))
    if isinstance(v, set):
        return const(frozenset(v))
    if isinstance(v, dict):
        return ('frozendict', tuple((freeze(k), freeze(x))
                                    for k, x in v.items()))
    return const(v)
