"""Which parameters were changed on the Python side only.

A flow analysis of Python and Cython code.  References to parameter sets and
to the dictionaries inside them are followed through local names, arguments
and results; a nested write leaves the entry changed on one side, assignment
through the parameter set or a new parse brings the sides together, and a use
of the backend object is an event judged by the check."""
import ast

from . import pysym

CLS, MOD = 'ParameterSet', 'parameters.pyx'
VIEWS = {'get', 'items', 'values', 'setdefault'}
MUTATE = {'update', 'setdefault', 'pop', 'popitem', 'clear', 'append',
          'extend', 'insert', 'remove', 'reverse', 'sort', '__setitem__'}
NONE = frozenset()


class State:
    __slots__ = ('env', 'dirty', 'must', 'fresh', 'taint', 'valid')

    def __init__(self):
        self.env, self.dirty = {}, NONE
        self.must, self.taint = NONE, NONE
        self.fresh = self.valid = False

    def copy(self):
        s = State()
        s.env = dict(self.env)
        for k in State.__slots__[1:]:
            setattr(s, k, getattr(self, k))
        return s

    def key(self):
        return (tuple(sorted((k, v) for k, v in self.env.items())),
                self.dirty, self.must, self.fresh, self.taint, self.valid)


def join(a, b):
    if a is None or b is None:
        return a or b
    s = State()
    for k in set(a.env) | set(b.env):
        s.env[k] = a.env.get(k, NONE) | b.env.get(k, NONE)
    s.dirty = a.dirty | b.dirty
    s.must = a.must & b.must
    s.taint = a.taint | b.taint
    s.fresh = a.fresh and b.fresh
    s.valid = a.valid and b.valid
    return s


class Sync:
    """`own`: interpret `self` as the parameter set (methods of the class)."""

    def __init__(self, on_use, member_of, pyonly=(), own=False):
        self.on_use, self.member_of = on_use, member_of
        self.pyonly = set(pyonly)
        self.own = own
        self.stack = []
        self.ever = {}              # member -> line of an assignment
        self.fetched = {}           # key -> line of a fetch from the backend
        self.copies = []            # (how, argument, line)
        self.tests = 0              # enclosing tests on backend values
        self.news = 0
        self.count = 0

    # -- entry -------------------------------------------------------------
    def entry(self, mod, q, f):
        st = State()
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in names:
            st.env[n] = frozenset({('obj', n)})
        self.ret, self.mod = [], mod
        self.stack = [(mod, q, f)]
        out = self.block(f.body, st)
        for s, _ in self.ret:
            out = join(out, s)
        return out

    # -- statements --------------------------------------------------------
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            t = self.tainted(s.value, st)
            for x in s.targets:
                self.assign(x, v, t, st, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = self.ev(s.value, st)
                self.assign(s.target, v, self.tainted(s.value, st), st,
                            s.value)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value, st)
            self.assign(s.target, NONE, self.tainted(s.value, st), st,
                        s.value)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, st)
        elif isinstance(s, ast.If):
            self.ev(s.test, st)
            t = self.tainted(s.test, st)
            self.tests += t
            a = self.block(s.body, st.copy())
            b = self.block(s.orelse, st.copy())
            self.tests -= t
            return join(a, b)
        elif isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            if isinstance(s, ast.While):
                self.ev(s.test, st)
            else:
                v = self.ev(s.iter, st)
                self.assign(s.target, v, self.tainted(s.iter, st), st,
                            s.iter, loop=True)
            cur = st
            for _ in range(3):
                nxt = join(cur, self.block(s.body, cur.copy()))
                if nxt.key() == cur.key():
                    break
                cur = nxt
            return self.block(s.orelse, cur) if s.orelse else cur
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, st)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, False, st,
                                i.context_expr)
            return self.block(s.body, st)
        elif isinstance(s, ast.Try):
            pre = st.copy()
            body = self.block(s.body, st)
            if body is not None:
                body = self.block(s.orelse, body)
            out = body
            for h in s.handlers:
                # state at some point of the body
                e = pre.copy()
                if body is not None:
                    e.dirty = e.dirty | body.dirty
                out = join(out, self.block(h.body, e))
            if s.finalbody:
                out = self.block(s.finalbody, out if out is not None
                                 else pre)
            return out
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, st) if s.value is not None else NONE
            self.ret.append((st, v))
            return None
        elif isinstance(s, ast.Raise):
            return None
        elif isinstance(s, (ast.Continue, ast.Break)):
            return st
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    for r in self.ev(t.value, st):
                        self.wrote(r, self.sub(t), st, t, False)
        elif isinstance(s, (ast.Assert,)):
            self.ev(s.test, st)
        return st

    def sub(self, t):
        k = t.slice
        return k.value if isinstance(k, ast.Constant) else '?'

    def assign(self, x, v, tainted, st, value, loop=False):
        if isinstance(x, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and \
                len(value.elts) == len(x.elts) else None
            for i, y in enumerate(x.elts):
                self.assign(y, self.ev(vs[i], st) if vs else
                            frozenset(r for r in v if r[0] in (
                                'obj', 'dict')), tainted, st,
                            vs[i] if vs else value)
            return
        if isinstance(x, ast.Starred):
            return self.assign(x.value, v, tainted, st, value)
        if isinstance(x, ast.Name):
            st.env[x.id] = v
            st.taint = st.taint | {x.id} if tainted or self.tests else \
                st.taint - {x.id}
            return
        if isinstance(x, ast.Attribute):
            base = self.ev(x.value, st)
            for r in base:
                if r[0] == 'pt':
                    self.member(x.attr, st, x)
                elif r == ('obj', 'self') and self.own:
                    if x.attr == '_params':
                        self.whole(v, tainted, st, value, x)
                    elif x.attr == 'thisptr':
                        st.fresh, st.must = True, NONE
                elif r[0] == 'obj' and x.attr != 'thisptr':
                    self.cleared(r[1], st)          # __setattr__
            return
        if isinstance(x, ast.Subscript):
            base = self.ev(x.value, st)
            self.ev(x.slice, st)
            k = self.sub(x)
            for r in base:
                if r[0] == 'pt':
                    st.fresh, st.must = True, NONE      # thisptr[0] = ...
                elif r[0] == 'ptm':
                    self.member(r[1], st, x)
                elif r[0] == 'obj':
                    if not self.own or r[1] != 'self':
                        self.cleared(r[1], st)      # __setitem__
                else:
                    self.wrote(r, k, st, x, tainted)

    def whole(self, v, tainted, st, value, node):
        """`_params` is replaced."""
        for r in v:
            if r[0] == 'obj':
                self.copies.append(('alias', r[1], node.lineno))
            elif r[0] == 'shallow':
                self.copies.append(('shallow copy', r[1], node.lineno))
        if isinstance(value, ast.Dict) and not value.keys:
            return
        if not tainted:
            st.dirty |= {('self', ('?',), node.lineno, self.where())}

    def wrote(self, ref, k, st, node, tainted):
        if ref[0] != 'dict':
            return
        _, o, path = ref
        path = (path + (k,))[:2]
        if path[0] in self.pyonly:
            return
        if self.own and (tainted or self.tests):
            self.fetched.setdefault(path[0], node.lineno)
            st.dirty = frozenset(d for d in st.dirty
                                 if not (d[0] == o and d[1][0] == path[0]))
            return
        st.dirty |= {(o, path, node.lineno, self.where())}

    def member(self, m, st, node):
        self.ever.setdefault(m, node.lineno)
        st.must |= {m}
        st.dirty = frozenset(
            d for d in st.dirty if not (
                d[0] == 'self' and m in self.member_of(d[1])))

    def cleared(self, o, st):
        st.dirty = frozenset(d for d in st.dirty if d[0] != o)

    def where(self):
        return '/'.join(f'{m}:{q}' for m, q, f in self.stack[-1:])

    # -- expressions -------------------------------------------------------
    def tainted(self, e, st):
        if not self.own:
            return False
        for k in ast.walk(e):
            if isinstance(k, ast.Attribute) and k.attr == 'thisptr':
                return True
            if isinstance(k, ast.Name) and k.id in st.taint:
                return True
        return False

    def ev(self, e, st):
        if e is None:
            return NONE
        if isinstance(e, ast.Name):
            return st.env.get(e.id, NONE)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st)
            self.assign(e.target, v, self.tainted(e.value, st), st, e.value)
            return v
        if isinstance(e, ast.Attribute):
            base = self.ev(e.value, st)
            out = set()
            for r in base:
                if r[0] == 'obj' and e.attr == 'thisptr':
                    if self.own and r[1] == 'self':
                        out.add(('pt', r[1]))
                    else:
                        self.used(r[1], st, e)
                        out.add(('pt?', r[1]))
                elif r[0] == 'obj' and e.attr == '_params':
                    out.add(('dict', r[1], ()))
                elif r[0] == 'pt':
                    out.add(('ptm', e.attr))
            return frozenset(out)
        if isinstance(e, ast.Subscript):
            base = self.ev(e.value, st)
            self.ev(e.slice, st)
            k = self.sub(e)
            out = set()
            for r in base:
                if r[0] == 'obj' and not (self.own and r[1] == 'self'):
                    out.add(('dict', r[1], (k,)))
                elif r[0] == 'dict':
                    out.add(('dict', r[1], (r[2] + (k,))[:2]))
                elif r[0] == 'ptm':
                    out.add(r)
            return frozenset(out)
        if isinstance(e, ast.IfExp):
            self.ev(e.test, st)
            return self.ev(e.body, st) | self.ev(e.orelse, st)
        if isinstance(e, ast.BoolOp):
            out = NONE
            for v in e.values:
                out |= self.ev(v, st)
            return out
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, (ast.Tuple, ast.List)):
            out = NONE
            for v in e.elts:
                out |= self.ev(v, st)
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            s2 = st.copy()
            for g in e.generators:
                self.assign(g.target, self.ev(g.iter, s2), False, s2, g.iter)
                for c in g.ifs:
                    self.ev(c, s2)
            for part in ([e.key, e.value] if isinstance(e, ast.DictComp)
                         else [e.elt]):
                self.ev(part, s2)
            return NONE
        if isinstance(e, ast.Lambda):
            return NONE
        for k in ast.iter_child_nodes(e):
            if isinstance(k, ast.expr):
                self.ev(k, st)
        return NONE

    def used(self, o, st, node):
        self.count += 1
        bad = [d for d in st.dirty if d[0] == o]
        self.on_use(self, o, bad, node)

    def call(self, e, st):
        f = e.func
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, st)
                for a in e.args]
        kw = {k.arg: self.ev(k.value, st) for k in e.keywords}
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value, st)
            out = set()
            for r in base:
                if r[0] == 'obj':
                    o = r[1]
                    if self.own and o == 'self':
                        if f.attr == '_parse_params':
                            self.cleared(o, st)
                            st.valid = True
                        elif f.attr == '_validate':
                            self.used(o, st, e)
                            st.valid = True
                        elif f.attr in self.methods():
                            out |= self.inline(MOD, f'{CLS}.{f.attr}',
                                               [frozenset({r})] + args, kw,
                                               st, e)
                        continue
                    if f.attr in ('_parse_params', 'update',
                                  '__setitem__', '__setattr__'):
                        self.cleared(o, st)
                    elif f.attr == 'get' and e.args and isinstance(
                            e.args[0], ast.Constant):
                        out.add(('dict', o, (e.args[0].value,)))
                    elif f.attr in ('items', 'values'):
                        out.add(('dict', o, ('?',)))
                elif r[0] == 'dict':
                    if f.attr in MUTATE:
                        ks = [a.value if isinstance(a, ast.Constant) else
                              '?' for a in e.args[:1]] or ['?']
                        if f.attr == 'update':
                            ks = [k.value for a in e.args
                                  if isinstance(a, ast.Dict)
                                  for k in a.keys
                                  if isinstance(k, ast.Constant)] + [
                                k.arg for k in e.keywords if k.arg] or ['?']
                        for k in ks:
                            self.wrote(r, k, st, e, self.tainted(e, st))
                    if f.attr in VIEWS:
                        k = e.args[0].value if f.attr in (
                            'get', 'setdefault') and e.args and isinstance(
                            e.args[0], ast.Constant) else '?'
                        out.add(('dict', r[1], (r[2] + (k,))[:2]))
                    elif f.attr == 'copy' and self.own:
                        out.add(('shallow', r[1]))
                elif r[0] == 'pt' and f.attr == 'validate':
                    self.used(r[1], st, e)
                    st.valid = True
                if r[0] == 'obj' and f.attr == 'copy' and self.own and \
                        r[1] != 'self':
                    out.add(('shallow', r[1]))
            return frozenset(out)
        if isinstance(f, ast.Name):
            if f.id == 'dict' and self.own:
                return frozenset(('shallow', r[1]) for a in args for r in a
                                 if r[0] == 'obj')
            if f.id in ('zip', 'enumerate', 'iter', 'reversed', 'sorted',
                        'list', 'tuple', 'isinstance', 'len', 'str'):
                return NONE
            mod, q = self.resolve(f.id)
            if mod is not None and q == CLS:
                self.news += 1
                return frozenset({('obj', 'new')})
            if mod is not None:
                return self.inline(mod, q, args, kw, st, e)
        return NONE

    def methods(self):
        return {q.split('.', 1)[1] for q in pysym.modules()[MOD].funcs
                if q.startswith(CLS + '.')}

    def resolve(self, name):
        m = pysym.modules().get(self.mod)
        for _ in range(4):
            if m is None:
                break
            if name in m.funcs or name in m.classes:
                return m.fname, name
            if name not in m.imports:
                break
            frm, sym = m.imports[name]
            fn = pysym.find_module(frm)
            if fn is None or sym is None:
                break
            m, name = pysym.modules()[fn], sym
        return None, None

    def inline(self, mod, q, args, kw, st, node):
        f = pysym.modules()[mod].funcs.get(q)
        if f is None or len(self.stack) > 6 or any(
                (mod, q) == x[:2] for x in self.stack):
            return NONE
        refs = [r for a in args + list(kw.values()) for r in a]
        if not any(r[0] in ('obj', 'dict') for r in refs):
            return NONE
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {n: NONE for n in names + [x.arg for x in a.kwonlyargs]}
        for n, v in zip(names, args):
            env[n] = v
        for n, v in kw.items():
            if n in env:
                env[n] = v
        keep = st.env, st.taint, self.ret, self.mod
        self.ret, self.mod = [], mod
        self.stack.append((mod, q, f))
        s2 = st.copy()
        s2.env, s2.taint = env, NONE
        out = self.block(f.body, s2)
        val = NONE
        for s, v in self.ret:
            out, val = join(out, s), val | v
        self.stack.pop()
        st.env, st.taint, self.ret, self.mod = keep
        if out is not None:
            st.dirty, st.must = out.dirty, out.must
            st.fresh, st.valid = out.fresh, out.valid
        return val
