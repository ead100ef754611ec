"""Path-sensitive definite assignment over Python `ast` trees.

A state is a list of disjuncts (bound names, facts).  A fact constrains the
value of an expression: ('in', values) or ('not', values).  Disjuncts with
the same bound names are joined by uniting their constraints, so the set of
paths stays small while the correlations between tests and bindings that
decide "possibly unbound" questions are kept.
"""
import ast
import builtins

FALSY = ('<falsy>',)
FALSE_SET = frozenset({None, False, 0, '', FALSY})
MAXD = 200


def text(n):
    return ast.unparse(n)


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def hashable_const(n):
    if isinstance(n, ast.Constant):
        return True, n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and \
            isinstance(n.operand, ast.Constant):
        try:
            return True, -n.operand.value
        except TypeError:
            pass
    return False, None


def meet(a, b):
    """Conjunction of two constraints; None if contradictory."""
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == 'in' and b[0] == 'in':
        s = a[1] & b[1]
        return ('in', s) if s else False
    if a[0] == 'not' and b[0] == 'not':
        return ('not', a[1] | b[1])
    if a[0] == 'not':
        a, b = b, a
    s = a[1] - b[1]
    return ('in', s) if s else False


def joinc(a, b):
    """Disjunction of two constraints; None if nothing is known."""
    if a is None or b is None:
        return None
    if a[0] == 'in' and b[0] == 'in':
        return ('in', a[1] | b[1])
    if a[0] == 'not' and b[0] == 'not':
        s = a[1] & b[1]
        return ('not', s) if s else None
    if a[0] == 'not':
        a, b = b, a
    s = b[1] - a[1]
    return ('not', s) if s else None


class D:
    __slots__ = ('bound', 'facts')

    def __init__(self, bound=frozenset(), facts=None):
        self.bound = bound
        self.facts = facts or {}

    def fact(self, key, c):
        """This disjunct with one more constraint, or None."""
        m = meet(self.facts.get(key), c)
        if m is False:
            return None
        f = dict(self.facts)
        f[key] = m
        return D(self.bound, f)

    def bind(self, n):
        return self if n in self.bound else D(self.bound | {n}, self.facts)

    def unbind(self, n):
        return D(self.bound - {n}, self.facts)

    def kill(self, root, deep=True):
        """Forget facts on expressions that mention a name."""
        ks = [k for k in self.facts if mentions(k, root)]
        if not ks:
            return self
        return D(self.bound, {k: v for k, v in self.facts.items()
                              if k not in ks})


_ment = {}


def mentions(key, root):
    s = _ment.get(key)
    if s is None:
        try:
            s = names_in(ast.parse(key, mode='eval'))
        except SyntaxError:
            s = set()
        _ment[key] = s
    return root in s


def normal(ds):
    out = {}
    for d in ds:
        o = out.get(d.bound)
        if o is None:
            out[d.bound] = d
        elif o.facts != d.facts:
            f = {}
            for k in o.facts.keys() & d.facts.keys():
                c = joinc(o.facts[k], d.facts[k])
                if c is not None:
                    f[k] = c
            out[d.bound] = D(d.bound, f)
    ds = list(out.values())
    if len(ds) > MAXD:
        b = frozenset.intersection(*[d.bound for d in ds])
        return [D(b, {})]
    return ds


class Locals(ast.NodeVisitor):
    """Names bound in one scope."""

    def __init__(self):
        self.names, self.glob = set(), set()
        self.inner = []

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        self.inner.append(n)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)
        self.inner.append(n)

    def visit_Lambda(self, n):
        pass

    def comp(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.names.add(x.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = comp
    visit_GeneratorExp = comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.glob |= set(n.names)
    visit_Nonlocal = visit_Global

    def visit_Import(self, n):
        for a in n.names:
            if a.name != '*':
                self.names.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

    def visit_MatchAs(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)


def scope(body, args=None):
    v = Locals()
    for s in body:
        v.visit(s)
    names = v.names - v.glob
    if args is not None:
        names |= set(argnames(args))
    return names


def argnames(a):
    out = [x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]]
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.append(x.arg)
    return out


def raises_kind(n, exc):
    """May a statement or expression raise the handled exception types?"""
    if exc is None:
        return True
    for x in ast.walk(n):
        if isinstance(x, (ast.Call, ast.Raise, ast.Await)):
            if exc != {'ImportError'} and exc != {'ModuleNotFoundError'}:
                return True
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            if exc & {'ImportError', 'ModuleNotFoundError', 'Exception',
                      'BaseException'}:
                return True
        elif isinstance(x, ast.Subscript):
            if exc & {'KeyError', 'IndexError', 'LookupError', 'TypeError',
                      'Exception', 'BaseException'}:
                return True
        elif isinstance(x, ast.Attribute):
            if exc & {'AttributeError', 'Exception', 'BaseException'}:
                return True
        elif isinstance(x, (ast.BinOp, ast.Compare, ast.For, ast.UnaryOp)):
            if exc & {'TypeError', 'ValueError', 'ZeroDivisionError',
                      'OverflowError', 'ArithmeticError', 'Exception',
                      'BaseException'}:
                return True
    return False


class Flow:
    """One scope.  `unbound(name, node, disjunct)` is called for each use of
    a local name on a feasible path that does not bind it."""

    def __init__(self, outer_known=(), feasible=None, unbound=None,
                 skip=()):
        self.local = set()
        self.known = set(outer_known)
        self.feasible = feasible or (lambda d: True)
        self.report = unbound or (lambda *a: None)
        self.undefined = lambda *a: None
        self.watch = []          # collectors of the enclosing try bodies
        self.loops = []
        self.returns = []
        self.skip = set(skip)

    # -- expressions -------------------------------------------------------
    def use(self, n, ds, extra=frozenset()):
        """Visit the names an expression reads; walrus targets are bound."""
        if n is None:
            return ds
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.name(n, ds, extra)
            return ds
        if isinstance(n, ast.NamedExpr):
            ds = self.use(n.value, ds, extra)
            return self.assign_name(n.target.id, n.value, ds)
        if isinstance(n, ast.Lambda):
            for x in [*n.args.defaults, *n.args.kw_defaults]:
                ds = self.use(x, ds, extra)
            self.use(n.body, ds, extra | set(argnames(n.args)))
            return ds
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            inner = set(extra)
            d2 = ds
            for i, g in enumerate(n.generators):
                d2 = self.use(g.iter, d2, frozenset(inner))
                inner |= {x.id for x in ast.walk(g.target)
                          if isinstance(x, ast.Name)}
                for c in g.ifs:
                    d2 = self.use(c, d2, frozenset(inner))
                    d2 = self.assume(c, d2, True) if False else d2
            if isinstance(n, ast.DictComp):
                self.use(n.key, d2, frozenset(inner))
                self.use(n.value, d2, frozenset(inner))
            else:
                self.use(n.elt, d2, frozenset(inner))
            return ds
        if isinstance(n, ast.BoolOp):
            ds = self.use(n.values[0], ds, extra)
            cur = ds
            for a, b in zip(n.values, n.values[1:]):
                cur = self.assume(a, cur, isinstance(n.op, ast.And))
                cur = self.use(b, cur, extra)
            return normal(ds + cur) if len(n.values) > 1 and any(
                isinstance(x, ast.NamedExpr) for v in n.values
                for x in ast.walk(v)) else ds
        if isinstance(n, ast.IfExp):
            ds = self.use(n.test, ds, extra)
            self.use(n.body, self.assume(n.test, ds, True), extra)
            self.use(n.orelse, self.assume(n.test, ds, False), extra)
            return ds
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice,
                              ast.FormattedValue)):
                ds = self.use(c, ds, extra)
        return ds

    def name(self, n, ds, extra):
        if n.id in extra:
            return
        if n.id in self.local:
            if n.id in self.skip:
                return
            for d in ds:
                if n.id not in d.bound and self.feasible(d):
                    self.report(n.id, n, d)
                    return
        elif n.id not in self.known and not hasattr(builtins, n.id):
            if ds:
                self.undefined(n.id, n)

    # -- facts ---------------------------------------------------------
    def assume(self, t, ds, truth):
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == truth
            if conj:
                for v in t.values:
                    ds = self.assume(v, ds, truth)
                return ds
            out, cur = [], ds
            for v in t.values:
                out += self.assume(v, cur, truth)
                cur = self.assume(v, cur, not truth)
            return normal(out)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, ds, not truth)
        if isinstance(t, ast.NamedExpr):
            return self.assume(t.target, ds, truth)
        if isinstance(t, ast.Constant):
            return ds if bool(t.value) == truth else []
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op, r = t.ops[0], t.comparators[0]
            left = t.left
            if isinstance(left, ast.NamedExpr):
                left = left.target
            okc, c = hashable_const(r)
            ok2, c2 = hashable_const(left)
            if ok2 and not okc and isinstance(op, (ast.Eq, ast.NotEq)):
                left, okc, c = r, True, c2
            vals = None
            if okc and isinstance(op, (ast.Eq, ast.Is)):
                vals, pos = {c}, truth
            elif okc and isinstance(op, (ast.NotEq, ast.IsNot)):
                vals, pos = {c}, not truth
            elif isinstance(op, (ast.In, ast.NotIn)) and isinstance(
                    r, (ast.Tuple, ast.List, ast.Set)):
                cs = [hashable_const(x) for x in r.elts]
                if all(x[0] for x in cs):
                    vals = {x[1] for x in cs}
                    pos = truth == isinstance(op, ast.In)
            if vals is not None:
                return self.put(ds, self.key(left), (
                    'in' if pos else 'not', frozenset(vals)))
        key = self.key(t)
        out = self.put(ds, key, ('not', FALSE_SET) if truth else (
            'in', FALSE_SET))
        return out

    def key(self, n):
        # p.get('x') and p['x'] are the same fact
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr == 'get' and n.args:
            n = ast.Subscript(n.func.value, n.args[0], ast.Load())
        return text(n)

    def put(self, ds, key, c):
        out = []
        for d in ds:
            x = d.fact(key, c)
            if x is not None:
                out.append(x)
        return out

    def assign_name(self, name, value, ds):
        out = []
        okc, c = hashable_const(value) if value is not None else (False, 0)
        for d in ds:
            src = None
            if okc:
                try:
                    src = ('in', frozenset({c}))
                except TypeError:
                    src = None
            elif isinstance(value, (ast.Name, ast.Subscript, ast.Attribute,
                                    ast.Call)):
                src = d.facts.get(self.key(value))
            d = d.kill(name).bind(name)
            if src is not None:
                f = dict(d.facts)
                f[name] = src
                d = D(d.bound, f)
            out.append(d)
        return normal(out)

    def assign(self, t, value, ds):
        if isinstance(t, ast.Name):
            return self.assign_name(t.id, value, ds)
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                v = None
                if isinstance(value, (ast.Tuple, ast.List)) and len(
                        value.elts) == len(t.elts):
                    v = value.elts[i]
                ds = self.assign(x, v, ds)
            return ds
        if isinstance(t, ast.Starred):
            return self.assign(t.value, None, ds)
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            ds = self.use(t.value, ds)
            if isinstance(t, ast.Subscript):
                ds = self.use(t.slice, ds)
            k = self.key(t)
            okc, c = hashable_const(value) if value is not None else (0, 0)
            out = []
            for d in ds:
                f = {a: b for a, b in d.facts.items()
                     if not a.startswith(k)}
                if okc:
                    f[k] = ('in', frozenset({c}))
                out.append(D(d.bound, f))
            return normal(out)
        return ds

    # -- statements ------------------------------------------------------
    def block(self, body, ds):
        for s in body:
            if not ds:
                return []
            if self.watch:
                for exc, coll in self.watch:
                    if isinstance(s, (ast.If, ast.For, ast.While, ast.Try,
                                      ast.With)):
                        head = s.test if isinstance(
                            s, (ast.If, ast.While)) else s.iter \
                            if isinstance(s, ast.For) else None
                        if head is None or raises_kind(head, exc):
                            coll.extend(ds)
                    elif raises_kind(s, exc):
                        coll.extend(ds)
            m = getattr(self, 's_' + type(s).__name__, None)
            ds = m(s, ds) if m else self.other(s, ds)
            ds = [d for d in normal(ds) if self.feasible(d)]
        return ds

    def other(self, s, ds):
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                ds = self.use(c, ds)
        return ds

    def s_Pass(self, s, ds):
        return ds
    s_Global = s_Nonlocal = s_Pass

    def s_Assign(self, s, ds):
        ds = self.use(s.value, ds)
        for t in s.targets:
            ds = self.assign(t, s.value, ds)
        return ds

    def s_AugAssign(self, s, ds):
        ds = self.use(s.value, ds)
        if isinstance(s.target, ast.Name):
            self.name(ast.copy_location(
                ast.Name(s.target.id, ast.Load()), s), ds, frozenset())
        return self.assign(s.target, None, ds)

    def s_AnnAssign(self, s, ds):
        if s.value is not None:
            ds = self.use(s.value, ds)
            ds = self.assign(s.target, s.value, ds)
        elif getattr(s, 'ctype', None) and isinstance(s.target, ast.Name):
            ds = self.assign(s.target, None, ds)
        return ds

    def s_Delete(self, s, ds):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.name(ast.copy_location(
                    ast.Name(t.id, ast.Load()), t), ds, frozenset())
                ds = [d.kill(t.id).unbind(t.id) for d in ds]
            else:
                ds = self.assign(t, None, ds)
        return ds

    def s_Return(self, s, ds):
        if s.value is not None:
            ds = self.use(s.value, ds)
        self.returns += ds
        return []

    def s_Raise(self, s, ds):
        for e in (s.exc, s.cause):
            if e is not None:
                ds = self.use(e, ds)
        return []

    def s_Assert(self, s, ds):
        ds = self.use(s.test, ds)
        return self.assume(s.test, ds, True)

    def s_If(self, s, ds):
        ds = self.use(s.test, ds)
        a = self.block(s.body, self.assume(s.test, ds, True))
        b = self.assume(s.test, ds, False)
        if s.orelse:
            b = self.block(s.orelse, b)
        return normal(a + b)

    def loop(self, s, ds, head, zero):
        entry = ds
        out = []
        for _ in range(2):
            self.loops.append(([], []))
            inside = head(entry)
            end = self.block(s.body, inside)
            brk, cont = self.loops.pop()
            out = (brk, end + cont)
            new = normal(ds + end + cont)
            entry = new
        brk, end = out
        nxt = (ds if zero else []) + end
        if not zero and not end and not brk:
            nxt = end
        return nxt, brk

    def s_For(self, s, ds):
        ds = self.use(s.iter, ds)
        nxt, brk = self.loop(s, ds, lambda d: self.assign(
            s.target, None, d), False)
        nxt = normal(nxt)
        if s.orelse:
            nxt = self.block(s.orelse, nxt)
        return normal(nxt + brk)

    def s_While(self, s, ds):
        def head(d):
            d = self.use(s.test, d)
            return self.assume(s.test, d, True)
        nxt, brk = self.loop(s, ds, head, True)
        nxt = self.assume(s.test, normal(nxt), False)
        if s.orelse:
            nxt = self.block(s.orelse, nxt)
        return normal(nxt + brk)

    def s_Break(self, s, ds):
        if self.loops:
            self.loops[-1][0].extend(ds)
        return []

    def s_Continue(self, s, ds):
        if self.loops:
            self.loops[-1][1].extend(ds)
        return []

    def s_With(self, s, ds):
        for it in s.items:
            ds = self.use(it.context_expr, ds)
            if it.optional_vars is not None:
                ds = self.assign(it.optional_vars, None, ds)
        swallow = [it for it in s.items if isinstance(
            it.context_expr, ast.Call) and 'suppress' in text(
                it.context_expr.func)]
        if swallow:
            coll = []
            self.watch.append((None, coll))
            end = self.block(s.body, ds)
            self.watch.pop()
            return normal(end + coll)
        return self.block(s.body, ds)

    def s_Try(self, s, ds):
        colls = []
        for h in s.handlers:
            exc = None
            if h.type is not None:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [
                    h.type]
                exc = {text(t).split('.')[-1] for t in ts}
            colls.append((exc, []))
        n = len(self.watch)
        self.watch += colls
        end = self.block(s.body, ds)
        del self.watch[n:]
        if s.orelse:
            end = self.block(s.orelse, end)
        out = list(end)
        for h, (_, c) in zip(s.handlers, colls):
            cs = normal(c)
            if h.type is not None:
                cs = self.use(h.type, cs)
            if h.name:
                cs = [d.bind(h.name) for d in cs]
            cs = self.block(h.body, cs)
            if h.name:
                cs = [d.unbind(h.name) for d in cs]
            out += cs
        out = normal(out)
        if s.finalbody:
            out = self.block(s.finalbody, out)
        return out

    def s_FunctionDef(self, s, ds):
        for x in [*s.decorator_list, *s.args.defaults,
                  *s.args.kw_defaults]:
            if x is not None:
                ds = self.use(x, ds)
        return [d.kill(s.name).bind(s.name) for d in ds]
    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, ds):
        for x in [*s.decorator_list, *s.bases]:
            ds = self.use(x, ds)
        return [d.kill(s.name).bind(s.name) for d in ds]

    def s_Import(self, s, ds):
        for a in s.names:
            n = (a.asname or a.name).split('.')[0]
            ds = [d.kill(n).bind(n) for d in ds]
        return ds
    s_ImportFrom = s_Import

    def s_Match(self, s, ds):
        ds = self.use(s.subject, ds)
        out, rest = [], ds
        for c in s.cases:
            cur = rest
            for x in ast.walk(c.pattern):
                if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    cur = [d.bind(x.name) for d in cur]
            if isinstance(c.pattern, ast.MatchValue):
                t = ast.Compare(s.subject, [ast.Eq()], [c.pattern.value])
                cur = self.assume(t, cur, True)
                if c.guard is None:
                    rest = self.assume(t, rest, False)
            elif isinstance(c.pattern, ast.MatchAs) and \
                    c.pattern.pattern is None and c.guard is None:
                rest = []
            if c.guard is not None:
                cur = self.use(c.guard, cur)
                cur = self.assume(c.guard, cur, True)
            out += self.block(c.body, cur)
        return normal(out + rest)
