"""Y03: logging is optional and any standard logger works."""
import ast
import logging

from .. import pymodel
from .y01 import qual

EXPLANATION = (
    'Every function of the Python and Cython layers that holds a logger (a '
    'parameter, an attribute or an alias of one) is interpreted once per '
    'kind of logger a caller may give: none, a standard-library logger, a '
    'standard-library adapter before and after the package has added its '
    'extra level, and the package\'s own logger. Each use of the logger '
    'either succeeds for that kind or raises the exception Python would '
    'raise; guards on the logger and enclosing handlers are interpreted, and '
    'no such exception may leave a public function. Code that only runs '
    'because of the logger or its failure may do nothing but log.')

STD = set(dir(logging.Logger('x')))
ADP = set(dir(logging.LoggerAdapter(logging.getLogger('x'), {}))) - {'stat'}
METHODS = {'debug', 'info', 'warning', 'warn', 'error', 'exception',
           'critical', 'fatal', 'log', 'stat'}
KW = {'exc_info', 'stack_info', 'stacklevel', 'extra'}
KINDS = ['none', 'logger', 'adapter', 'adapter+stat', 'package']
LEVELS = {'DEBUG', 'INFO', 'WARNING', 'WARN', 'ERROR', 'CRITICAL', 'FATAL',
          'NOTSET'}
LOGV = 'LOGGER'
BUILTIN_PURE = {
    'len', 'str', 'repr', 'format', 'int', 'float', 'list', 'tuple', 'dict',
    'set', 'sorted', 'min', 'max', 'sum', 'abs', 'round', 'isinstance',
    'hasattr', 'getattr', 'callable', 'type', 'zip', 'enumerate', 'range',
    'any', 'all', 'print', 'map', 'id', 'bool'}


def attrs(kind):
    return {'none': set(dir(None)), 'logger': STD, 'adapter': ADP,
            'adapter+stat': ADP | {'stat'},
            'package': ADP | {'stat'}}[kind]


class Run:
    """Interprets functions for one kind of logger."""

    def __init__(self, pkg, kind):
        self.pkg, self.kind = pkg, kind
        self.stack = []
        self.uses = {}          # id(call) -> (node, mod, outcomes)
        self.effects = []
        self.nuses = 0

    # values: LOGV | ('meth', name) | ('const', c) | None
    def value(self, n, env, out):
        """Abstract value; exceptions are added to out."""
        if n is None:
            return None
        if isinstance(n, ast.Name):
            return env.get(n.id)
        if isinstance(n, ast.Constant):
            return ('const', n.value)
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and \
                    n.value.id == 'logging' and n.attr == 'STAT':
                if self.kind in ('none', 'logger', 'adapter'):
                    self.throw(n, 'AttributeError', out)
                return None
            b = self.value(n.value, env, out)
            if b == LOGV:
                return self.attr(n, n.attr, out)
            k = self.selfkey(n, env)
            if k is not None:
                return env.get(k)
            return None
        if isinstance(n, ast.Call):
            return self.call(n, env, out)
        if isinstance(n, ast.IfExp):
            t = self.test(n.test, env, out)
            if t is True:
                return self.value(n.body, env, out)
            if t is False:
                return self.value(n.orelse, env, out)
            a = self.value(n.body, env, out)
            b = self.value(n.orelse, env, out)
            return a if a is not None else b
        if isinstance(n, ast.BoolOp):
            v = None
            for x in n.values:
                v = self.value(x, env, out)
                t = self.truth(v)
                if isinstance(n.op, ast.And) and t is False:
                    return v
                if isinstance(n.op, ast.Or) and t is True:
                    return v
                if t is None:
                    v = None
            return v
        if isinstance(n, ast.Compare) and len(n.ops) == 1 or isinstance(
                n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t = self.test(n, env, out)
            return ('const', t) if t is not None else None
        if isinstance(n, ast.NamedExpr):
            v = self.value(n.value, env, out)
            env[n.target.id] = v
            return v
        if isinstance(n, (ast.Lambda,)):
            return None
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.value(c, env, out)
            elif isinstance(c, ast.comprehension):
                self.value(c.iter, env, out)
        return None

    def selfkey(self, n, env):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                and n.value.id in ('self', 'cls'):
            return 'self.' + n.attr
        return None

    def attr(self, n, name, out):
        self.nuses += 1
        if name in attrs(self.kind):
            return ('meth', name)
        self.throw(n, 'AttributeError', out)
        return ('meth', name)

    def throw(self, n, exc, out):
        out.append((exc, n, self.mod))

    def truth(self, v):
        if v == LOGV:
            return self.kind != 'none'
        if isinstance(v, tuple) and v[0] == 'const':
            return bool(v[1])
        if isinstance(v, tuple) and v[0] == 'meth':
            return True
        return None

    def test(self, t, env, out):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.test(t.operand, env, out)
            return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            r = isinstance(t.op, ast.And)
            res = r
            for x in t.values:
                v = self.test(x, env, out)
                if v is (not r):
                    return not r
                if v is None:
                    res = None
            return res
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a = self.value(t.left, env, out)
            b = self.value(t.comparators[0], env, out)
            op = t.ops[0]
            if b == ('const', None) and a == LOGV and isinstance(
                    op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                r = self.kind == 'none'
                return r if isinstance(op, (ast.Is, ast.Eq)) else not r
            return None
        return self.truth(self.value(t, env, out))

    def call(self, n, env, out):
        f = n.func
        name = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')
        if name in ('hasattr', 'getattr') and isinstance(f, ast.Name) and \
                len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
            b = self.value(n.args[0], env, out)
            a = n.args[1].value
            if b == LOGV:
                has = a in attrs(self.kind)
                if name == 'hasattr':
                    return ('const', has)
                if has:
                    return ('meth', a)
                if len(n.args) > 2:
                    return self.value(n.args[2], env, out)
                self.throw(n, 'AttributeError', out)
                return None
            if name == 'getattr' and isinstance(n.args[0], ast.Name) and \
                    n.args[0].id == 'self':
                return env.get(f'self.{a}')
            return None
        if name == 'callable' and n.args:
            v = self.value(n.args[0], env, out)
            return ('const', isinstance(v, tuple) and v[0] == 'meth') \
                if v is not None else None
        if name == 'isinstance' and len(n.args) == 2 and \
                self.value(n.args[0], env, out) == LOGV:
            t = ast.unparse(n.args[1])
            if 'CppLogAdapter' in t:
                return ('const', self.kind == 'package')
            if 'LoggerAdapter' in t and 'Logger' not in t.replace(
                    'LoggerAdapter', ''):
                return ('const', self.kind not in ('none', 'logger'))
            if t.endswith('.Logger') or t == 'Logger':
                return ('const', self.kind == 'logger')
            return ('const', self.kind != 'none') if 'Logger' in t else None
        fv = self.value(f, env, out)
        if isinstance(fv, tuple) and fv[0] == 'meth' and (
                isinstance(f, ast.Name) or fv[1] in METHODS
                or fv[1] == (getattr(f, 'attr', None))):
            for a in n.args:
                self.value(a.value if isinstance(a, ast.Starred) else a, env,
                           out)
            bad = [k.arg for k in n.keywords
                   if k.arg is not None and k.arg not in KW]
            if bad and fv[1] in METHODS and self.kind in (
                    'logger', 'adapter', 'adapter+stat'):
                self.throw(n, 'TypeError', out)
            elif [b for b in bad if b != 'cpp_state'] and \
                    fv[1] in METHODS and self.kind == 'package':
                self.throw(n, 'TypeError', out)
            return None
        vals = [self.value(a.value if isinstance(a, ast.Starred) else a, env,
                           out) for a in n.args]
        kws = {k.arg: self.value(k.value, env, out) for k in n.keywords}
        if LOGV in vals or LOGV in kws.values() or any(
                isinstance(v, tuple) and v[0] == 'meth' for v in vals):
            self.inline(n, f, vals, kws, env, out)
        elif isinstance(f, ast.Attribute) and isinstance(
                f.value, ast.Name) and f.value.id == 'self' and \
                env.get('$cls') is not None:
            m = self.pkg.method(env['$cls'], f.attr)
            if m and f.attr.startswith('_'):
                self.func(m[1], m[0].mod, [None] + vals, kws, env['$cls'],
                          {k: v for k, v in env.items()
                           if k.startswith('self.')}, out)
        return None

    def inline(self, n, f, vals, kws, env, out):
        if isinstance(f, ast.Name):
            loc = env.get('$def:' + f.id)
            if loc is not None:
                self.func(loc, self.mod, vals, kws, env.get('$cls'),
                          dict(env), out)
                return
            r = self.pkg.lookup(self.mod, f.id)
            if r and r[0] == 'func':
                self.func(r[2], r[1], vals, kws, None, {}, out)
        elif isinstance(f, ast.Attribute) and isinstance(
                f.value, ast.Name):
            if f.value.id in ('self', 'cls') and env.get('$cls'):
                m = self.pkg.method(env['$cls'], f.attr)
                if m:
                    self.func(m[1], m[0].mod, [None] + vals, kws,
                              env['$cls'], {k: v for k, v in env.items()
                                            if k.startswith('self.')}, out)

    def func(self, f, mod, vals, kws, cls, base, out):
        if f in self.stack or len(self.stack) > 8:
            return
        env = dict(base)
        env['$cls'] = cls
        ps = [a.arg for a in f.args.posonlyargs + f.args.args]
        dft = dict(zip(ps[len(ps) - len(f.args.defaults):],
                       f.args.defaults))
        for i, p in enumerate(ps + [a.arg for a in f.args.kwonlyargs]):
            env[p] = vals[i] if i < len(vals) and i < len(ps) else \
                kws.get(p) if p in kws else (
                    ('const', dft[p].value) if isinstance(
                        dft.get(p), ast.Constant) else None)
        old = self.mod
        self.mod = mod
        self.stack.append(f)
        try:
            for o in self.block(f.body, env):
                if isinstance(o, tuple):
                    out.append(o)
        finally:
            self.stack.pop()
            self.mod = old

    # ---- statements: outcomes are 'next', 'stop' or (exc, node, mod)
    def block(self, body, env):
        res = set()
        for s in body:
            o = self.stmt(s, env)
            res |= o - {'next'}
            if 'next' not in o:
                return res
        return res | {'next'}

    def expr(self, n, env):
        out = []
        v = self.value(n, env, out)
        return v, (set(out) if out else {'next'})

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            return self.expr(s.value, env)[1]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return {'next'}
            v, o = self.expr(s.value, env)
            for t in (s.targets if isinstance(s, ast.Assign)
                      else [s.target]):
                if isinstance(t, ast.Name):
                    env[t.id] = v
                elif self.selfkey(t, env):
                    env[self.selfkey(t, env)] = v
                elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                        s.value, (ast.Tuple, ast.List)) and len(
                        t.elts) == len(s.value.elts):
                    for a, b in zip(t.elts, s.value.elts):
                        if isinstance(a, ast.Name):
                            env[a.id] = self.value(b, env, [])
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for a in t.elts:
                        if isinstance(a, ast.Name):
                            env.pop(a.id, None)
            return o
        if isinstance(s, ast.Return):
            return self.expr(s.value, env)[1] - {'next'} or {'stop'}
        if isinstance(s, ast.Raise):
            if s.exc is None and env.get('$exc'):
                return set(env['$exc'])
            return self.expr(s.exc, env)[1] - {'next'} or {'stop'}
        if isinstance(s, (ast.Break, ast.Continue)):
            return {'stop'}
        if isinstance(s, ast.If):
            out = []
            t = self.test(s.test, env, out)
            if out:
                return set(out)
            self.note(s, t, env)
            if t is True:
                return self.block(s.body, env)
            if t is False:
                return self.block(s.orelse, env)
            e2 = dict(env)
            r = self.block(s.body, env) | self.block(s.orelse, e2)
            for k in list(env):
                if env.get(k) != e2.get(k):
                    env[k] = env.get(k) if env.get(k) is not None \
                        else e2.get(k)
            for k, v in e2.items():
                env.setdefault(k, v)
            return r
        if isinstance(s, (ast.For, ast.While)):
            h = s.iter if isinstance(s, ast.For) else s.test
            o = self.expr(h, env)[1]
            r = self.block(s.body, env)
            return {x for x in r if isinstance(x, tuple)} | \
                self.block(s.orelse, env) | o | {'next'}
        if isinstance(s, ast.With):
            r = set()
            for i in s.items:
                r |= self.expr(i.context_expr, env)[1] - {'next'}
            return r | self.block(s.body, env)
        if isinstance(s, ast.Try):
            return self.try_(s, env)
        if isinstance(s, (ast.FunctionDef,)):
            env['$def:' + s.name] = s
            return {'next'}
        r = {'next'}
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                o = self.expr(c, env)[1]
                if 'next' not in o:
                    return o
        return r

    def catches(self, h, exc):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            n = ast.unparse(t).split('.')[-1]
            if n in (exc, 'Exception', 'BaseException'):
                return True
        return False

    def try_(self, s, env):
        r = self.block(s.body, env)
        exc = {x for x in r if isinstance(x, tuple)}
        rest = r - exc
        res = set()
        if 'next' in rest:
            res |= self.block(s.orelse, env)
            rest = rest - {'next'}
        res |= rest
        handled = False
        for h in s.handlers:
            got = {x for x in exc if self.catches(h, x[0])}
            exc -= got
            if got:
                handled = True
                e2 = dict(env)
                e2['$exc'] = got
                res |= self.block(h.body, e2)
            elif h.type is None or True:
                # reachable through exceptions that are not the logger's
                e2 = dict(env)
                if not self.only_logging(s.body, env):
                    e2['$exc'] = ()
                    res |= self.block(h.body, e2)
        if handled:
            self.fallback(s, env)
        res |= exc
        if s.finalbody:
            f = self.block(s.finalbody, env)
            if 'next' not in f:
                return f
            res |= {x for x in f if isinstance(x, tuple)}
        return res

    # ---- what logging-only regions do besides logging
    def only_logging(self, body, env):
        return not list(self.work(body, env))

    def mentions(self, n, env):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and env.get(x.id) in (LOGV,):
                return True
            if isinstance(x, ast.Attribute) and self.selfkey(x, env) and \
                    env.get(self.selfkey(x, env)) == LOGV:
                return True
        return False

    def note(self, s, t, env):
        """A branch taken or not because of the logger alone."""
        if not self.mentions(s.test, env) or t is None:
            return
        if any(isinstance(x, ast.Return) for y in s.body
               for x in ast.walk(y)) or any(
                isinstance(x, ast.Return) for y in s.orelse
                for x in ast.walk(y)):
            return      # early exits: judged where they lead
        other = isinstance(s.test, ast.BoolOp)
        for body in (s.body, s.orelse):
            if other and body is s.orelse:
                continue
            for w in self.work(body, env):
                self.effects.append((w, s, self.mod))

    def fallback(self, s, env):
        for h in s.handlers:
            for w in self.work(h.body, env):
                if not any(ast.dump(w) == ast.dump(x) for y in s.body
                           for x in ast.walk(y)
                           if isinstance(x, type(w))):
                    self.effects.append((w, s, self.mod))
        for w in self.work(s.body, env):
            self.effects.append((w, s, self.mod))

    def work(self, body, env):
        """Statements in body with an effect other than logging."""
        names = set()
        for s in body:
            yield from self.work1(s, env, names)

    def work1(self, s, env, names):
        if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            for f in ('body', 'orelse', 'finalbody'):
                for x in getattr(s, f, []):
                    yield from self.work1(x, env, names)
            for h in getattr(s, 'handlers', []):
                for x in h.body:
                    yield from self.work1(x, env, names)
            return
        if isinstance(s, ast.Expr):
            if not self.pure(s.value, env):
                yield s
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    yield s
                    return
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and self.used_outside(
                            x.id, s):
                        yield s
                        return
            if s.value is not None and not self.pure(s.value, env):
                yield s
        elif isinstance(s, (ast.Delete, ast.Raise)):
            yield s

    def used_outside(self, name, s):
        """Is the name a result other code relies on? Loads in nested
        guarded code are fine; loads elsewhere are not."""
        f = self.stack[-1] if self.stack else None
        if f is None:
            return False
        inside, total = 0, 0

        def visit(n, guarded):
            nonlocal inside, total
            g = guarded
            if isinstance(n, ast.If):
                txt = ast.unparse(n.test)
                if 'logger' in txt or 'log' in txt.lower():
                    for c in n.body + n.orelse:
                        visit(c, True)
                    visit(n.test, g)
                    return
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in METHODS:
                g = True
            if isinstance(n, ast.Name) and n.id == name and isinstance(
                    n.ctx, ast.Load):
                total += 1
                inside += g
            for c in ast.iter_child_nodes(n):
                visit(c, g)
        visit(f, False)
        return total > inside

    def pure(self, e, env):
        for n in ast.walk(e):
            if not isinstance(n, ast.Call):
                if isinstance(n, ast.NamedExpr) and self.used_outside(
                        n.target.id, n):
                    return False
                continue
            f = n.func
            if isinstance(f, ast.Attribute):
                if f.attr in METHODS or f.attr in KW:
                    continue
                if self.mutator(f, env):
                    return False
            elif isinstance(f, ast.Name):
                r = self.pkg.lookup(self.mod, f.id)
                v = env.get(f.id)
                if isinstance(v, tuple) and v[0] == 'meth':
                    continue
                if env.get('$def:' + f.id) is not None:
                    continue
                if r and r[0] == 'func' and self.fmutates(r[2]):
                    return False
        return True

    def mutator(self, f, env):
        """Does some package class have a method of this name that changes
        its object (and no class one that does not)?"""
        if f.attr in ('append', 'extend', 'update', 'pop', 'setdefault',
                      'insert', 'clear', 'remove', 'add', 'popitem',
                      'write', 'writelines'):
            return True
        hit = [m for mod in self.pkg.mods.values()
               for c in mod.classes.values()
               for k, m in c.methods.items() if k == f.attr]
        return bool(hit) and all(self.fmutates(m) for m in hit)

    def fmutates(self, f):
        for x in ast.walk(f):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(
                    x.ctx, (ast.Store, ast.Del)):
                r = x
                while isinstance(r, (ast.Attribute, ast.Subscript)):
                    r = r.value
                if isinstance(r, ast.Name) and r.id in [
                        a.arg for a in f.args.args]:
                    return True
        return False


def logger_params(f):
    from ..alias import full_doc_types
    docs = full_doc_types(f)
    out = []
    for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
        d = docs.get(a.arg, '')
        if 'logging.Logger' in d or a.arg == 'logger':
            out.append(a.arg)
    return out


def logger_attrs(pkg, c):
    """Attributes of a class that hold a logger a caller gave."""
    out = set()
    for b in pkg.bases(c)[0]:
        for f in b.methods.values():
            ps = set(logger_params(f))
            for s in ast.walk(f):
                if isinstance(s, ast.Assign) and any(
                        isinstance(x, ast.Name) and x.id in ps
                        for x in ast.walk(s.value)) and isinstance(
                        s.value, (ast.Name, ast.BoolOp, ast.IfExp)):
                    for t in s.targets:
                        if isinstance(t, ast.Attribute) and isinstance(
                                t.value, ast.Name) and \
                                t.value.id == 'self':
                            out.add(t.attr)
    return out


def check(rep, tier):
    pkg = pymodel.Package()
    rep.rule('use', 'for each kind of logger, no exception from using it '
             'leaves the function')
    rep.rule('effect', 'code that depends on the logger only logs')
    sites = set()
    for fn, mod in sorted(pkg.mods.items()):
        todo = [(None, f) for f in mod.funcs.values()]
        for c in mod.classes.values():
            todo += [(c, f) for f in c.methods.values()]
        for c, f in todo:
            ps = logger_params(f)
            la = logger_attrs(pkg, c) if c is not None else set()
            if not ps and not (la and any(
                    isinstance(x, ast.Attribute) and x.attr in la or
                    isinstance(x, ast.Constant) and x.value in la
                    for x in ast.walk(f))):
                continue
            label = f'{fn}::{c.name + "." if c else ""}{f.name}'
            bad = {}
            eff = {}
            n = 0
            for kind in KINDS:
                r = Run(pkg, kind)
                r.mod = mod
                out = []
                env = {f'self.{a}': LOGV for a in la}
                names = [a.arg for a in f.args.posonlyargs + f.args.args]
                vals = [LOGV if p in ps else None for p in names]
                r.func(f, mod, vals, {p: LOGV for p in ps}, c, env, out)
                n += r.nuses
                for exc, node, m in out:
                    bad.setdefault((m.file, node.lineno,
                                    qual(m, node)), []).append((kind, exc))
                for w, s, m in r.effects:
                    eff[(m.file, getattr(w, 'lineno', s.lineno))] = (w, m)
            private = f.name.startswith('_') and f.name not in (
                '__init__', '__cinit__', '__setitem__', '__getitem__') \
                and ps and called_with_logger(pkg, mod, f)
            if private:
                # judged where it is called with a logger
                bad = {}
            for (file, line, q), ks in sorted(bad.items()):
                rep.bad('use', f'{file}::{q}', f'{file}:{line}',
                        'logger use fails: ' + ', '.join(
                            f'{e} when the logger is {k}'
                            for k, e in sorted(set(ks))))
            for (file, line), (w, m) in sorted(eff.items()):
                rep.bad('effect', f'{file}::{qual(m, w)}', f'{file}:{line}',
                        f'`{ast.unparse(w)[:70]}` runs only depending on '
                        'the logger')
            if not bad:
                rep.ok('use', label, fn, f'{n} logger uses over '
                       f'{len(KINDS)} kinds')
            if not eff:
                rep.ok('effect', label, fn, 'logging only')
            sites.add(label)
    rep.analysed['functions'] = len(sites)
    rep.need('use', 12)


def called_with_logger(pkg, mod, f):
    """Is a private helper reached from other package code?"""
    for m in pkg.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and (
                    isinstance(n.func, ast.Name) and n.func.id == f.name or
                    isinstance(n.func, ast.Attribute) and
                    n.func.attr == f.name):
                if any('logger' in ast.unparse(a) for a in n.args) or any(
                        k.arg and 'log' in k.arg for k in n.keywords):
                    return True
    return False
