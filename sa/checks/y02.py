"""Y02: every name, attribute and call on every Python path resolves."""
import ast
import json
import os
import re
import shutil
import subprocess
import tempfile

from .. import options, pyflow, pymodel
from ..cxx import AnalysisBroken, Program

EXPLANATION = (
    'Every function of the Python and Cython layers is analysed for names '
    'that are nowhere defined and, path-sensitively, for local names that '
    'some feasible path leaves unbound.  Paths that contradict the tests '
    'taken, or the option values the backend validation accepts (obtained '
    'by interpreting it), are excluded.  Attributes of instances of package '
    'classes and calls of package functions are resolved against the '
    'definitions; names taken from installed libraries are resolved by a '
    'type checker on a generated list of them.')

KNOWN = {'__name__', '__file__', '__doc__', '__package__', '__spec__',
         '__path__', '__class__', '__qualname__', '__module__',
         '__annotations__', '__loader__'}
CY = {'__cast__', '__addr__', '__new__', '__sizeof__', 'NULL', 'size_t',
      'nogil', 'gil', 'bint', 'void', 'double', 'char', 'long', 'short',
      'unsigned', 'float', 'int', 'Py_ssize_t', 'ssize_t', 'ptrdiff_t',
      'cython', 'signed', 'const'}
PARAM = re.compile(r"^(?:paramset|params?|self\._params|self|parameter_set)"
                   r"\['(\w+)'\]$")


class Domain:
    """Feasibility of a set of facts given accepted option values."""

    def __init__(self, prog):
        self.acc = {}
        for o, vs in options.OPTIONS.items():
            ok = [v for v in vs if options.run(prog, {o: v}) is not None]
            if ok:
                self.acc[o] = frozenset(ok)
        self.acc['interlace'] = frozenset({True, False})
        self.stat = []
        for s in self.acc.get('statistic_type', ()):
            for c in self.acc.get('catalogue_type', ()):
                for n in self.acc.get('norm_convention', ()):
                    r = options.run(prog, {'statistic_type': s,
                                           'catalogue_type': c,
                                           'norm_convention': n})
                    if r is not None:
                        self.stat.append({
                            'statistic_type': s, 'catalogue_type': c,
                            'norm_convention': n, 'npoint': r['npoint'],
                            'space': r['space']})
        self.attr = {}

    def feasible(self, d):
        by = {}
        for k, c in d.facts.items():
            m = PARAM.match(k)
            if m and m.group(1) in self.acc:
                o = m.group(1)
                if pyflow.meet(c, ('in', self.acc[o])) is False:
                    return False
            if m and self.stat and m.group(1) in self.stat[0]:
                by[m.group(1)] = c
            if k in self.attr and pyflow.meet(
                    c, ('in', self.attr[k])) is False:
                return False
        if len(by) > 0 and self.stat:
            def fits(row):
                return all(row[o] is None or pyflow.meet(
                    c, ('in', frozenset({row[o]}))) is not False
                    for o, c in by.items())
            if not any(fits(r) for r in self.stat):
                return False
        return True


class Flow(pyflow.Flow):
    """Adds the options a call is given by name to the facts about its
    result (`p = merge(p, catalogue_type='random')`)."""

    def assign_name(self, name, value, ds):
        if isinstance(value, ast.Call) and pyflow.text(
                value.func).endswith('ParameterSet') and any(
                isinstance(a, ast.Name) and a.id == name for a in [
                    *value.args, *[k.value for k in value.keywords]]):
            return [d.bind(name) for d in ds]   # same entries
        ds = super().assign_name(name, value, ds)
        if isinstance(value, ast.Call):
            for k in value.keywords:
                if k.arg in options.OPTIONS and isinstance(
                        k.value, ast.Constant) and k.value.value:
                    ds = self.put(ds, f"{name}['{k.arg}']", (
                        'in', frozenset({k.value.value})))
        return ds


def class_consts(pkg):
    """self.attr -> constants, where every store in the package is one."""
    vals = {}
    for m in pkg.mods.values():
        for c in m.classes.values():
            for a, vs in c.stores.items():
                for v in vs:
                    if isinstance(v, ast.Constant) and isinstance(
                            v.value, (str, bool, int)):
                        vals.setdefault(a, []).append(v.value)
                    else:
                        vals.setdefault(a, []).append(None)
    vals = {a: v for a, v in vals.items() if None not in v}
    return {f'self.{a}': frozenset(v) for a, v in vals.items() if v}


class Check:
    def __init__(self, rep, pkg, dom):
        self.rep, self.pkg, self.dom = rep, pkg, dom
        self.ext = {}           # external dotted chain -> where
        self.nfun = 0

    def where(self, m, n):
        return f'src/triumvirate/{m.file}:{getattr(n, "lineno", 0)}'

    def module(self, m):
        base = set(m.names) | KNOWN | (CY if m.file.endswith('.pyx')
                                       else set())
        fl = pyflow.Flow(base)
        end = [pyflow.D()]
        locs = pyflow.scope(m.tree.body)
        fl.local = set()
        fl.undefined = lambda nm, n: self.undef(m, '<module>', nm, n)
        fl.feasible = self.dom.feasible
        end = fl.block(m.tree.body, end)
        partial = {n for n in locs if any(n not in d.bound for d in end)
                   } & m.names
        init = [pyflow.D(d.bound & partial, {
            k: v for k, v in d.facts.items() if k in locs}) for d in end] \
            or [pyflow.D()]
        for s in m.tree.body:
            self.scope(m, s, base, '', None, partial, init)
        # functions under if/try at module level
        for s in ast.walk(m.tree):
            if isinstance(s, (ast.If, ast.Try)) and s in m.tree.body:
                for x in ast.walk(s):
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        self.scope(m, x, base, '', None, partial, init)

    def undef(self, m, q, nm, n):
        self.rep.bad('defined', f'{m.name}.{q}: {nm}', self.where(m, n),
                     'name is defined nowhere')

    def scope(self, m, s, known, prefix, cls, partial, init):
        if isinstance(s, ast.ClassDef):
            c = m.classes.get(s.name)
            for x in s.body:
                self.scope(m, x, known, f'{prefix}{s.name}.', c, partial,
                           init)
            return
        if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return
        self.nfun += 1
        q = prefix + s.name
        locs = pyflow.scope(s.body, s.args)
        bad = {}
        fl = Flow(known - locs)
        fl.local = set(locs) | (partial - locs)
        fl.feasible = self.dom.feasible
        fl.report = lambda nm, n, d: bad.setdefault(nm, (n, d))
        und = {}
        fl.undefined = lambda nm, n: None if nm.startswith(
            '__new__') else und.setdefault(nm, n)
        args = frozenset(pyflow.argnames(s.args))
        ds = [pyflow.D((d.bound - locs) | args, {
            k: v for k, v in d.facts.items() if not any(
                pyflow.mentions(k, x) for x in locs)}) for d in init]
        fl.block(s.body, pyflow.normal(ds))
        for nm, n in und.items():
            self.undef(m, q, nm, n)
        if not und:
            self.rep.ok('defined', f'{m.name}.{q}', self.where(m, s))
        for nm, (n, d) in bad.items():
            self.rep.bad('bound', f'{m.name}.{q}: {nm}', self.where(m, n),
                         'not bound when ' + show(d.facts))
        if not bad:
            self.rep.ok('bound', f'{m.name}.{q}', self.where(m, s))
        self.refs(m, s, q, cls, locs)
        # nested definitions
        for x in inner(s.body):
            self.scope(m, x, known | locs, q + '.', None if not isinstance(
                x, ast.ClassDef) else None, partial - locs, init)

    # -- attributes and calls ------------------------------------------
    def types(self, m, f, cls, locs):
        """local name -> ('inst'|'type', Class)"""
        out, assigned = {}, {}
        deco = [ast.unparse(d) for d in f.decorator_list]
        args = [*f.args.posonlyargs, *f.args.args]
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                assigned.setdefault(x.id, []).append(None)
        for x in ast.walk(f):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name):
                v = assigned[x.targets[0].id]
                v.remove(None)
                v.append(x.value)
            elif isinstance(x, ast.AnnAssign) and isinstance(
                    x.target, ast.Name):
                v = assigned[x.target.id]
                v.remove(None)
                if x.value is not None:
                    v.append(x.value)
        docs = pymodel.doc_types(f)
        for a in [*args, *f.args.kwonlyargs]:
            nm = docs.get(a.arg)
            t = getattr(a, 'ctype', None)
            if t:
                nm = t
            elif isinstance(a.annotation, ast.Name):
                nm = a.annotation.id
            if nm and not assigned.get(a.arg):
                c = self.find_class(m, nm)
                if c is not None and (t or not c.mod.file.endswith('.pyx')
                                      or True):
                    out[a.arg] = ('inst', c)
        if cls is not None and args and 'staticmethod' not in deco and \
                not assigned.get(args[0].arg):
            out[args[0].arg] = (
                'type' if 'classmethod' in deco else 'inst', cls)
        for nm, vs in assigned.items():
            if nm in out or not vs:
                continue
            ts = [self.typeof(m, v, out, cls) for v in vs]
            if ts[0] is not None and all(t == ts[0] for t in ts):
                out[nm] = ts[0]
        return out

    def find_class(self, m, nm):
        r = self.pkg.lookup(m, nm)
        if r is None:
            cs = [x.classes[nm] for x in self.pkg.mods.values()
                  if nm in x.classes]
            return cs[0] if len(cs) == 1 else None
        return r[2] if r[0] == 'class' else None

    def typeof(self, m, v, env, cls):
        if isinstance(v, ast.Name):
            return env.get(v.id)
        if isinstance(v, ast.Call):
            f = v.func
            if isinstance(f, ast.Name):
                r = self.pkg.lookup(m, f.id)
                if r and r[0] == 'class':
                    return ('inst', r[2])
                if f.id in env and env[f.id][0] == 'type':
                    return ('inst', env[f.id][1])
            if isinstance(f, ast.Attribute) and f.attr == '__new__' and \
                    v.args and isinstance(v.args[0], ast.Name):
                t = env.get(v.args[0].id)
                if t and t[0] == 'type':
                    return ('inst', t[1])
            if isinstance(f, ast.Attribute) and isinstance(
                    f.value, ast.Name) and f.attr.startswith((
                        'from_', 'load_')):
                r = self.pkg.lookup(m, f.value.id)
                if r and r[0] == 'class':
                    mt = self.pkg.method(r[2], f.attr)
                    if mt and any('classmethod' in ast.unparse(d)
                                  for d in mt[1].decorator_list):
                        return ('inst', r[2])
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
            t = env.get(v.value.id)
            if t and t[0] == 'inst':
                return self.attrtype(t[1], v.attr)
        return None

    def attrtype(self, c, a):
        for b in self.pkg.bases(c)[0]:
            vs = b.stores.get(a)
            if vs:
                ts = []
                for v in vs:
                    if v is None:
                        return None
                    if isinstance(v, ast.Constant) and v.value is None:
                        continue
                    ts.append(self.typeof(b.mod, v, {}, b))
                if ts and ts[0] is not None and all(t == ts[0]
                                                    for t in ts):
                    return ts[0]
                return None
        return None

    def refs(self, m, f, q, cls, locs):
        env = self.types(m, f, cls, locs)
        self.cur = f
        tries = guarded(f)
        for x in own(f):
            if isinstance(x, ast.Call):
                self.call(m, x, q, cls, env, locs)
            if isinstance(x, ast.Attribute) and isinstance(
                    x.ctx, ast.Load):
                self.attr(m, x, q, env, locs, tries)

    def attr(self, m, x, q, env, locs, tries):
        w = self.where(m, x)
        t = None
        if isinstance(x.value, ast.Name):
            t = env.get(x.value.id)
            if t is None and x.value.id not in locs:
                r = self.pkg.lookup(m, x.value.id)
                if r and r[0] == 'module':
                    ok = x.attr in r[1].names
                    self.rep.check(ok, 'attribute', f'{m.name}.{q}: '
                                   f'{ast.unparse(x)}', w,
                                   f'module {r[1].name} has no such name')
                    return
                if r and r[0] == 'class':
                    t = ('type', r[2])
        elif isinstance(x.value, ast.Attribute) and isinstance(
                x.value.value, ast.Name):
            b = env.get(x.value.value.id)
            if b and b[0] == 'inst':
                t = self.attrtype(b[1], x.value.attr)
        elif isinstance(x.value, ast.Call) and isinstance(
                x.value.func, ast.Name) and x.value.func.id == 'super':
            return
        if t is not None:
            c = t[1]
            names, full = self.pkg.attrs(c)
            if x.attr.startswith('__') and x.attr.endswith('__'):
                return
            if not full:
                return
            con = f'{m.name}.{q}: {ast.unparse(x)}'
            if x.attr not in names:
                if x in tries or x.attr in self.foreign():
                    self.rep.ok('attribute', con, w, 'guarded')
                else:
                    self.rep.bad('attribute', con, w, f'{c.name} has no '
                                 f'attribute {x.attr!r}')
            elif x.attr in set().union(*[b.cattrs for b in
                                         self.pkg.bases(c)[0]]) and \
                    m.file.endswith('.py') and x not in tries:
                self.rep.bad('attribute', con, w, f'{x.attr!r} of the '
                             f'extension class {c.name} is not visible '
                             'from Python')
            else:
                self.rep.ok('attribute', con, w)
            return
        ch = chain(x)
        if ch and ch[0] not in locs and ch[0] in m.imports and \
                ch[0] not in m.soft and x not in tries:
            mod, sym = m.imports[ch[0]]
            if not mod.startswith(('.', 'triumvirate')) and \
                    mod.split('.')[0] not in ('libcpp', 'libc', 'cython',
                                              'cpython'):
                if self.pkg.modname(mod) is None:
                    self.ext.setdefault((mod, sym, tuple(ch[1:])),
                                        (m, x, q))

    def foreign(self):
        """Attribute names stored on something other than `self`."""
        if not hasattr(self, '_foreign'):
            self._foreign = {
                x.attr for m in self.pkg.mods.values()
                for x in ast.walk(m.tree) if isinstance(x, ast.Attribute)
                and isinstance(x.ctx, ast.Store) and not (
                    isinstance(x.value, ast.Name) and
                    x.value.id in ('self', 'cls'))}
        return self._foreign

    def callee(self, m, x, cls, env, locs):
        """(signature, skip first?, name) or None"""
        f = x.func
        if isinstance(f, ast.Name):
            if f.id in locs:
                d = self.localdef(m, f.id, x)
                if d is not None:
                    return [(d, 0)]
                t = env.get(f.id)
                if t and t[0] == 'type':
                    return self.ctor(t[1])
                return None
            d = self.localdef(m, f.id, x)
            if d is not None:
                return [(d, 0)]
            r = self.pkg.lookup(m, f.id)
            if r and r[0] == 'func':
                if r[1].funcs.get(f.id if r[1] is m else r[2].name) is None:
                    return None
                return [(r[2], 0)]
            if r and r[0] == 'class':
                return self.ctor(r[2])
            return None
        if isinstance(f, ast.Attribute):
            t = None
            if isinstance(f.value, ast.Name):
                t = env.get(f.value.id)
                if t is None and f.value.id not in locs:
                    r = self.pkg.lookup(m, f.value.id)
                    if r and r[0] == 'module':
                        g = r[1].funcs.get(f.attr)
                        if g is not None:
                            return [(g, 0)]
                        if f.attr in r[1].classes:
                            return self.ctor(r[1].classes[f.attr])
                        return None
                    if r and r[0] == 'class':
                        t = ('type', r[2])
            elif isinstance(f.value, ast.Attribute) and isinstance(
                    f.value.value, ast.Name):
                b = env.get(f.value.value.id)
                if b and b[0] == 'inst':
                    t = self.attrtype(b[1], f.value.attr)
            elif isinstance(f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == 'super' \
                    and cls is not None:
                for b in self.pkg.bases(cls)[0][1:]:
                    if f.attr in b.methods:
                        return [(b.methods[f.attr], 1)]
                return None
            if t is None:
                return None
            if f.attr in set().union(*[
                    set(b.stores) for b in self.pkg.bases(t[1])[0]]):
                return None
            mt = self.pkg.method(t[1], f.attr)
            if mt is None or f.attr in mt[0].property:
                return None
            deco = [ast.unparse(d) for d in mt[1].decorator_list]
            if any(d not in ('staticmethod', 'classmethod') for d in deco):
                return None
            skip = 1
            if 'staticmethod' in deco or (
                    t[0] == 'type' and 'classmethod' not in deco):
                skip = 0
            return [(mt[1], skip)]
        return None

    def localdef(self, m, name, x):
        fs = [d for d in ast.walk(self.cur) if isinstance(
            d, ast.FunctionDef) and d is not self.cur and d.name == name] \
            if getattr(self, 'cur', None) is not None else []
        return fs[0] if len(fs) == 1 else None

    def ctor(self, c):
        bs, unknown = self.pkg.bases(c)
        if any(b.open for b in bs):
            pass
        out = []
        for nm in ('__cinit__', '__init__', '__new__'):
            mt = self.pkg.method(c, nm)
            if mt is not None:
                out.append((mt[1], 1))
        if out or unknown:
            return out or None
        if any(b.dataclass for b in bs):
            if len(bs) > 1:
                return None
            a = ast.arguments([], [ast.arg(n) for n, _ in c.fields], None,
                              [], [], None,
                              [v for _, v in c.fields if v is not None])
            f = ast.FunctionDef(c.name, a, [], [], None)
            return [(f, 0)]
        if c.node.decorator_list:
            return None
        f = ast.FunctionDef(c.name, ast.arguments(
            [], [], None, [], [], None, []), [], [], None)
        return [(f, 0)]

    def passed(self, m, x):
        """Functions passed for the parameter that is called, at the call
        sites of the enclosing module-level function."""
        F, p = self.cur, x.func.id
        if p not in pyflow.argnames(F.args) or m.funcs.get(F.name) is not F:
            return None
        names = [a.arg for a in [*F.args.posonlyargs, *F.args.args]]
        out = []
        for mm in self.pkg.mods.values():
            for c in ast.walk(mm.tree):
                if not (isinstance(c, ast.Call) and isinstance(
                        c.func, ast.Name) and c.func.id == F.name):
                    continue
                r = self.pkg.lookup(mm, F.name)
                if not r or r[2] is not F:
                    continue
                v = next((k.value for k in c.keywords if k.arg == p), None)
                if v is None and p in names and names.index(p) < len(
                        c.args):
                    v = c.args[names.index(p)]
                if isinstance(v, ast.Name):
                    g = self.pkg.lookup(mm, v.id)
                    if g and g[0] == 'func':
                        out.append((g[2], 0))
        return out

    def call(self, m, x, q, cls, env, locs):
        sigs = self.callee(m, x, cls, env, locs)
        if not sigs and isinstance(x.func, ast.Name):
            sigs = self.passed(m, x)
        if not sigs:
            return
        for f, skip in sigs:
            why = fit(f, skip, x)
            for k in x.keywords:
                if k.arg is None and isinstance(k.value, ast.Name) and \
                        why is None:
                    why = self.spread(f, skip, k.value.id)
            con = f'{m.name}.{q}: {ast.unparse(x.func)}'
            self.rep.check(why is None, 'call', con, self.where(m, x),
                           f'{f.name}(): {why}')

    def spread(self, f, skip, name):
        """Do the keys of the dictionaries `**name` may hold fit?"""
        a = f.args
        if a.kwarg is not None:
            return None
        ok = {p.arg for p in [*a.args[skip:], *a.kwonlyargs]}
        vs = [s for s in own(self.cur) if isinstance(s, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == name for t in s.targets)]
        for v in vs:
            if isinstance(v.value, ast.Dict):
                for k in v.value.keys:
                    if isinstance(k, ast.Constant) and k.value not in ok:
                        return f'unknown argument {k.value!r}'
        return None

    def run(self):
        for m in self.pkg.mods.values():
            self.toplevel = m
            self.module(m)


def inner(body):
    out = []
    todo = list(body)
    while todo:
        s = todo.pop(0)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            out.append(s)
            continue
        todo = [c for c in ast.iter_child_nodes(s)
                if isinstance(c, (ast.stmt, ast.excepthandler))] + todo
    return out


def own(f):
    """Nodes of a function without nested functions or classes (they are
    visited in their own scope); lambdas and comprehensions included."""
    todo = list(f.body)
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.ClassDef,
                                  ast.AsyncFunctionDef)):
                todo.append(c)


def guarded(f):
    """Nodes inside a try that handles AttributeError, or under hasattr."""
    out = set()
    for t in ast.walk(f):
        if isinstance(t, ast.Try):
            for h in t.handlers:
                tx = ast.unparse(h.type) if h.type is not None else \
                    'Exception'
                if re.search(r'\b(AttributeError|Exception|BaseException|'
                             r'ImportError)\b', tx):
                    for s in t.body:
                        out |= set(ast.walk(s))
        if isinstance(t, (ast.If, ast.IfExp)) and 'hasattr(' in \
                ast.unparse(t.test):
            for s in (t.body if isinstance(t.body, list) else [t.body]):
                out |= set(ast.walk(s))
    return out


def chain(x):
    out = []
    while isinstance(x, ast.Attribute):
        out.append(x.attr)
        x = x.value
    if isinstance(x, ast.Name):
        out.append(x.id)
        return out[::-1]
    return None


def fit(f, skip, x):
    """Why a call does not fit a signature, or None."""
    a = f.args
    pos = [*a.posonlyargs, *a.args][skip:]
    npos = len([*a.posonlyargs, *a.args])
    ndef = len(a.defaults)
    required = [p.arg for p in [*a.posonlyargs, *a.args][
        skip:npos - ndef]] if ndef < npos else []
    star = any(isinstance(v, ast.Starred) for v in x.args)
    dstar = any(k.arg is None for k in x.keywords)
    given = len([v for v in x.args if not isinstance(v, ast.Starred)])
    if given > len(pos) and a.vararg is None:
        return f'takes {len(pos)} positional arguments, given {given}'
    names = {p.arg for p in pos} - {p.arg for p in a.posonlyargs}
    kwo = {p.arg for p in a.kwonlyargs}
    seen = set(p.arg for p in pos[:given])
    for k in x.keywords:
        if k.arg is None:
            continue
        if k.arg in seen:
            return f'several values for {k.arg!r}'
        if k.arg not in names and k.arg not in kwo and a.kwarg is None:
            return f'unknown argument {k.arg!r}'
        seen.add(k.arg)
    if not star and not dstar:
        miss = [r for r in required if r not in seen]
        miss += [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults)
                 if d is None and p.arg not in seen]
        if miss:
            return 'missing ' + ', '.join(map(repr, miss))
    return None


def show(facts):
    out = []
    for k, (op, v) in sorted(facts.items()):
        if len(v) > 4 or len(out) > 5:
            continue
        s = ', '.join(map(repr, sorted(v, key=str)))
        out.append(f'{k} {"is" if op == "in" else "is not"} {s}')
    return '; '.join(out) or 'no test excludes it'


def external(rep, ext, mods):
    """Resolve library names with a type checker on a generated file."""
    exe = shutil.which('pyright')
    py = '/opt/venv/bin/python'
    items = list(ext.items())
    froms = []
    for m in mods:
        for s in ast.walk(m.tree):
            if not isinstance(s, ast.ImportFrom) or s.level or \
                    not s.module or m.file.endswith('.pyx'):
                continue
            if s.module.startswith(('triumvirate', '__future__')):
                continue
            for a in s.names:
                if (a.asname or a.name) not in m.soft:
                    froms.append((s.module, a.name, m, s))
    if exe is None or not os.path.exists(py):
        for _, (m, x, q) in items:
            rep.undecided('library', f'{m.name}.{q}: {ast.unparse(x)}')
        return
    lines, back = [], {}
    for (mod, sym, ch), (m, x, q) in items:
        if sym is None:
            lines.append(f'import {mod} as m{len(lines)}')
        else:
            lines.append(f'from {mod} import {sym} as m{len(lines)}')
        lines.append('.'.join([f'm{len(lines) - 1}', *ch]))
        back[len(lines) - 1] = (m, x, f'{m.name}.{q}: {ast.unparse(x)}')
    for mod, sym, m, s in froms:
        lines.append(f'from {mod} import {sym} as m{len(lines)}')
        back[len(lines) - 1] = (m, s, f'{m.name}: {sym} from {mod}')
    tmp = tempfile.mkdtemp(prefix='y02')
    try:
        p = os.path.join(tmp, 'names.py')
        with open(p, 'w', encoding='utf-8') as f:
            f.write('\n'.join(lines) + '\n')
        r = subprocess.run([exe, '--outputjson', '--pythonpath', py, p],
                           capture_output=True, text=True, cwd=tmp,
                           timeout=300)
        diag = json.loads(r.stdout)['generalDiagnostics']
    except Exception as err:        # noqa: BLE001
        for _, (m, x, q) in items:
            rep.undecided('library', f'{m.name}.{q}: {ast.unparse(x)}', '',
                          f'type checker failed: {err}')
        return
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    bad, unsure = {}, set()
    for d in diag:
        ln = d['range']['start']['line']
        msg = d['message']
        if 'is not a known attribute of module' in msg or \
                'is unknown import symbol' in msg:
            bad[ln] = msg.splitlines()[0]
        else:
            unsure.add(ln)
            unsure.add(ln + 1)
    for ln, (m, n, con) in back.items():
        w = f'src/triumvirate/{m.file}:{n.lineno}'
        if ln in bad:
            a = n.attr if isinstance(n, ast.Attribute) else None
            if a and set_anywhere(mods, a):
                rep.ok('library', con, w, 'set by the package')
            else:
                rep.bad('library', con, w, bad[ln])
        elif ln in unsure:
            rep.undecided('library', con, w)
        else:
            rep.ok('library', con, w)


def set_anywhere(mods, a):
    for m in mods:
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and x.attr == a and isinstance(
                    x.ctx, ast.Store):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                    x.func.id == 'setattr':
                return True
    return False


def check(rep, tier):
    rep.rule('defined', 'Every name used is a local, enclosing, module or '
             'built-in name.')
    rep.rule('bound', 'No feasible path uses a local name before it is '
             'bound.')
    rep.rule('attribute', 'Attributes of instances of package classes and '
             'names of package modules exist.')
    rep.rule('call', 'Calls of package functions, methods and classes fit '
             'the signature.')
    rep.rule('library', 'Names taken from installed libraries exist there.')
    prog = Program(['parameters', 'monitor', 'io'])
    dom = Domain(prog)
    pkg = pymodel.Package()
    dom.attr = class_consts(pkg)
    c = Check(rep, pkg, dom)
    c.run()
    external(rep, c.ext, list(pkg.mods.values()))
    rep.analysed.update(modules=len(pkg.mods), functions=c.nfun,
                        library_names=len(c.ext))
    rep.need('defined', 100)
    rep.need('bound', 100)
    rep.need('attribute', 100)
    rep.need('call', 60)
