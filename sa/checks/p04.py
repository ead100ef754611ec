"""P04: accepted option values are handled wherever the option is used."""
import ast
import itertools
import os
import re

from .. import cxx, options, pyflow, pymodel
from ..callgraph import CallGraph, guards, leaves
from . import y02

EXPLANATION = (
    'ParameterSet::validate is interpreted for every value that any code '
    'compares an option with (and for a value nobody knows) to obtain the '
    'values, and combinations of values, it accepts and what it turns them '
    'into.  Every comparison of an option with a text in the back end, the '
    'command-line program and the Python layer must be with a value that '
    'can occur, and every chain of decisions on one option must have an arm '
    'for each value that can reach it, given the enclosing decisions and '
    'the decisions on the call path from the program entry.')

ALIAS = {('Binning', 'scheme'): 'binning', ('Binning', 'space'): 'space'}
MEMBERS = set(options.OPTIONS) | {'npoint', 'space', 'shape'}
CORE = ('catalogue_type', 'statistic_type', 'norm_convention')
# documented "do nothing" values
IDLE = {('npoint', 'none'), ('catalogue_type', 'none'),
        ('binning', 'custom')}
JUNK = 'no_such_value'


class Values:
    """What validation accepts and what it turns the values into."""

    def __init__(self, prog, extra):
        self.prog = prog
        self.cand = {o: list(dict.fromkeys([*v, *sorted(extra.get(o, ()))]))
                     for o, v in options.OPTIONS.items()}
        self.out = {}        # option -> {given: values after validation}
        for o, vs in self.cand.items():
            self.out[o] = {}
            for v in [*vs, JUNK]:
                r = options.run(prog, {o: v})
                if r is None:
                    continue
                res = {r[o]}
                if not isinstance(r[o], str) and o not in CORE:
                    # depends on another option
                    res = set()
                    for s in ('powspec', '2pcf', 'bispec', '3pcf'):
                        r = options.run(prog, {
                            o: v, 'statistic_type': s,
                            'catalogue_type': 'survey'})
                        if r is not None:
                            res.add(r[o])
                self.out[o][v] = {x for x in res if isinstance(x, str)
                                  } or {v}
        self.rows = []
        for combo in itertools.product(*[
                [v for v in self.out[o] if v != JUNK] for o in CORE]):
            g = dict(zip(CORE, combo))
            r = options.run(prog, g)
            if r is None:
                continue
            for k in ('npoint', 'space'):
                if isinstance(r[k], str):
                    g[k] = r[k]
            self.rows.append(g)
        self.shapes = []
        for f in self.out['form']:
            for e in ((1, 1), (1, 2)):
                r = options.run(prog, {'form': f, 'ell1': e[0],
                                       'ell2': e[1]})
                if r is None:
                    continue
                s = {'form': f}
                if isinstance(r.get('shape'), str):
                    s['shape'] = r['shape']
                if s not in self.shapes:
                    self.shapes.append(s)
        self.can = {o: set().union(*v.values())
                    for o, v in self.out.items()}
        for k in ('npoint', 'space'):
            self.can[k] = {r[k] for r in self.rows if k in r}
        self.can['shape'] = {s['shape'] for s in self.shapes
                             if 'shape' in s}
        self.context = [dict(r, **s) for r in self.rows
                        for s in self.shapes]


def locals_of(f):
    """id -> initialiser of locals assigned once, at their declaration."""
    init, bad = {}, set()
    for n in f.body.walk():
        if n.kind == 'VarDecl' and n.kids:
            init[n.id] = n.kids[-1]
        if n.kind in ('BinaryOperator', 'CompoundAssignOperator') and \
                (n.op or '').endswith('=') and n.op not in (
                    '==', '!=', '<=', '>='):
            t = n.kids[0].strip()
            if t.kind == 'DeclRefExpr':
                bad.add((t.ref or {}).get('id'))
        if n.kind == 'CXXOperatorCallExpr' and len(n.kids) > 1:
            o = n.kids[0].strip()
            if (o.ref or {}).get('name') == 'operator=':
                t = n.kids[1].strip()
                if t.kind == 'DeclRefExpr':
                    bad.add((t.ref or {}).get('id'))
    return {k: v for k, v in init.items() if k not in bad}


def option(n, init, depth=0):
    """The option an expression denotes, or None."""
    n = n.strip()
    if n.kind == 'MemberExpr' and n.name:
        base = n.kids[0].strip() if n.kids else None
        cls = ''
        if base is not None:
            cls = (base.desugared or base.type or '').replace(
                'const ', '').strip(' *&').split('::')[-1]
        if (cls, n.name) in ALIAS:
            return ALIAS[cls, n.name]
        if cls == 'ParameterSet' and n.name in MEMBERS:
            return n.name
        return None
    if n.kind == 'CXXMemberCallExpr' and n.kids:
        m = n.kids[0].strip()
        if m.kind == 'MemberExpr' and m.name in ('c_str', 'data', 'str'):
            return option(m.kids[0], init, depth)
    if n.kind == 'DeclRefExpr' and depth < 4:
        i = (n.ref or {}).get('id')
        if i in init:
            return option(init[i], init, depth + 1)
    if n.kind == 'CXXConstructExpr' and len(n.kids) == 1 and depth < 6:
        return option(n.kids[0], init, depth + 1)
    return None


def comparison(n, init):
    """(option, text, equal?) of a comparison node, or None."""
    n = n.strip()
    if n.kind == 'CXXOperatorCallExpr' and len(n.kids) == 3:
        o = (n.kids[0].strip().ref or {}).get('name')
        if o in ('operator==', 'operator!='):
            for a, b in ((1, 2), (2, 1)):
                x, t = option(n.kids[a], init), n.kids[b].string_value()
                if x and t is not None:
                    return x, t, o == 'operator=='
    if n.kind == 'CXXRewrittenBinaryOperator' and n.kids:
        return comparison(n.kids[0], init)
    if n.kind == 'BinaryOperator' and n.op in ('==', '!='):
        for a, b in ((0, 1), (1, 0)):
            if n.kids[b].const_value() == 0:
                c = n.kids[a].strip()
                if c.kind == 'CXXMemberCallExpr' and len(c.kids) == 2:
                    m = c.kids[0].strip()
                    x = option(m.kids[0], init) if m.kids else None
                    t = c.kids[1].string_value()
                    if m.name == 'compare' and x and t is not None:
                        return x, t, n.op == '=='
                if c.kind == 'CallExpr' and len(c.kids) == 3 and (
                        c.kids[0].strip().ref or {}).get(
                        'name') == 'strcmp':
                    for p, q in ((1, 2), (2, 1)):
                        x = option(c.kids[p], init)
                        t = c.kids[q].string_value()
                        if x and t is not None:
                            return x, t, n.op == '=='
    return None


def holds(n, env, init, depth=0):
    """True, False or None (unknown) for a condition under option values."""
    n = n.strip()
    c = comparison(n, init)
    if c:
        if c[0] not in env:
            return None
        return (env[c[0]] == c[1]) == c[2]
    if n.kind == 'UnaryOperator' and n.op == '!':
        r = holds(n.kids[0], env, init, depth)
        return None if r is None else not r
    if n.kind == 'BinaryOperator' and n.op in ('&&', '||'):
        a = holds(n.kids[0], env, init, depth)
        b = holds(n.kids[1], env, init, depth)
        stop = n.op == '||'
        if a is stop or b is stop:
            return stop
        return None if a is None or b is None else not stop
    if n.kind == 'DeclRefExpr' and depth < 4:
        i = (n.ref or {}).get('id')
        if i in init:
            return holds(init[i], env, init, depth + 1)
    v = n.const_value()
    return v if isinstance(v, bool) else None


def literals(n, init, depth=0):
    """{option: texts} compared in a condition."""
    out = {}
    for x in n.walk():
        c = comparison(x, init)
        if c:
            out.setdefault(c[0], set()).add(c[1])
        elif x.kind == 'DeclRefExpr' and depth < 3:
            i = (x.ref or {}).get('id')
            if i in init and 'bool' in (x.desugared or x.type or ''):
                for k, v in literals(init[i], init, depth + 1).items():
                    out.setdefault(k, set()).update(v)
    return out


def chain(n):
    """[condition…], has final else — of an if / else-if chain."""
    out = []
    while n is not None and n.kind == 'IfStmt':
        ks = n.kids
        out.append(ks[0])
        if len(ks) < 3:
            return out, False
        n = ks[2]
        if n.kind == 'CompoundStmt' and len(n.kids) == 1 and \
                n.kids[0].kind == 'IfStmt':
            n = n.kids[0]
    return out, not rejects(n)


def rejects(n):
    """Does the statement always raise an error?"""
    for x in n.kids if n.kind == 'CompoundStmt' else [n]:
        x = x.strip()
        if x.kind == 'CXXThrowExpr':
            return True
        if x.kind == 'CallExpr' and x.kids and (
                x.kids[0].strip().ref or {}).get('name') == 'exit_fatal':
            return True
    return False


def groups(f, init):
    """(option, arms, has else, node) for each dispatch on an option."""
    for b in f.body.walk():
        if b.kind != 'CompoundStmt':
            continue
        if len(b.kids) == 1 and b.kids[0].kind == 'IfStmt' and \
                b.parent is not None and b.parent.kind == 'IfStmt' and \
                len(b.parent.kids) > 2 and b.parent.kids[2] is b:
            continue          # part of the chain above
        run = {}
        done = []
        for s in b.kids:
            if s.kind != 'IfStmt':
                continue
            conds, els = chain(s)
            per = {}
            for c in conds:
                for o, ts in literals(c, init).items():
                    per.setdefault(o, set()).update(ts)
            for o, ts in per.items():
                g = run.get(o)
                if g is not None and (g['t'] & ts or g['else']):
                    done.append(g)
                    g = None
                if g is None:
                    g = run[o] = {'o': o, 't': set(), 'arms': [],
                                  'else': False, 'n': s, 'ret': True}
                g['t'] |= ts
                g['arms'] += conds
                g['else'] |= els
                g['ret'] &= leaves(s.kids[1])
                g['last'] = s
        for g in done + list(run.values()):
            rest = b.kids[b.kids.index(g['last']) + 1:]
            if g['ret'] and rest and not any(rejects(x) for x in rest):
                g['else'] = True      # "return" arms, then the default
            na = sum(1 for c in g['arms'] if g['o'] in literals(c, init))
            if na >= 2 and len(g['t']) >= 2:
                yield g['o'], g['arms'], g['else'], g['n'], g['t']


class Cxx:
    def __init__(self, prog):
        self.prog = prog
        self.g = CallGraph(prog)
        self.init = {k: locals_of(f) for k, (f, tu) in prog.funcs.items()}

    def compared(self):
        """(function key, node, option, text)"""
        for k, (f, tu) in self.prog.funcs.items():
            for n in f.body.walk():
                c = comparison(n, self.init[k])
                if c:
                    yield k, n, c[0], c[1]

    def contexts(self, rows):
        """Feasible option combinations per function, from main."""
        ctx = {}
        work = [k for k, (f, tu) in self.prog.funcs.items()
                if f.qual == 'main']
        for k in work:
            ctx[k] = frozenset(range(len(rows)))
        while work:
            k = work.pop()
            f, tu = self.prog.funcs[k]
            init = self.init[k]
            for n, decl, name in self.g.edges.get(k, ()):
                d = self.prog.definition(decl)
                if d is None:
                    continue
                gs = guards(n, f.node)
                ok = ctx[k]
                for c, neg in gs:
                    if literals(c, init):
                        ok = frozenset(
                            i for i in ok
                            if holds(c, rows[i], init) is not neg)
                key = d[0].key
                new = ctx.get(key, frozenset()) | ok
                if key not in ctx or new != ctx[key]:
                    ctx[key] = new
                    work.append(key)
        return ctx


def uses(f):
    """Does validation itself set the options (so it is not a consumer)?"""
    return f.qual.endswith('ParameterSet::validate')


def backend(rep, prog):
    c = Cxx(prog)
    extra, sites = {}, []
    for k, n, o, t in c.compared():
        extra.setdefault(o, set()).add(t)
        sites.append((k, n, o, t))
    return c, extra, sites


def judge(rep, c, vals, sites):
    prog = c.prog
    seen = {}
    for k, n, o, t in sites:
        f = prog.funcs[k][0]
        if uses(f) or o not in vals.can:
            continue
        key = (f.qual, o, t)
        if key in seen:
            continue
        seen[key] = 1
        free = JUNK in vals.can.get(o, ())
        rep.check(free or t in vals.can[o], 'possible',
                  f"{f.qual}: {o} == '{t}'", n.loc(),
                  'validation never lets this value through; it lets '
                  f'through {sorted(vals.can[o])}')
    ctx = c.contexts(vals.context)
    cnt = {}
    for k, (f, tu) in prog.funcs.items():
        if uses(f):
            continue
        init = c.init[k]
        # functions not reached from main are called from the bindings
        rows = [vals.context[i] for i in ctx[k]] if k in ctx else \
            vals.context
        for o, arms, els, node, texts in groups(f, init):
            if o not in vals.can:
                continue
            i = cnt[f.qual, o] = cnt.get((f.qual, o), 0) + 1
            con = f'{f.qual}: decision on {o} #{i}'
            if els:
                rep.ok('handled', con, node.loc(), 'has a final else')
                continue
            gs = [(x, neg) for x, neg in guards(node, f.node)]
            missing = set()
            for v in sorted(vals.can[o] - {JUNK}):
                if (o, v) in IDLE:
                    continue
                if o in rows[0] if rows else False:
                    envs = [r for r in rows if r.get(o) == v]
                else:
                    envs = [dict(r, **{o: v}) for r in rows]
                for e in envs:
                    if o == 'statistic_type' and e.get('npoint') == 'none':
                        continue       # nothing is measured
                    if any(holds(x, e, init) is neg for x, neg in gs):
                        continue
                    if all(holds(a, e, init) is False for a in arms):
                        missing.add(v)
                        break
            rep.check(not missing, 'handled', con, node.loc(),
                      f'no arm for the accepted value(s) '
                      f'{sorted(missing)}')


# -- Python ------------------------------------------------------------------
PYOPT = ('alignment', 'padscale', 'norm_convention', 'form', 'space',
         'assignment', 'binning', 'scheme')


NAMES = {}


def pynames(fn):
    """Locals that only ever hold the value of one option."""
    NAMES.clear()
    seen = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.NamedExpr):
            seen.setdefault(x.target.id, []).append(x.value)
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                isinstance(x.targets[0], ast.Name):
            seen.setdefault(x.targets[0].id, []).append(x.value)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            seen.setdefault(x.id, [])
    out = {}
    for k, vs in seen.items():
        if len(vs) == 1:
            o = pyoption(vs[0])
            if o:
                out[k] = o
    NAMES.update(out)


def pyoption(n):
    """Option of `paramset['x']`, `.get('x')`; None otherwise."""
    if isinstance(n, ast.Name):
        return NAMES.get(n.id)
    if isinstance(n, ast.NamedExpr):
        n = n.value
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            n.func.attr in ('lower', 'strip'):
        return pyoption(n.func.value)
    key = base = None
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant):
        key, base = n.slice.value, n.value
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            n.func.attr == 'get' and n.args and isinstance(
                n.args[0], ast.Constant):
        key, base = n.args[0].value, n.func.value
    if key in MEMBERS and re.match(
            r'^(self\.)?_?params?(et)?(set)?\w*$', ast.unparse(base)):
        return key
    return None


def pycompare(t):
    """[(option, text)] of the comparisons in a test."""
    for x in ast.walk(t):
        if not isinstance(x, ast.Compare) or len(x.ops) != 1:
            continue
        a, b = x.left, x.comparators[0]
        if isinstance(x.ops[0], (ast.Eq, ast.NotEq)):
            for p, q in ((a, b), (b, a)):
                o = pyoption(p)
                if o and isinstance(q, ast.Constant) and isinstance(
                        q.value, str):
                    yield o, q.value, x
        elif isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(
                b, (ast.Tuple, ast.List, ast.Set)):
            o = pyoption(a)
            if o:
                for e in b.elts:
                    if isinstance(e, ast.Constant) and isinstance(
                            e.value, str):
                        yield o, e.value, x


def pychain(s):
    out = []
    while True:
        out.append(s.test)
        if not s.orelse:
            return out, False
        if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
            s = s.orelse[0]
            continue
        return out, not any(isinstance(x, ast.Raise) for x in s.orelse)


class Flow(y02.Flow):
    """Reports, for each dispatch on an option, values without an arm."""
    sink = None
    vals = None

    def block(self, body, ds):
        for g in self.groups(body):
            g['n']._p04 = g
        return super().block(body, ds)

    def groups(self, body):
        run, done, part = {}, [], getattr(self, '_part', set())
        self._part = part
        for s in body:
            if not isinstance(s, ast.If) or id(s) in part:
                continue
            conds, els = pychain(s)
            x = s
            while len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If):
                x = x.orelse[0]
                part.add(id(x))
            per = {}
            for c in conds:
                for o, t, _ in pycompare(c):
                    per.setdefault(o, set()).add(t)
            for o, ts in per.items():
                g = run.get(o)
                if g is not None and (g['t'] & ts or g['else']):
                    done.append(g)
                    g = None
                if g is None:
                    g = run[o] = {'o': o, 't': set(), 'arms': [],
                                  'else': False, 'n': s}
                g['t'] |= ts
                g['arms'] += conds
                g['else'] |= els
        return [g for g in done + list(run.values())
                if len(g['arms']) > 1 and len(g['t']) > 1]

    def s_If(self, s, ds):
        g = getattr(s, '_p04', None)
        if g is not None and g['o'] in PYOPT:
            self.dispatch(g, ds)
        return super().s_If(s, ds)

    def dispatch(self, g, ds):
        o = g['o']
        keys = {self.key(x.left) for a in g['arms'] for oo, _, x in
                pycompare(a) if oo == o}
        if len(keys) != 1:
            return
        key = keys.pop()
        if not y02.PARAM.match(key):
            return
        missing = set()
        if not g['else']:
            for v in sorted(self.vals.can.get(o, set()) - {JUNK}):
                if (o, v) in IDLE:
                    continue
                d0 = [d for d in self.put(ds, key, (
                    'in', frozenset({v}))) if self.feasible(d)]
                for a in g['arms']:
                    d0 = [d for d in self.assume(a, d0, False)
                          if self.feasible(d)]
                if d0:
                    # left over only where no arm could have been taken
                    if not any(self.assume(a, [d], True)
                               for d in d0 for a in g['arms']):
                        missing.add(v)
        self.sink(g, missing)


class Stub:
    """Takes what Y02 reports and keeps the findings on options."""

    def __init__(self):
        self.bound = []

    def ok(self, *a):
        pass

    undecided = ok

    def bad(self, rule, con, where, detail):
        if rule == 'bound':
            self.bound.append((con, where, detail))

    def check(self, cond, rule, con, where='', detail='', ok=''):
        pass


class PyCheck(y02.Check):
    def refs(self, *a):
        pass


def python(rep, prog, vals):
    pkg = pymodel.Package()
    dom = y02.Domain(prog)
    dom.attr = y02.class_consts(pkg)
    stub = Stub()
    ck = PyCheck(stub, pkg, dom)
    found = {}

    cur = {}

    class F(Flow):
        def sink(self, g, missing):
            found.setdefault((cur['m'], g['n'].lineno), [g, set(), 0])
            e = found[cur['m'], g['n'].lineno]
            e[1] |= missing
    F.vals = vals
    old = y02.Flow
    y02.Flow = F
    try:
        orig = ck.scope

        def scope(m, *a):
            cur['m'] = m
            return orig(m, *a)
        ck.scope = scope
        for m in pkg.mods.values():
            cur['m'] = m
            ck.module(m)
    finally:
        y02.Flow = old
    cnt = {}
    for (m, ln), (g, missing, _) in found.items():
        i = cnt[m.name, g['o']] = cnt.get((m.name, g['o']), 0) + 1
        rep.check(not missing, 'handled',
                  f"{m.name}: decision on {g['o']} #{i}",
                  f'src/triumvirate/{m.file}:{ln}',
                  f'no arm for the accepted value(s) {sorted(missing)}')
    NAMES.clear()
    for con, where, detail in stub.bound:
        if re.search(r"\['(%s)'\] is" % '|'.join(MEMBERS), detail):
            rep.bad('result', con, where, detail)
    rep.ok('result', 'Python and binding functions', '',
           f'{ck.nfun} functions analysed')
    back = fetched(pkg)
    nseen = set()
    for m in pkg.mods.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            pynames(fn)
            for o, t, x in pycompare(fn):
                if (m.name, fn.name, o, t) in nseen or o not in vals.can:
                    continue
                nseen.add((m.name, fn.name, o, t))
                if back and m.name != 'parameters':
                    rep.check(o in back, 'normalised', o,
                              'src/triumvirate/parameters.pyx',
                              'Python compares this option but never takes '
                              'over its value after validation')
                ok = JUNK in vals.can[o] or t in vals.can[o] or (
                    o == 'catalogue_type' or t == '')
                rep.check(ok, 'possible', f"{m.name}.{fn.name}: {o} == "
                          f"'{t}'", f'src/triumvirate/{m.file}:{x.lineno}',
                          'validation never lets this value through; it '
                          f'lets through {sorted(vals.can[o])}')
    return len(pkg.mods)


def fetched(pkg):
    """Options whose validated value Python reads back."""
    out = set()
    for m in pkg.mods.values():
        c = m.classes.get('ParameterSet')
        if c is None:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(
                    x.ctx, ast.Load) and isinstance(
                    x.value, ast.Attribute) and x.value.attr == 'thisptr':
                out.add(x.attr)
            if isinstance(x, ast.Call) and ast.unparse(x.func).startswith(
                    ('setattr', 'getattr')):
                return set()       # by computed names: not judged
    return out


class Doc(set):
    only = ()


def documented(fname):
    """{parameter: quoted values in braces in the comment above it}"""
    p = os.path.join(cxx.PKG, 'resources', fname)
    out, com = {}, []
    with open(p, encoding='utf-8') as f:
        for ln in f:
            ln = ln.rstrip('\n')
            if ln.startswith('#'):
                com.append(ln.lstrip('# '))
                continue
            m = re.match(r'^(\w+)\s*[:=]', ln)
            if m and com:
                b = re.search(r'\{(.*?)\}', ' '.join(com))
                if b:
                    d = out[m.group(1)] = Doc(re.findall(
                        r"'([\w-]+)'", b.group(1)))
                    d.only = re.findall(
                        r"'([\w-]+)' \(two-point statistics only\)",
                        b.group(1))
            com = []
    return out


def check(rep, tier):
    rep.rule('rejected', 'A value that no code recognises is rejected by '
             'validation.')
    rep.rule('documented', 'Every documented value of an option is '
             'accepted.')
    rep.rule('possible', 'An option is only compared with values that '
             'validation lets through (after its conversions).')
    rep.rule('handled', 'A chain of decisions on one option has an arm for '
             'every accepted value that can reach it.')
    rep.rule('normalised', 'Options that Python code compares are read '
             'back from the backend after validation.')
    rep.rule('result', 'No accepted option value leaves a Python variable '
             'unbound that is used later.')
    prog = cxx.Program()
    c, extra, sites = backend(rep, prog)
    vals = Values(prog, extra)
    for o in options.OPTIONS:
        if o == 'catalogue_type':
            # rejected by the decision on the statistic or by the callers
            continue
        rep.check(JUNK not in vals.out[o], 'rejected', o,
                  'src/triumvirate/src/parameters.cpp',
                  'validation accepts a value that no code recognises')
    for fname in ('params_template.yml', 'params_template.ini'):
        for o, vs in documented(fname).items():
            if o not in vals.out:
                continue
            miss = {v for v in vs if v not in vals.out[o]}
            if miss:
                miss = {v for v in miss
                        if options.run(prog, {o: v}) is None}
            rep.check(not miss, 'documented', f'{fname}: {o}',
                      f'src/triumvirate/resources/{fname}',
                      f'validation rejects {sorted(miss)}')
            for v in vs.only:
                two = options.run(prog, {
                    o: v, 'statistic_type': 'powspec',
                    'catalogue_type': 'survey'}) is not None
                three = options.run(prog, {
                    o: v, 'statistic_type': 'bispec',
                    'catalogue_type': 'survey'}) is not None
                rep.check(two and not three, 'documented',
                          f'{fname}: {o} {v} for two-point statistics '
                          'only', f'src/triumvirate/resources/{fname}',
                          'accepted for ' + ' and '.join(
                              n for n, x in (('two-point', two), (
                                  'three-point', three)) if x))
    judge(rep, c, vals, sites)
    mods = python(rep, prog, vals)
    rep.analysed.update(
        functions=len(prog.funcs), comparisons=len(sites),
        accepted={o: sorted(x for x in v if x) for o, v in
                  vals.can.items()},
        combinations=len(vals.context), python_modules=mods)
    rep.need('possible', 60)
    rep.need('handled', 30)
    rep.need('rejected', 6)
