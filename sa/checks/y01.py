"""Y01: transforms, convolutions and array utilities leave inputs alone."""
import ast
import os
import re

from .. import alias, pymodel
from ..cxx import PKG, Program

EXPLANATION = (
    'Every public function and method of the transform, window-convolution, '
    'extrapolation, resampling and task-splitting modules is interpreted '
    'with a points-to analysis in which each argument is an object of its '
    'own, views share the array they look into, and package calls are '
    'followed in context (constructor first, then the method). Every '
    'in-place update, item store, mutating call, out= argument and pointer '
    'the backend writes through is an obligation: the object it changes may '
    'not be reachable from an argument. Arrays a transform keeps as its own '
    'state may not change after construction.')

MODS = ['transforms.py', 'winconv.py', '_arrayops.py', '_fftlog.pyx',
        '_mpitools.py']


class Written:
    """Which pointer/reference parameters of a C++ method are written."""

    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def __call__(self, meth, i):
        fs = [(f, tu) for f, tu in self.prog.funcs.values()
              if f.name == meth and f.body is not None
              and len(f.params) > i]
        return any(self.param(f, tu, i) for f, tu in fs)

    def param(self, f, tu, i):
        k = (f.key, i)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        p = f.params[i]
        t = p.type or ''
        if not ('*' in t or '&' in t) or (t.startswith('const ') and
                                          t.count('*') + t.count('&') == 1):
            return False
        name = p.name
        r = False
        for n in f.body.walk():
            if n.kind != 'DeclRefExpr' or \
                    (n.ref or {}).get('name') != name:
                continue
            if self.site(n, tu):
                r = True
                break
        self.memo[k] = r
        return r

    def site(self, n, tu):
        """Does this mention of the parameter write through it?"""
        x = n
        deref = False
        while x.parent is not None:
            q = x.parent
            if q.kind in ('ImplicitCastExpr', 'ParenExpr',
                          'MaterializeTemporaryExpr', 'ExprWithCleanups'):
                if q.kind == 'ImplicitCastExpr' and getattr(
                        q, 'cast', None) == 'LValueToRValue' and deref:
                    return False
                x = q
                continue
            if q.kind == 'ArraySubscriptExpr' and q.kids[0] is x:
                deref = True
            elif q.kind == 'UnaryOperator' and q.op == '*':
                deref = True
            elif q.kind == 'MemberExpr':
                pass
            elif q.kind == 'CXXOperatorCallExpr' and len(q.kids) > 1 and \
                    q.kids[1] is x:
                k0 = q.kids[0].strip()
                op = (k0.ref or {}).get('name') or k0.name or ''
                if op in ('operator=', 'operator*=', 'operator+=',
                          'operator-=', 'operator/='):
                    return True
                if op == 'operator[]':
                    deref = True
                else:
                    return False
            elif q.kind in ('BinaryOperator', 'CompoundAssignOperator'):
                if q.kind == 'CompoundAssignOperator' or q.op == '=':
                    return q.kids[0] is x and deref
                if q.op in ('+', '-'):
                    pass
                else:
                    return False
            elif q.kind == 'UnaryOperator' and q.op in ('++', '--'):
                return deref
            elif q.kind == 'CXXMemberCallExpr' and q.kids[0] is x:
                return (x.name or '') in ('resize', 'push_back', 'clear', 'assign',
                              'insert', 'erase', 'emplace_back', 'swap')
            elif q.kind in ('CallExpr', 'CXXMemberCallExpr'):
                return self.passed(q, x, tu)
            else:
                return False
            x = q
        return False

    def passed(self, call, x, tu):
        args = call.kids[1:]
        if x not in args:
            return False
        i = args.index(x)
        decl, _ = tu.callee(call)
        if decl is None:
            return False
        d = self.prog.definition(decl)
        if d is None:
            if i < len(decl.params):
                t = decl.params[i].type or ''
                return '*' in t and not t.startswith('const ')
            return False
        return self.param(d[0], d[1], i)


DOCBLOCK = re.compile(r'/\*\*(.*?)\*/\s*([^;{}/]*?)(\w+)\s*\(', re.S)


def documented_inputs(path):
    """(function name, parameter name) pairs tagged @param[in]."""
    out = set()
    with open(path, encoding='utf-8') as f:
        text = f.read()
    for doc, _, name in DOCBLOCK.findall(text):
        for p in re.findall(r'@param\[in\]\s+(\w+)', doc):
            out.add((name, p))
    return out


def backend(rep, prog, written):
    rep.rule('backend', 'no backend transform or array operation writes '
             'through a parameter documented as input')
    ins = set()
    for h in ('arrayops.hpp', 'fftlog.hpp', 'maths.hpp'):
        p = os.path.join(PKG, 'include', h)
        if os.path.exists(p):
            ins |= documented_inputs(p)
    for f, tu in prog.funcs.values():
        for i, p in enumerate(f.params):
            if (f.name, p.name) not in ins:
                continue
            t = p.type or ''
            if '&' not in t and '*' not in t:
                continue
            rep.check(not written.param(f, tu, i), 'backend',
                      f'{f.qual}({p.name})', f.loc(),
                      f"parameter '{p.name}' documented as input "
                      + ('is written' if written.param(f, tu, i)
                         else 'is only read'))


def qual(mod, node):
    """Qualified name of the innermost function around a node."""
    best = '?'

    def visit(body, pre):
        nonlocal best
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                q = f'{pre}.{s.name}' if pre else s.name
                if any(x is node for x in ast.walk(s)):
                    best = q
                    visit(s.body, q)
            elif hasattr(s, 'body') and isinstance(s.body, list):
                visit(s.body, pre)
    visit(mod.tree.body, '')
    return best


def public(name):
    return not name.startswith('_') or name in ('__call__', '__getitem__')


def doc_inplace(f):
    d = (ast.get_docstring(f) or '') if f is not None else ''
    return 'in-place' in d or 'in place' in d or 'inplace' in d


class Entry:
    def __init__(self, pkg, written):
        self.pkg, self.written, self.cache = pkg, written, {}

    def params(self, an, f, skip, label, extra_doc=None):
        docs = alias.full_doc_types(f)
        docs.update({k: v for k, v in (extra_doc or {}).items()
                     if k not in docs})
        a = f.args
        pos, kw = [], {}
        for p in (a.posonlyargs + a.args)[skip:]:
            pos.append(frozenset([an.obj(
                ('p', label, p.arg), 'param', root=(label, p.arg),
                doc=docs.get(p.arg, ''))]))
        for p in a.kwonlyargs:
            kw[p.arg] = frozenset([an.obj(
                ('p', label, p.arg), 'param', root=(label, p.arg),
                doc=docs.get(p.arg, ''))])
        if a.vararg:
            pos.append(frozenset([an.obj(
                ('p', label, a.vararg.arg), 'param',
                root=(label, a.vararg.arg),
                doc=docs.get(a.vararg.arg, ''))]))
        return pos, kw

    def run_entry(self, dmod, cls, dcls, f):
        an = alias.Alias(self.pkg, self.written)
        an.mod, an.cls = dmod, dcls
        st = alias.St()
        deco = [ast.unparse(d) for d in f.decorator_list]
        me = None
        ctor = f.name in ('__init__', '__cinit__')
        if cls is None:
            pos, kw = self.params(an, f, 0, f.name)
        else:
            cdoc = alias.full_doc_types(cls.node)
            if 'classmethod' in deco:
                me = an.obj(('cls', id(cls)), 'class', cls=cls)
            elif 'staticmethod' not in deco:
                me = an.obj(('self', id(cls)), 'inst', cls=cls)
                if not ctor:
                    for nm in ('__cinit__', '__init__'):
                        m = self.pkg.method(cls, nm)
                        if m:
                            p, k = self.params(an, m[1], 1, 'constructor', cdoc)
                            an.call_fn(st, m[1], m[0].mod, [frozenset([me])] + p,
                                       k, cls.node, m[0])
                    k0 = len(an.events)
            pos, kw = self.params(an, f, 0 if me is None else 1, f.name,
                                  cdoc if ctor else None)
            if me is not None:
                pos = [frozenset([me])] + pos
        own = self.reach(st, me) if me is not None and me.kind == 'inst' \
            else set()
        an.call_fn(st, f, dmod, pos, kw, f, dcls)
        return an, own

    def reach(self, st, me):
        """Arrays the object holds after construction."""
        seen, todo = set(), [me]
        while todo:
            o = todo.pop()
            for (b, k), v in st.heap.items():
                if b is o:
                    for x in v:
                        if x not in seen:
                            seen.add(x)
                            todo.append(x)
        return seen


def check(rep, tier):
    pkg = pymodel.Package()
    prog = Program(['fftlog', 'arrayops', 'maths'])
    written = Written(prog)
    rep.rule('argument', 'an in-place change reaches only objects the call '
             'itself created (or self, where documented)')
    rep.rule('state', 'a transform or convolution never changes arrays it '
             'holds from construction')
    ent = Entry(pkg, written)
    entries = 0
    reported = set()
    for fn in MODS:
        mod = pkg.mods.get(fn)
        if mod is None:
            continue
        todo = [(None, f) for n, f in mod.funcs.items()
                if public(n) or fn == '_arrayops.py' or fn == '_mpitools.py']
        for c in mod.classes.values():
            ms = dict(c.methods)
            for b in pkg.bases(c)[0][1:]:
                for k, v in b.methods.items():
                    ms.setdefault(k, v)
            for nm, f in ms.items():
                if public(nm) or nm in ('__init__', '__cinit__'):
                    todo.append((c, f))
        for c, f in todo:
            m = pkg.method(c, f.name) if c is not None else None
            dmod = m[0].mod if m else mod
            dcls = m[0] if m else None
            label = f'{fn}::{c.name + "." if c else ""}{f.name}'
            entries += 1
            try:
                an, own = ent.run_entry(dmod, c, dcls, f)
            except RecursionError:
                rep.undecided('argument', label, fn, 'analysis depth')
                continue
            bad = []
            for o, node, emod, how, path in an.events:
                if o.kind in ('param', 'elem'):
                    bad.append((o, node, emod, how, path, 'argument'))
                elif o.kind == 'glob':
                    bad.append((o, node, emod, how, path, 'argument'))
                elif o in own and o.kind in ('arr', 'fresh') \
                        and not doc_inplace(f) and f.name not in (
                        '__init__', '__cinit__', '__setstate__'):
                    bad.append((o, node, emod, how, path, 'state'))
            for o, node, emod, how, path, rule in bad:
                where = f'{emod.file}:{getattr(node, "lineno", "?")}'
                cons = f'{emod.file}::{qual(emod, node)}'
                what = ('argument ' + (f"'{o.root[1]}' of {o.root[0]}"
                                       if isinstance(o.root, tuple)
                                       else f"global '{o.root}'")
                        if rule == 'argument' else 'array held by the object')
                key = (rule, cons, where, what.split(' of ')[0])
                if key in reported:
                    continue
                reported.add(key)
                rep.bad(rule, cons, where,
                        f'{what}: {how} via {label} -> '
                        f'{" -> ".join(path)}')
            if not bad:
                rep.ok('argument', label, fn,
                       f'{len(an.events)} in-place changes, '
                       f'{an.calls} calls followed')
    rep.analysed['entries'] = entries
    backend(rep, prog, written)
    rep.need('argument', 40)
