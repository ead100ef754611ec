"""Modules, classes and signatures of the Python and Cython layers."""
import ast
import os
import re

from . import cy2py, pyx
from .cxx import PKG

PY = ['twopt.py', 'threept.py', 'winconv.py', 'transforms.py',
      '_arrayops.py', 'catalogue.py', 'fieldmesh.py', 'logger.py',
      '_mpitools.py', '__init__.py']
PYX = ['parameters.pyx', 'dataobjs.pyx', '_field.pyx', '_fftlog.pyx',
       '_particles.pyx', '_twopt.pyx', '_threept.pyx']


def files():
    out = []
    for f in sorted(os.listdir(PKG)):
        if f.endswith(('.py', '.pyx')) and f != '_valid_install.py':
            out.append(f)
    return out


class Class:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.methods, self.attrs, self.cattrs = {}, set(), set()
        self.bases, self.open = [], False
        self.consts = {}        # attribute -> constants stored, or None
        self.stores = {}        # attribute -> value expressions
        self.dataclass = any('dataclass' in ast.unparse(d)
                             for d in node.decorator_list)
        self.fields = []
        self.property = set()


class Module:
    def __init__(self, fname):
        self.file = fname
        self.name = fname.rsplit('.', 1)[0]
        self.tree = cy2py.module(fname)
        self.imports = {}       # local name -> (module, symbol or None)
        self.classes, self.funcs, self.names = {}, {}, set()
        self.soft = set()       # names imported with a fallback
        self.body(self.tree.body, False)
        if fname.endswith('.pyx'):
            self.pxd(self.name + '.pxd')
            for s in getattr(pyx.parse(fname).body, 'stats', []):
                if pyx.kind(s) == 'CDefExternNode':
                    self.pxd_walk(s)

    def body(self, body, soft):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = s
                self.names.add(s.name)
            elif isinstance(s, ast.ClassDef):
                self.names.add(s.name)
                self.classes[s.name] = self.cls(s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    n = a.asname or a.name.split('.')[0]
                    self.imports[n] = (a.name if a.asname else
                                       a.name.split('.')[0], None)
                    self.names.add(n)
                    if soft:
                        self.soft.add(n)
            elif isinstance(s, ast.ImportFrom):
                m = '.' * (s.level or 0) + (s.module or '')
                for a in s.names:
                    n = a.asname or a.name
                    self.imports[n] = (m, a.name)
                    self.names.add(n)
                    if soft:
                        self.soft.add(n)
            elif isinstance(s, ast.If):
                self.body(s.body, soft)
                self.body(s.orelse, soft)
            elif isinstance(s, ast.Try):
                self.body(s.body, True)
                for h in s.handlers:
                    self.body(h.body, True)
                self.body(s.orelse, soft)
                self.body(s.finalbody, soft)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                self.body(s.body, soft)
            for x in ast.walk(s) if isinstance(s, (
                    ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For,
                    ast.With, ast.If, ast.Try)) else []:
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.names.add(x.id)

    def cls(self, s):
        c = Class(s.name, s, self)
        c.bases = [ast.unparse(b) for b in s.bases]
        for x in s.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                old = c.methods.get(x.name)
                deco = [ast.unparse(d) for d in x.decorator_list]
                if any('property' in d for d in deco):
                    c.property.add(x.name)
                if old is not None and any(d.endswith(('.setter',
                                                       '.deleter'))
                                           for d in deco):
                    self.selfattrs(c, x)
                    continue
                c.methods[x.name] = x
                self.selfattrs(c, x)
                if x.name in ('__getattr__', '__getattribute__'):
                    c.open = True
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        c.attrs.add(t.id)
            elif isinstance(x, ast.AnnAssign) and isinstance(
                    x.target, ast.Name):
                t = getattr(x, 'ctype', None)
                if t is not None:
                    (c.attrs if getattr(x, 'public', False) else
                     c.cattrs).add(x.target.id)
                    c.attrs.add(x.target.id)
                else:
                    c.attrs.add(x.target.id)
                    c.fields.append((x.target.id, x.value))
            elif isinstance(x, ast.ClassDef):
                c.attrs.add(x.name)
        return c

    def selfattrs(self, c, f):
        deco = [ast.unparse(d) for d in f.decorator_list]
        if 'staticmethod' in deco or not f.args.args:
            return
        me = f.args.args[0].arg
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute) and isinstance(
                    x.value, ast.Name) and isinstance(x.ctx, ast.Store):
                if x.value.id == me or (x.value.id in ('self', 'instance')
                                        and 'classmethod' in deco):
                    c.attrs.add(x.attr)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                    x.func.id == 'setattr':
                c.open = True
            if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                for t in ts:
                    elts = t.elts if isinstance(t, (ast.Tuple, ast.List)) \
                        else [t]
                    for e in elts:
                        if isinstance(e, ast.Attribute) and isinstance(
                                e.value, ast.Name):
                            c.stores.setdefault(e.attr, []).append(
                                x.value if e is t and not isinstance(
                                    x, ast.AugAssign) else None)

    def pxd(self, fname):
        path = os.path.join(PKG, fname)
        if not os.path.exists(path):
            return
        self.pxd_walk(pyx.parse(fname).body)

    def pxd_walk(self, n):
        k = pyx.kind(n)
        if k == 'StatListNode':
            for s in n.stats:
                self.pxd_walk(s)
        elif k == 'CDefExternNode':
            self.pxd_walk(n.body)
        elif k == 'CppClassNode':
            self.names.add(str(n.name))
        elif k == 'CClassDefNode':
            c = self.classes.get(str(n.class_name))
            if c is not None:
                b = n.body
                for s in getattr(b, 'stats', [b] if b is not None else []):
                    if pyx.kind(s) == 'CVarDefNode':
                        pub = str(getattr(s, 'visibility', '')) in (
                            'public', 'readonly')
                        for d in s.declarators:
                            nm = str(pyx.decl_name(d)[0])
                            if not pub:
                                c.cattrs.add(nm)
                            c.attrs.add(nm)
        elif k in ('FromCImportStatNode',):
            for i in n.imported_names:
                self.names.add(str(i[2] or i[1]))
        elif k == 'CImportStatNode':
            self.names.add(str(n.as_name or n.module_name).split('.')[0])
        elif k == 'CVarDefNode':
            for d in n.declarators:
                nm = pyx.decl_name(d)[0]
                if nm:
                    self.names.add(str(nm))
        elif hasattr(n, 'name') and n.name:
            self.names.add(str(n.name))


class Package:
    def __init__(self):
        self.mods = {}
        for f in files():
            m = Module(f)
            self.mods[f] = m
        self.by_name = {m.name: m for m in self.mods.values()}

    def modname(self, m):
        """Package module a dotted import path denotes, or None."""
        m = m.lstrip('.')
        if m.startswith('triumvirate.'):
            m = m[len('triumvirate.'):]
        elif m == 'triumvirate':
            m = '__init__'
        return self.by_name.get(m)

    def lookup(self, mod, name, depth=0):
        """('func'|'class'|'module', Module, node/Class) of a global."""
        if depth > 5:
            return None
        if name in mod.classes:
            return 'class', mod, mod.classes[name]
        if name in mod.funcs:
            return 'func', mod, mod.funcs[name]
        if name in mod.imports:
            m, sym = mod.imports[name]
            if m.startswith('.') or m.startswith('triumvirate'):
                if sym is None:
                    t = self.modname(m)
                    return ('module', t, None) if t else None
                t = self.modname(m)
                if t is None and m.strip('.') == '':
                    t = self.by_name.get(sym)
                    return ('module', t, None) if t else None
                if t is not None:
                    r = self.lookup(t, sym, depth + 1)
                    if r is None and sym in self.by_name:
                        return 'module', self.by_name[sym], None
                    return r
        return None

    def bases(self, c):
        """All package base classes; open=True if some base is unknown."""
        out, seen = [], set()
        todo, unknown = [c], False
        while todo:
            x = todo.pop(0)
            if id(x) in seen:
                continue
            seen.add(id(x))
            out.append(x)
            for b in x.bases:
                if b in ('object',):
                    continue
                r = self.lookup(x.mod, b) if b.isidentifier() else None
                if r and r[0] == 'class':
                    todo.append(r[2])
                else:
                    unknown = True
        return out, unknown

    def attrs(self, c):
        """(attribute names, complete?)"""
        bs, unknown = self.bases(c)
        s = set()
        for b in bs:
            s |= b.attrs | set(b.methods)
            if b.open:
                unknown = True
        return s, not unknown

    def method(self, c, name):
        for b in self.bases(c)[0]:
            if name in b.methods:
                return b, b.methods[name]
        return None


DOC = re.compile(r'^\s*(\w+(?:\s*,\s*\w+)*)\s*:\s*(.*)$')
CLS = re.compile(r':class:`~?(?:triumvirate\.)?(?:\w+\.)*(\w+)`')


def doc_types(f):
    """Parameter name -> class name from numpydoc sections, where the
    documented type is exactly one package class."""
    d = ast.get_docstring(f, clean=True) if isinstance(
        f, (ast.FunctionDef, ast.AsyncFunctionDef)) else None
    out, sec = {}, None
    lines = (d or '').splitlines()
    for i, ln in enumerate(lines):
        if i + 1 < len(lines) and re.match(r'^-{3,}$', lines[i + 1].strip()):
            sec = ln.strip()
        if sec != 'Parameters' or ln.startswith(' '):
            continue
        m = DOC.match(ln)
        if not m:
            continue
        t = m.group(2)
        cs = CLS.findall(t)
        rest = CLS.sub('', t)
        rest = re.sub(r'\boptional\b|[,\s`]|default.*', '', rest)
        if len(cs) == 1 and not rest:
            for n in re.split(r'\s*,\s*', m.group(1)):
                out[n] = cs[0]
    return out
