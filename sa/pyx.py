"""Syntax trees of the Cython modules (.pyx/.pxd), parsed by Cython itself
(parse phase only; nothing is compiled or run)."""
import os

from .cxx import AnalysisBroken, PKG

_cache = {}


def parse(name):
    """Parse e.g. '_twopt.pyx' and return the module node."""
    if name in _cache:
        return _cache[name]
    from Cython.Compiler import Parsing
    from Cython.Compiler.Main import CompilationOptions, Context
    from Cython.Compiler.Options import default_options
    from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
    from Cython.Compiler.Symtab import ModuleScope
    from Cython.Compiler import Errors
    path = os.path.join(PKG, name)
    if not os.path.exists(path):
        raise AnalysisBroken(f'missing Cython source {name}')
    ctx = Context.from_options(CompilationOptions(
        default_options, language_level=3, cplus=True))
    Errors.init_thread()
    src = FileSourceDescriptor(path, name)
    scope = ModuleScope('m', None, ctx)
    pxd = name.endswith('.pxd')
    with open(path, encoding='utf-8') as f:
        s = PyrexScanner(f, src, source_encoding='utf-8', scope=scope,
                         context=ctx)
        try:
            tree = Parsing.p_module(s, pxd, 'm')
        except Exception as e:
            raise AnalysisBroken(f'Cython cannot parse {name}: {e!r}')
    _cache[name] = tree
    return tree


def modules():
    return sorted(f for f in os.listdir(PKG) if f.endswith(('.pyx', '.pxd')))


def kids(n):
    for a in (n.child_attrs or ()):
        v = getattr(n, a, None)
        if v is None:
            continue
        if isinstance(v, list):
            for x in v:
                if hasattr(x, 'child_attrs'):
                    yield x
        elif hasattr(v, 'child_attrs'):
            yield v


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(list(kids(x))))


def kind(n):
    return type(n).__name__


def line(n):
    return n.pos[1] if n.pos else 0


def decl_name(d):
    """(python name, C name) of a declarator."""
    while d is not None and kind(d) != 'CNameDeclaratorNode':
        d = getattr(d, 'base', None)
    if d is None:
        return None, None
    return str(d.name), (str(d.cname) if d.cname else str(d.name))


def func_declarator(d):
    while d is not None and kind(d) != 'CFuncDeclaratorNode':
        d = getattr(d, 'base', None)
    return d


class Extern:
    """A C++ function declared to Cython."""

    def __init__(self, module, cls, name, cname, fd, node):
        self.module, self.cls, self.name, self.cname = \
            module, cls, name, cname
        self.fd, self.node = fd, node
        self.line = line(node)

    @property
    def translated(self):
        c = self.fd.exception_check
        return c == '+' or (c is not None and str(c) == '+')

    @property
    def noexcept(self):
        return not self.translated


def externs(name):
    """All C++ functions/constructors/methods declared extern in module."""
    out = []

    def stats(body):
        if body is None:
            return []
        return body.stats if kind(body) == 'StatListNode' else [body]

    def visit(n, in_extern, cls):
        k = kind(n)
        if k == 'CDefExternNode':
            for s in stats(n.body):
                visit(s, True, None)
        elif k == 'CppClassNode' and in_extern:
            c = (str(n.name), str(n.cname) if n.cname else str(n.name))
            for s in (n.attributes or []):
                visit(s, True, c)
        elif k == 'CVarDefNode' and in_extern:
            for d in n.declarators:
                fd = func_declarator(d)
                if fd is not None:
                    py, cn = decl_name(fd)
                    out.append(Extern(name, cls, py, cn, fd, n))
        elif k == 'CFuncDefNode' and in_extern:
            fd = func_declarator(n.declarator)
            py, cn = decl_name(fd)
            out.append(Extern(name, cls, py, cn, fd, n))
        elif k in ('StatListNode', 'ModuleNode'):
            for s in kids(n):
                visit(s, in_extern, cls)
        elif k == 'CompilerDirectivesNode':
            visit(n.body, in_extern, cls)

    visit(parse(name), False, None)
    return out


class Fn:
    def __init__(self, node, name, cls):
        self.node, self.name, self.cls = node, name, cls
        self.line = line(node)

    @property
    def noexcept(self):
        if kind(self.node) != 'CFuncDefNode':
            return False
        fd = func_declarator(self.node.declarator)
        return fd is not None and not fd.exception_check and \
            fd.exception_value is None


def functions(name):
    """Every function defined in the module (def, cdef, methods)."""
    out = []

    def visit(n, cls):
        k = kind(n)
        if k == 'CDefExternNode':
            return
        if k in ('DefNode', 'CFuncDefNode'):
            if k == 'DefNode':
                nm = str(n.name)
            else:
                nm = decl_name(func_declarator(n.declarator))[0]
            out.append(Fn(n, f'{cls}.{nm}' if cls else nm, cls))
            for c in kids(n):
                visit(c, cls)
            return
        if k in ('CClassDefNode', 'PyClassDefNode'):
            cls = str(getattr(n, 'class_name', None) or n.name)
        for c in kids(n):
            visit(c, cls)
    visit(parse(name), None)
    return out


def called_names(n):
    """Names (functions, methods, constructors) called below n."""
    out = set()
    for x in walk(n):
        k = kind(x)
        if k in ('SimpleCallNode', 'GeneralCallNode'):
            f = x.function
            if kind(f) == 'NameNode':
                out.add(str(f.name))
            elif kind(f) == 'AttributeNode':
                out.add(str(f.attribute))
        elif k == 'NewExprNode':
            out.add(str(getattr(x.cppclass, 'name', '')))
    return out
