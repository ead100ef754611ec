"""Resolved C++ program model of the Triumvirate back end.

Every translation unit of /repo is parsed by clang with the flags of the
OpenMP build, and its typed syntax tree (JSON dump) is turned into light
`Node` objects.  Nothing is executed.
"""
import json
import os
import re
import subprocess
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'src', 'triumvirate')
HERE = os.path.dirname(os.path.abspath(__file__))


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (anchor vanished, parse error)."""


def find_clang():
    for c in ('/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++-18',
              'clang++-18', 'clang++'):
        try:
            out = subprocess.run([c, '--version'], capture_output=True,
                                 text=True)
            if out.returncode == 0 and 'clang' in out.stdout:
                return c
        except OSError:
            continue
    raise AnalysisBroken('no clang++ found')


TRANSPARENT = {
    'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups',
    'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
    'FullExpr', 'SubstNonTypeTemplateParmExpr',
}


class Node:
    __slots__ = ('kind', 'name', 'type', 'file', 'line', 'endline', 'kids',
                 'd', 'parent', 'id')

    def __repr__(self):
        return f'<{self.kind} {self.name or ""} {self.file}:{self.line}>'

    # -- navigation ----------------------------------------------------
    def walk(self):
        stack = [self]
        while stack:
            n = stack.pop()
            yield n
            stack.extend(reversed(n.kids))

    def strip(self):
        n = self
        while n.kind in TRANSPARENT and n.kids:
            n = n.kids[0]
        return n

    def loc(self):
        f = self.file or '?'
        if f.startswith(REPO):
            f = os.path.relpath(f, REPO)
        return f'{f}:{self.line}'

    # -- convenience ---------------------------------------------------
    @property
    def op(self):
        return self.d.get('opcode')

    @property
    def ref(self):
        """(kind, name, id) of the declaration a DeclRefExpr names."""
        r = self.d.get('referencedDecl')
        return r

    @property
    def desugared(self):
        t = self.d.get('type') or {}
        return t.get('desugaredQualType') or t.get('qualType') or ''

    def const_value(self):
        n = self.strip()
        if n.kind == 'IntegerLiteral':
            return int(n.d['value'])
        if n.kind == 'FloatingLiteral':
            return float(n.d['value'])
        if n.kind == 'CXXBoolLiteralExpr':
            return bool(n.d['value'])
        if n.kind == 'CharacterLiteral':
            return int(n.d['value'])
        if n.kind == 'UnaryOperator' and n.op == '-':
            v = n.kids[0].const_value()
            return None if v is None else -v
        if n.kind == 'UnaryOperator' and n.op == '+':
            return n.kids[0].const_value()
        return None

    def string_value(self):
        n = self.strip()
        if n.kind == 'StringLiteral':
            return unquote(n.d['value'])
        if n.kind == 'CXXConstructExpr' and len(n.kids) >= 1 and \
                'basic_string' in n.desugared or n.kind in (
                    'CXXFunctionalCastExpr', 'CXXTemporaryObjectExpr'):
            for k in n.kids:
                v = k.string_value()
                if v is not None:
                    return v
        return None


def unquote(s):
    # clang prints string literals C-escaped, maybe with prefix.
    if s.startswith(('u8"', 'L"', 'u"', 'U"')):
        s = s[s.index('"'):]
    body = s[1:-1]
    out, i = [], 0
    m = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', 'a': '\a', 'b': '\b',
         'f': '\f', 'v': '\v', '\\': '\\', '"': '"', "'": "'", '?': '?'}
    while i < len(body):
        c = body[i]
        if c == '\\' and i + 1 < len(body):
            nx = body[i + 1]
            if nx == 'x':
                j = i + 2
                while j < len(body) and body[j] in '0123456789abcdefABCDEF':
                    j += 1
                out.append(chr(int(body[i + 2:j] or '0', 16)))
                i = j
                continue
            if nx in '01234567':
                j = i + 1
                while j < len(body) and j < i + 4 and body[j] in '01234567':
                    j += 1
                out.append(chr(int(body[i + 1:j], 8)))
                i = j
                continue
            out.append(m.get(nx, nx))
            i += 2
        else:
            out.append(c)
            i += 1
    return ''.join(out)


class _Conv:
    def __init__(self):
        self.file = None
        self.line = None

    def bare(self, d):
        if not d:
            return None
        if 'file' in d:
            self.file = d['file']
        if 'line' in d:
            self.line = d['line']
        if 'offset' in d or 'col' in d:
            return (self.file, self.line)
        return None

    def srcloc(self, d):
        if not d:
            return None
        if 'spellingLoc' in d or 'expansionLoc' in d:
            self.bare(d.get('spellingLoc'))
            return self.bare(d.get('expansionLoc'))
        return self.bare(d)

    def conv(self, d, parent):
        n = Node()
        n.kind = d.get('kind', '')
        n.name = d.get('name')
        t = d.get('type')
        n.type = t.get('qualType') if isinstance(t, dict) else None
        n.parent = parent
        n.id = d.get('id')
        loc = beg = end = None
        kids = None
        for k, v in d.items():
            if k == 'loc':
                loc = self.srcloc(v)
            elif k == 'range':
                beg = self.srcloc(v.get('begin'))
                end = self.srcloc(v.get('end'))
            elif k == 'inner':
                kids = v
        p = loc or beg
        n.file, n.line = p if p else (None, None)
        n.endline = end[1] if end else n.line
        if n.kind.endswith(('Stmt', 'Expr', 'Operator', 'Literal')) and beg:
            n.file, n.line = beg
        n.d = d
        n.kids = []
        if kids:
            for k in kids:
                if k:
                    n.kids.append(self.conv(k, n))
                else:
                    # absent optional child (e.g. for-init): keep the slot
                    e = Node()
                    e.kind, e.name, e.type = 'Null', None, None
                    e.file, e.line, e.endline = n.file, n.line, n.line
                    e.kids, e.d, e.parent, e.id = [], {}, n, None
                    n.kids.append(e)
            d.pop('inner', None)
        return n


def _raw_docs(text):
    dec = json.JSONDecoder()
    i, N = 0, len(text)
    while True:
        while i < N and text[i] in ' \r\n\t':
            i += 1
        if i >= N:
            return
        if text[i] != '{':
            j = text.find('\n{', i)
            if j < 0:
                return
            i = j + 1
        obj, i = dec.raw_decode(text, i)
        yield obj


FUNC_KINDS = {'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl',
              'CXXDestructorDecl', 'CXXConversionDecl'}


class Func:
    """A function definition (or declaration) of the program."""

    def __init__(self, node, qual):
        self.node = node
        self.qual = qual
        self.name = node.name
        self.mangled = node.d.get('mangledName')
        self.type = node.type
        self.params = [k for k in node.kids if k.kind == 'ParmVarDecl']
        self.body = next((k for k in node.kids if k.kind in (
            'CompoundStmt', 'CXXTryStmt')), None)
        self.inits = [k for k in node.kids if k.kind == 'CXXCtorInitializer']
        self.cls = None

    @property
    def key(self):
        return self.mangled or (self.qual + ' ' + (self.type or ''))

    def loc(self):
        return self.node.loc()

    def __repr__(self):
        return f'<Func {self.qual} {self.loc()}>'


class Record:
    def __init__(self, node, qual):
        self.node = node
        self.qual = qual
        self.fields = [k for k in node.kids if k.kind == 'FieldDecl']
        self.bases = [b.get('type', {}).get('qualType', '')
                      for b in node.d.get('bases', [])]


def base_class(expr):
    t = (expr.desugared or expr.type or '')
    return t.replace('const ', '').replace('*', '').replace(
        '&', '').strip()


class TU:
    def __init__(self, path):
        self.path = path
        self.roots = []
        self.by_id = {}        # decl id -> Node
        self.qual_by_id = {}   # decl id -> qualified name
        self.funcs = []        # Func defined (with body) in the repository
        self.decls = {}        # decl id -> Func (any function decl)
        self.records = {}
        self.vars = {}         # namespace-level variables
        self.enums = {}
        self.many = False      # assembled from several dumps
        self._names = None
        self._vnames = None

    def index(self):
        def visit(n, scope):
            if n.id:
                self.by_id[n.id] = n
            if n.kind == 'NamespaceDecl':
                s = scope + [n.name or '(anon)']
                for k in n.kids:
                    visit(k, s)
            elif n.kind in ('CXXRecordDecl', 'ClassTemplateSpecialization'
                            'Decl'):
                q = '::'.join(scope + [n.name or '(anon)'])
                self.qual_by_id[n.id] = q
                if n.d.get('completeDefinition'):
                    self.records[q] = Record(n, q)
                for k in n.kids:
                    visit(k, scope + [n.name or '(anon)'])
            elif n.kind in FUNC_KINDS:
                pid = n.d.get('parentDeclContextId')
                sc = scope
                if pid and pid in self.qual_by_id:
                    sc = self.qual_by_id[pid].split('::')
                q = '::'.join(sc + [n.name or '?'])
                self.qual_by_id[n.id] = q
                f = Func(n, q)
                if n.kind != 'FunctionDecl' or len(sc) and \
                        '::'.join(sc) in self.records:
                    f.cls = '::'.join(sc)
                self.decls[n.id] = f
                if f.body is not None and (n.file or '').startswith(REPO):
                    self.funcs.append(f)
                for k in n.walk():
                    if k.id:
                        self.by_id.setdefault(k.id, k)
            elif n.kind == 'VarDecl':
                q = '::'.join(scope + [n.name or '?'])
                self.vars[q] = n
                self.qual_by_id[n.id] = q
                for k in n.walk():
                    if k.id:
                        self.by_id.setdefault(k.id, k)
            elif n.kind == 'EnumDecl':
                q = '::'.join(scope + [n.name or '?'])
                self.enums[q] = [k.name for k in n.kids
                                 if k.kind == 'EnumConstantDecl']
                for k in n.kids:
                    self.by_id[k.id] = k
                    self.qual_by_id[k.id] = q + '::' + (k.name or '')
            else:
                if n.kind == 'FieldDecl':
                    self.qual_by_id[n.id] = '::'.join(scope + [n.name or ''])
                for k in n.kids:
                    visit(k, scope)
        for r in self.roots:
            visit(r, [])

    # -- call resolution -------------------------------------------------
    def callee(self, call):
        """Func declared for a call expression, or None; plus bare name."""
        if call.kind == 'CXXConstructExpr' or \
                call.kind == 'CXXTemporaryObjectExpr':
            return None, call.type
        c = call.kids[0].strip() if call.kids else None
        if c is None:
            return None, None
        if c.kind == 'MemberExpr':
            rid = c.d.get('referencedMemberDecl')
            f = self.decls.get(rid)
            if f is None and self.many and rid not in self.by_id and c.kids:
                f = self._by_name(c.name, base_class(c.kids[0]),
                                  len(call.kids) - 1, None)
            return f, c.name
        if c.kind == 'DeclRefExpr':
            r = c.ref or {}
            f = self.decls.get(r.get('id'))
            if f is None and self.many and r.get('id') not in self.by_id:
                f = self._by_name(r.get('name'), None, len(call.kids) - 1,
                                  (r.get('type') or {}).get('qualType'))
            return f, r.get('name')
        return None, None

    def var_by_name(self, name):
        """Qualified name of the global variable `name' declared in another
        clang run over the same source."""
        if not self.many or not name:
            return None
        if self._vnames is None:
            self._vnames = {}
            for q in self.vars:
                self._vnames.setdefault(q.split('::')[-1], []).append(q)
        c = self._vnames.get(name, [])
        return c[0] if len(c) == 1 else None

    def _by_name(self, name, cls, nargs, typ):
        """Declarations dumped by another clang run have other ids: resolve
        by name, class, signature."""
        c = self._names
        if c is None:
            c = self._names = {}
            for f in self.decls.values():
                c.setdefault(f.name, []).append(f)
        cand = c.get(name, [])
        if cls is not None:
            cand = [f for f in cand if f.cls == cls]
        else:
            cand = [f for f in cand if not f.cls]
        if typ is not None:
            cand = [f for f in cand if f.type == typ]
        exact = [f for f in cand if len(f.params) == nargs]
        cand = exact or cand
        return cand[0] if cand else None


CXX_SOURCES = ['arrayops', 'dataobjs', 'fftlog', 'field', 'io', 'maths',
               'monitor', 'parameters', 'particles', 'threept', 'twopt']

BASE_FLAGS = ['-std=c++17', '-fsyntax-only', '-w', '-fopenmp',
              '-DTRV_USE_OMP', '-DTRV_USE_FFTWOMP',
              '-D__TRV_VERSION__="0"', '-D__TZOFFSET__="+0000"',
              '-ferror-limit=0']


def sources():
    srcdir = os.path.join(PKG, 'src')
    out = [os.path.join(srcdir, f) for f in sorted(os.listdir(srcdir))
           if f.endswith('.cpp')]
    main = os.path.join(PKG, 'main', 'triumvirate.cpp')
    if os.path.exists(main):
        out.append(main)
    return out


def _dump(args):
    clang, path, flt, extra = args
    cmd = [clang] + BASE_FLAGS + list(extra) + [
        '-I' + os.path.join(PKG, 'include'), '-I' + PKG,
        '-I' + os.path.join(HERE, 'stubs'),
        '-Xclang', '-ast-dump=json', '-Xclang', f'-ast-dump-filter={flt}',
        path]
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode, p.stdout, p.stderr


def _outside_names(path):
    """Names of functions a source file may define outside the `trv'
    namespace (candidates: clang then decides what they are)."""
    with open(path, encoding='utf-8', errors='replace') as f:
        text = f.read()
    text = re.sub(r'/\*.*?\*/|//[^\n]*', '', text, flags=re.S)
    if os.path.basename(path) != 'triumvirate.cpp':
        # keep what lies outside `namespace trv { ... }'
        out, i = [], 0
        for m in re.finditer(r'\bnamespace\s+trv[\w:]*\s*\{', text):
            if m.start() < i:
                continue
            out.append(text[i:m.start()])
            depth, j = 1, m.end()
            for k in re.finditer(r'[{}]|"(?:\\.|[^"\\\n])*"'
                                 r"|'(?:\\.|[^'\\\n])*'", text[j:]):
                if k.group() == '{':
                    depth += 1
                elif k.group() == '}':
                    depth -= 1
                    if depth == 0:
                        j += k.end()
                        break
            else:
                j = len(text)
            i = j
        out.append(text[i:])
        text = '\n'.join(out)
    names = re.findall(
        r'^[ \t]*(?:[A-Za-z_][\w:]*(?:<[^;{}()]*>)?[\s*&]+)+'
        r'([A-Za-z_]\w*)\s*\([^;{}]*\)\s*(?:noexcept\s*)?\{', text, flags=re.M)
    bad = {'if', 'for', 'while', 'switch', 'return', 'catch', 'else', 'defined'}
    return sorted({n for n in names if n not in bad})


def parse_tu(path, extra=()):
    clang = find_clang()
    tu = TU(path)
    names = _outside_names(path)
    tu.many = bool(names)
    jobs = [(clang, path, flt, extra) for flt in ['trv'] + names]
    with ThreadPoolExecutor(max_workers=4) as ex:
        dumps = list(ex.map(_dump, jobs))
    for i, (rc, out, err) in enumerate(dumps):
        if rc != 0:
            raise AnalysisBroken(f'clang cannot parse {path}:\n{err[:2000]}')
        if i:
            # another run of clang: keep its node addresses apart
            out = re.sub(r'"(0x[0-9a-f]+)"', rf'"\1@{i}"', out)
        conv = _Conv()
        for doc in _raw_docs(out):
            if i:
                if doc.get('name') != names[i - 1]:
                    conv.conv(doc, None)
                    continue
                n = conv.conv(doc, None)
                if (n.file or '').startswith(REPO):
                    tu.roots.append(n)
            else:
                tu.roots.append(conv.conv(doc, None))
    tu.index()
    return tu


_CACHE = {}


def load(names=None, extra=()):
    """Parse the named translation units (base names), default all."""
    import gc
    gc.disable()
    try:
        tus = []
        for p in sources():
            b = os.path.splitext(os.path.basename(p))[0]
            if names is not None and b not in names:
                continue
            k = (p, tuple(extra))
            if k not in _CACHE:
                _CACHE[k] = parse_tu(p, extra)
            tus.append(_CACHE[k])
    finally:
        gc.enable()
    if names is not None:
        got = {os.path.splitext(os.path.basename(t.path))[0] for t in tus}
        miss = set(names) - got
        if miss:
            raise AnalysisBroken(f'source files missing: {sorted(miss)}')
    return tus


class Program:
    """Whole-program view over several translation units."""

    def __init__(self, names=None, extra=()):
        self.tus = load(names, extra)
        self.funcs = {}     # key -> (Func, TU) definitions
        self.records = {}
        self.by_qual = {}
        for tu in self.tus:
            for f in tu.funcs:
                if f.key not in self.funcs:
                    self.funcs[f.key] = (f, tu)
                    self.by_qual.setdefault(f.qual, []).append((f, tu))
            for q, r in tu.records.items():
                self.records.setdefault(q, (r, tu))

    def definition(self, decl):
        """(Func, TU) of the definition for a declared Func, or None."""
        if decl is None:
            return None
        return self.funcs.get(decl.key)
