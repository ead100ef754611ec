"""R04: formatted text matches its arguments and its buffers."""
import ast
import re

from .. import cxx, pymodel
from .y01 import qual

EXPLANATION = (
    'Every call of a formatting or scanning function in the C++ back end, '
    'directly or through the library\'s own variadic functions, constructors '
    'and lambdas, is resolved to its format string(s) (literals, constants, '
    'or parameters bound at each caller). Directive count, order and type '
    'are compared with the promoted argument types; a format that is not '
    'made of literals is a violation; buffer sizes given to bounded writers '
    'and scan widths are compared with the declared arrays; variable '
    'argument lists are started, forwarded and ended once. In the Python '
    'layer every %-, str.format- and logging-formatted literal is compared '
    'with its arguments.')

# name -> (format index, kind, (buffer index, size index) or None)
LIB = {
    'printf': (0, 'print', None), 'fprintf': (1, 'print', None),
    'sprintf': (1, 'print', (0, None)), 'snprintf': (2, 'print', (0, 1)),
    'dprintf': (1, 'print', None),
    'vprintf': (0, 'vprint', None), 'vfprintf': (1, 'vprint', None),
    'vsprintf': (1, 'vprint', (0, None)),
    'vsnprintf': (2, 'vprint', (0, 1)),
    'scanf': (0, 'scan', None), 'fscanf': (1, 'scan', None),
    'sscanf': (1, 'scan', None),
    'vsscanf': (1, 'vscan', None),
}
BUF = {'strftime': (0, 1), 'fgets': (0, 1), 'strncpy': (0, 2),
       'memset': (0, 2), 'memcpy': (0, 2), 'memmove': (0, 2)}
SPEC = re.compile(
    r'%(?P<flags>[-+ #0\']*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+)?)?'
    r'(?P<len>hh|h|ll|l|L|q|j|z|t)?(?P<conv>[a-zA-Z%])')
SCAN = re.compile(
    r'%(?P<sup>\*)?(?P<width>\d+)?(?P<len>hh|h|ll|l|L|q|j|z|t|m)?'
    r'(?P<conv>\[\^?\]?[^\]]*\]|[a-zA-Z%])')
INTS = {'': 'int', 'hh': 'int', 'h': 'int', 'l': 'long',
        'll': 'long long', 'q': 'long long', 'j': 'long', 'z': 'long',
        't': 'long'}
PTRINT = {'': 'int', 'hh': 'char', 'h': 'short', 'l': 'long',
          'll': 'long long', 'q': 'long long', 'j': 'long', 'z': 'long',
          't': 'long'}


def base(t):
    t = re.sub(r'\b(const|volatile|struct|class|enum|restrict|__restrict)\b',
               '', t or '')
    t = t.replace('std::size_t', 'unsigned long').replace(
        'size_t', 'unsigned long').replace('int64_t', 'long').replace(
        'uint64_t', 'unsigned long')
    return ' '.join(t.replace('*', ' * ').replace('&', ' ').split())


def promoted(t, enum=False):
    """Category of a variadic argument of this type."""
    if t.endswith('*') or '[' in t:
        p = t.split('[')[0].strip()
        if '[' in t:
            p += ' *'
        return ('ptr', p[:-1].strip())
    m = {'float': 'double', 'bool': 'int', 'char': 'int',
         'signed char': 'int', 'unsigned char': 'int', 'short': 'int',
         'unsigned short': 'int', 'unsigned': 'unsigned int'}
    t = m.get(t, t)
    if t in ('int', 'unsigned int', 'long', 'unsigned long', 'long long',
             'unsigned long long', 'double', 'long double'):
        return ('num', t)
    if enum:
        return ('num', 'int')
    if t in ('std::nullptr_t', 'nullptr_t'):
        return ('ptr', 'void')
    return ('other', t)


def print_mismatch(m, cat):
    """None if the argument suits the directive."""
    c, ln = m['conv'], m['len'] or ''
    kind, t = cat
    if c in 'di':
        w = INTS.get(ln)
        if kind == 'num' and t == w:
            return None
        if kind == 'num' and ln in ('z', 't', 'j') and t == 'unsigned long':
            return None
        if kind == 'num' and t == 'unsigned ' + (w or ''):
            return f'%{ln}{c} prints an unsigned value as signed'
    elif c in 'uoxX':
        w = INTS.get(ln)
        if kind == 'num' and t == 'unsigned ' + (w or ''):
            return None
        if kind == 'num' and t == w:
            return None if c in 'oxX' else \
                f'%{ln}{c} prints a signed value as unsigned'
    elif c in 'fFeEgGaA':
        if kind == 'num' and t == ('long double' if ln == 'L' else 'double'):
            return None
    elif c == 'c':
        if kind == 'num' and t in ('int', 'unsigned int'):
            return None
    elif c == 's':
        if kind == 'ptr' and t in ('char', 'signed char', 'unsigned char'):
            return None
    elif c == 'p':
        if kind == 'ptr':
            return None
    else:
        return f'directive %{ln}{c} is not supported'
    return f'%{ln}{c} given {t + " *" if kind == "ptr" else t}'


class Site:
    def __init__(self, call, fn, tu, name, fmt, args, kind, scope):
        self.call, self.fn, self.tu, self.name = call, fn, tu, name
        self.fmt, self.args, self.kind = fmt, args, kind
        self.scope = scope      # enclosing lambda operator() node or None


def call_args(call):
    if call.kind in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        return call.kids
    if call.kind == 'CXXOperatorCallExpr':
        return call.kids[2:]
    return call.kids[1:]


class Formats:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.calls = []          # (call, Func, TU, lambda node)
        self.lambdas = {}        # operator() decl id -> node
        self.callers = {}        # key or lambda id -> calls
        self.varia = {}          # class or key -> variadic Func
        for f, tu in prog.funcs.values():
            for part in ([f.body] if f.body is not None else []) + f.inits:
                self.scan(part, f, tu, None)
        for tu in prog.tus:
            for f in tu.decls.values():
                if f.node.d.get('variadic') and f.params:
                    self.varia.setdefault(f.key, (f, tu))
        self.varia_ctor = {}
        for f, tu in self.varia.values():
            if f.node.kind == 'CXXConstructorDecl' and f.cls:
                self.varia_ctor.setdefault(f.cls, f)

    def scan(self, n, f, tu, lam):
        # bodies of lambdas appear both in operator() and in the
        # LambdaExpr: use the operator only
        if n.kind == 'LambdaExpr':
            op = next((k for k in n.walk() if k.kind == 'CXXMethodDecl'
                       and k.name == 'operator()'), None)
            if op is not None:
                self.lambdas[op.id] = op
                body = next((k for k in op.kids if k.kind ==
                             'CompoundStmt'), None) or next(
                    (k for k in n.kids if k.kind == 'CompoundStmt'), None)
                if body is not None:
                    self.scan(body, f, tu, op)
            return
        if n.kind in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr',
                      'CXXTemporaryObjectExpr', 'CXXOperatorCallExpr'):
            self.calls.append((n, f, tu, lam))
            if n.kind == 'CXXOperatorCallExpr' and n.kids:
                r = n.kids[0].strip().ref
                if r:
                    self.callers.setdefault(r.get('id'), []).append(
                        (n, f, tu, lam))
            else:
                d, _ = tu.callee(n)
                if d is not None:
                    self.callers.setdefault(d.key, []).append(
                        (n, f, tu, lam))
        for k in n.kids:
            self.scan(k, f, tu, lam)

    # ---- what a call formats
    def sites(self):
        for call, f, tu, lam in self.calls:
            if call.kind in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                cls = base(call.desugared or call.type or '')
                v = self.varia_ctor.get(cls) or self.varia_ctor.get(
                    'trv::sys::' + cls.split('::')[-1])
                if v is None:
                    continue
                args = call.kids
                if not args or not is_text(args[0]):
                    continue
                i = len(v.params) - 1
                if len(args) > i:
                    yield Site(call, f, tu, v.name, args[i], args[i + 1:],
                               'print', lam)
                continue
            d, name = tu.callee(call)
            if name in LIB and (d is None or not d.qual.startswith('trv')):
                i, kind, _ = LIB[name]
                a = call_args(call)
                if len(a) > i:
                    yield Site(call, f, tu, name, a[i], a[i + 1:], kind, lam)
                continue
            if d is not None and d.node.d.get('variadic') and d.params and \
                    d.qual.startswith('trv'):
                i = len(d.params) - 1
                a = call_args(call)
                if len(a) > i:
                    yield Site(call, f, tu, d.qual, a[i], a[i + 1:],
                               'print', lam)
            elif d is not None and d.params and any(
                    'va_list' in (p.type or '') for p in d.params) and \
                    d.qual.startswith('trv'):
                ft = [i for i, p in enumerate(d.params)
                      if is_text(p)]
                a = call_args(call)
                if ft and len(a) > ft[-1]:
                    yield Site(call, f, tu, d.qual, a[ft[-1]], [],
                               'vprint', lam)

    def params_of(self, site):
        return [k for k in site.scope.kids if k.kind == 'ParmVarDecl'] \
            if site.scope is not None else site.fn.params

    def texts(self, e, site, bind, depth=0):
        """Resolve a format expression: list of ('lit', text, bind),
        ('param', index), ('dyn', why) or ('unknown',)."""
        e = e.strip()
        if e.kind == 'StringLiteral':
            return [('lit', cxx.unquote(e.d['value']), bind)]
        if e.kind == 'ConditionalOperator':
            return self.texts(e.kids[1], site, bind, depth) + \
                self.texts(e.kids[2], site, bind, depth)
        if e.kind == 'DeclRefExpr':
            rid = e.ref.get('id')
            for i, p in enumerate(self.params_of(site)):
                if p.id == rid:
                    if bind is not None and i < len(bind[0]):
                        a, s2 = bind[0][i], bind[1]
                        return self.texts(a, s2, bind[2], depth + 1)
                    return [('param', i)]
            d = site.tu.by_id.get(rid)
            if d is not None and d.kind == 'VarDecl':
                init = [k for k in d.kids if k.kind not in (
                    'FullComment', 'Null') and not k.kind.endswith('Attr')]
                t = d.type or ''
                if init and ('const' in t or not self.reassigned(
                        rid, site)) and ('char' in t or 'auto' in t):
                    return self.texts(init[0], site, bind, depth + 1)
                if '[' in t:
                    return self.buffer_text(rid, site)
                return self.assigned_texts(rid, site, bind, init, depth)
            return [('unknown',)]
        if e.kind == 'CXXMemberCallExpr':
            _, nm = site.tu.callee(e)
            if nm in ('c_str', 'data') and e.kids[0].kids:
                return self.string_texts(e.kids[0].kids[0], site, bind,
                                         depth + 1)
            if nm == 'what':
                return [('dyn', 'the text of an error')]
            return [('dyn', f'the result of {nm}()')]
        if e.kind == 'MemberExpr':
            return [('dyn', f'member {e.name}')]
        if e.kind == 'CallExpr':
            _, nm = site.tu.callee(e)
            return [('dyn', f'the result of {nm}()')]
        return [('unknown',)]

    def string_texts(self, e, site, bind, depth):
        """The same for a std::string expression."""
        e = e.strip()
        if depth > 12:
            return [('unknown',)]
        if e.kind == 'StringLiteral':
            return [('lit', cxx.unquote(e.d['value']), bind)]
        if e.kind in ('CXXConstructExpr', 'CXXTemporaryObjectExpr',
                      'CXXFunctionalCastExpr', 'CXXBindTemporaryExpr',
                      'MaterializeTemporaryExpr', 'ExprWithCleanups',
                      'ImplicitCastExpr', 'CXXStaticCastExpr'):
            ks = [k for k in e.kids if k.kind != 'CXXDefaultArgExpr']
            if len(ks) == 1:
                return self.string_texts(ks[0], site, bind, depth + 1)
            if not ks:
                return [('lit', '', bind)]
            return [('unknown',)]
        if e.kind == 'CXXOperatorCallExpr' and len(e.kids) == 3 and \
                (e.kids[0].strip().ref or {}).get('name') == 'operator+':
            a = self.string_texts(e.kids[1], site, bind, depth + 1)
            b = self.string_texts(e.kids[2], site, bind, depth + 1)
            if any(x[0] == 'dyn' for x in a + b):
                return [next(x for x in a + b if x[0] == 'dyn')]
            if all(x[0] == 'lit' for x in a + b):
                return [('lit', x[1] + y[1], bind) for x in a for y in b]
            return [('unknown',)]
        if e.kind == 'ConditionalOperator':
            return self.string_texts(e.kids[1], site, bind, depth + 1) + \
                self.string_texts(e.kids[2], site, bind, depth + 1)
        if e.kind == 'MemberExpr':
            return [('dyn', f'member {e.name}')]
        if e.kind in ('CXXMemberCallExpr', 'CallExpr'):
            d, nm = site.tu.callee(e)
            if nm == 'to_string':
                return [('dyn', 'a number')]
            return [('dyn', f'the result of {nm}()')]
        if e.kind == 'DeclRefExpr':
            rid = e.ref.get('id')
            for i, p in enumerate(self.params_of(site)):
                if p.id == rid:
                    if is_text(p):
                        return self.texts(e, site, bind, depth + 1)
                    return [('dyn', f'parameter {p.name}')]
            d = site.tu.by_id.get(rid)
            if d is not None and d.kind == 'VarDecl':
                if 'char' in (d.type or '') and 'string' not in (
                        d.type or ''):
                    return self.texts(e, site, bind, depth + 1)
                init = [k for k in d.kids if k.kind not in (
                    'FullComment', 'Null') and not k.kind.endswith('Attr')]
                return self.assigned_texts(rid, site, bind, init, depth,
                                           True)
            return [('unknown',)]
        return [('unknown',)]

    def assigned_texts(self, rid, site, bind, init, depth, string=False):
        get = self.string_texts if string else self.texts
        out = []
        for i in init:
            out += get(i, site, bind, depth + 1)
        for n in site.fn.body.walk():
            if n.kind in ('BinaryOperator', 'CompoundAssignOperator') and \
                    n.op in ('=', '+=') and (
                    n.kids[0].strip().ref or {}).get('id') == rid:
                out += get(n.kids[1], site, bind, depth + 1)
            elif n.kind == 'CXXOperatorCallExpr' and len(n.kids) == 3 and \
                    (n.kids[0].strip().ref or {}).get('name') in (
                        'operator=', 'operator+=') and (
                    n.kids[1].strip().ref or {}).get('id') == rid:
                r = get(n.kids[2], site, bind, depth + 1)
                if (n.kids[0].strip().ref or {}).get('name') == \
                        'operator+=':
                    r = [x if x[0] == 'dyn' else ('unknown',) for x in r]
                out += r
        return out or [('unknown',)]

    def buffer_text(self, rid, site):
        """A local array used as a format: dynamic if filled with text."""
        for n in site.fn.body.walk():
            if n.kind == 'CallExpr' and len(n.kids) > 1:
                _, nm = site.tu.callee(n)
                if (n.kids[1].strip().ref or {}).get('id') != rid:
                    continue
                if nm in ('snprintf', 'sprintf'):
                    i = LIB[nm][0]
                    f = n.kids[1 + i].strip()
                    if f.kind == 'StringLiteral' and not re.search(
                            r'%[^%diu]*s', cxx.unquote(f.d['value'])):
                        continue
                    return [('dyn', 'a buffer composed at run time')]
                if nm in ('vsnprintf', 'vsprintf', 'strcpy', 'strncpy',
                          'strcat', 'fgets'):
                    return [('dyn', 'a buffer composed at run time')]
        return [('unknown',)]

    def reassigned(self, rid, site):
        for n in site.fn.body.walk():
            if n.kind in ('BinaryOperator', 'CompoundAssignOperator') and \
                    n.op in ('=', '+=') and (
                    n.kids[0].strip().ref or {}).get('id') == rid:
                return True
        return False

    # ---- one site with all its bindings
    def judge(self, site, bind=None, depth=0):
        out = []        # (verdict, where, text)
        for t in self.texts(site.fmt, site, bind):
            if t[0] == 'lit':
                out += self.literal(site, t[1], bind)
            elif t[0] == 'dyn':
                out.append(('bad', self.where(site, bind),
                            f'the format is {t[1]}, not a literal'))
            elif t[0] == 'param':
                out += self.from_callers(site, t[1], bind, depth)
            else:
                out.append(('undecided', self.where(site, bind),
                            'format not resolved'))
        return out

    def where(self, site, bind):
        while bind is not None:
            site, bind = bind[1], bind[2]
        return site.call.loc()

    def from_callers(self, site, i, bind, depth):
        # a variadic function or one taking a va_list formats for its
        # callers: judged at their sites
        if site.scope is None:
            f = site.fn
            if f.node.d.get('variadic') and i == len(f.params) - 1:
                if site.kind in ('vprint', 'vscan'):
                    return [('ok', site.call.loc(), 'forwards its format '
                             'and arguments')]
                return [('bad', site.call.loc(),
                         f'{f.qual} passes its format on without its '
                         'arguments')]
            if any('va_list' in (p.type or '') for p in f.params):
                return [('ok', site.call.loc(), 'forwards its format and '
                         'arguments')]
        if depth > 4:
            return [('undecided', site.call.loc(), 'call depth')]
        key = site.scope.id if site.scope is not None else site.fn.key
        out = []
        for call, f, tu, lam in self.callers.get(key, []):
            s2 = Site(call, f, tu, '', None, [], '', lam)
            out += self.judge(site, (call_args(call), s2, bind), depth + 1)
        if not out:
            out.append(('ok', site.call.loc(), 'never called'))
        return out

    def bound(self, a, site, bind):
        """Argument as given by the caller when it is a parameter."""
        e = a.strip()
        if bind is not None and e.kind == 'DeclRefExpr':
            for i, p in enumerate(self.params_of(site)):
                if p.id == e.ref.get('id') and i < len(bind[0]):
                    return self.bound(bind[0][i], bind[1], bind[2])
        return e

    def atype(self, a, site):
        t = base(a.desugared or a.type)
        enum = any('EnumDecl' == (site.tu.by_id.get(
            (a.d.get('type') or {}).get('typeAliasDeclId')) or a).kind
            for _ in (0,))
        q = base(a.type)
        if not enum and any(q == e or e.endswith('::' + q)
                            for e in site.tu.enums):
            enum = True
        s = a.strip()
        if s.kind == 'StringLiteral' or (
                s.kind == 'DeclRefExpr' and '[' in (s.desugared or '')):
            u = base((s.desugared or s.type).split('[')[0])
            return ('ptr', u)
        return promoted(t, enum)

    def literal(self, site, text, bind):
        w = self.where(site, bind)
        if site.kind in ('vprint', 'vscan'):
            return [('ok', w, 'arguments forwarded')]
        rx = SPEC if site.kind == 'print' else SCAN
        ms, i = [], 0
        while True:
            j = text.find('%', i)
            if j < 0:
                break
            m = rx.match(text, j)
            if m is None:
                return [('bad', w, f'malformed directive at '
                         f'{text[j:j + 8]!r}')]
            if m['conv'] != '%':
                ms.append(m)
            i = m.end()
        args = list(site.args)
        out = []
        k = 0
        for m in ms:
            if site.kind == 'print':
                for part in ('width', 'prec'):
                    if m[part] == '*':
                        if k >= len(args) or self.atype(
                                args[k], site) != ('num', 'int'):
                            out.append(('bad', w, f'{m[0]!r} needs an int '
                                        'width'))
                        k += 1
            elif m['sup']:
                continue
            if k >= len(args):
                out.append(('bad', w, f'{text!r} has more directives than '
                            f'its {len(args)} arguments'))
                return out
            a = args[k]
            k += 1
            if site.kind == 'print':
                why = print_mismatch(m, self.atype(a, site))
                if why:
                    out.append(('bad', w, f'argument {k}: {why} in '
                                f'{text!r}'))
            else:
                out += self.scan_arg(m, a, site, bind, w, k)
        if k < len(args):
            out.append(('bad', w, f'{text!r} has fewer directives than its '
                        f'{len(args)} arguments'))
        return out or [('ok', w, text)]

    def scan_arg(self, m, a, site, bind, w, k):
        e = self.bound(a, site, bind)
        c, ln = m['conv'], m['len'] or ''
        t = base(e.desugared or e.type)
        if c[0] in '[sc':
            size = array_size(e)
            if not m['width'] and c != 'c':
                return [('bad', w, f'argument {k}: %{c} has no width')]
            if not (t.startswith('char') or 'char [' in t
                    or t.startswith('char[')):
                return [('bad', w, f'argument {k}: %{c} given {t}')]
            if size is None:
                return [('undecided', w, f'argument {k}: buffer size '
                         'unknown')]
            need = int(m['width'] or 1) + (c != 'c')
            if need > size:
                return [('bad', w, f'argument {k}: %{m["width"]}{c} needs '
                         f'{need} bytes, the buffer has {size}')]
            return []
        if c in 'diuoxX':
            want = [PTRINT[ln]] if c in 'di' else ['unsigned ' + PTRINT[ln]]
        elif c in 'feEgGaA':
            want = [{'': 'float', 'l': 'double', 'L': 'long double'}.get(
                ln, '?')]
        elif c == 'n':
            want = ['int']
        elif c == 'p':
            want = ['void *']
        else:
            return [('bad', w, f'argument {k}: directive {m[0]!r} is not '
                     'supported')]
        if t.split('[')[0].strip() not in [x + ' *' for x in want] and not (
                '[' in t and t.split('[')[0].strip() in want):
            return [('bad', w, f'argument {k}: {m[0]!r} given {t}')]
        return []


def is_text(n):
    t = base(n.desugared or n.type)
    s = n.strip() if hasattr(n, 'strip') else n
    return t.startswith('char') and ('*' in t or '[' in t) or \
        s.kind == 'StringLiteral'


def array_size(e):
    e = e.strip()
    m = re.search(r'\[(\d+)\]', e.desugared or e.type or '')
    if m:
        return int(m.group(1))
    return None


def size_value(e, tu):
    """Constant value of a size argument."""
    e = e.strip()
    v = e.const_value()
    if v is not None:
        return v
    if e.kind == 'UnaryExprOrTypeTraitExpr' and e.d.get(
            'name') == 'sizeof':
        t = (e.d.get('argType') or {}).get('qualType')
        if t is None and e.kids:
            k = e.kids[0]
            while k.kind == 'ParenExpr':
                k = k.kids[0]
            t = k.desugared or k.type
        return sizeof(t or '')
    if e.kind == 'DeclRefExpr':
        d = tu.by_id.get((e.ref or {}).get('id'))
        if d is not None and d.kind == 'VarDecl' and 'const' in (
                d.type or '') and d.kids:
            return size_value(d.kids[0], tu)
    if e.kind == 'BinaryOperator' and e.op in '+-*':
        a, b = size_value(e.kids[0], tu), size_value(e.kids[1], tu)
        if a is not None and b is not None:
            return a + b if e.op == '+' else a - b if e.op == '-' else a * b
    return None


def sizeof(t):
    t = t.replace('const ', '').strip()
    m = re.match(r'(.*?)\s*\[(\d+)\]$', t)
    if m:
        s = sizeof(m.group(1))
        return None if s is None else s * int(m.group(2))
    if t.endswith('*'):
        return 8
    return {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1,
            'short': 2, 'int': 4, 'unsigned int': 4, 'float': 4,
            'double': 8, 'long': 8, 'unsigned long': 8,
            'long long': 8}.get(t)


def check_buffers(rep, fm):
    for call, f, tu, lam in fm.calls:
        if call.kind != 'CallExpr':
            continue
        d, name = tu.callee(call)
        if d is not None and d.qual.startswith('trv'):
            continue
        a = call_args(call)
        con = f'{f.qual}'
        if name in LIB and LIB[name][2]:
            bi, si = LIB[name][2]
        elif name in BUF:
            bi, si = BUF[name]
        elif name in ('strcpy', 'strcat', 'gets'):
            bi, si = 0, None
        else:
            continue
        if len(a) <= bi:
            continue
        size = array_size(a[bi])
        if si is None:
            src = a[1].string_value() if len(a) > 1 and name == 'strcpy' \
                else None
            if src is not None and size is not None and len(src) < size:
                rep.ok('buffer', con, call.loc(), name)
            elif name in ('sprintf',) and size is not None and \
                    bounded_text(a[1:], fm, f, tu, lam) is not None and \
                    bounded_text(a[1:], fm, f, tu, lam) < size:
                rep.ok('buffer', con, call.loc(), name)
            else:
                rep.bad('buffer', f'{con} {name}', call.loc(),
                        f'{name} writes without a bound')
            continue
        if len(a) <= si:
            continue
        n = size_value(a[si], tu)
        t = a[bi].strip()
        if size is None or n is None:
            rep.undecided('buffer', con, call.loc(),
                          f'{name}: size of buffer or bound unknown')
            continue
        ew = sizeof(re.sub(r'\s*\[\d+\]$', '', base(t.desugared or t.type)
                           )) or 1
        cap = size * (ew if name.startswith('mem') else 1)
        rep.check(n <= cap, 'buffer', f'{con} {name}', call.loc(),
                  f'{name} is told {n} bytes, the buffer has {cap}')


def bounded_text(args, fm, f, tu, lam):
    """Longest text of a sprintf with literal format of %d/%c only."""
    t = args[0].string_value()
    if t is None:
        return None
    n = 0
    for part in re.split(r'(%[-+ #0]*\d*l{0,2}[dic%])', t):
        m = re.match(r'%[-+ #0]*(\d*)(l{0,2})([dic%])$', part)
        if m:
            n += max(int(m.group(1) or 0), 1 if m.group(3) in 'c%' else
                     20 if m.group(2) else 11)
        elif '%' in part:
            return None
        else:
            n += len(part)
    return n


def check_va(rep, fm):
    """va_start(last parameter), one consumption per path, va_end."""
    for f, tu in fm.prog.funcs.values():
        if f.body is None:
            continue
        starts, ends, uses = [], [], []
        for n in f.body.walk():
            if n.kind != 'CallExpr' and n.kind != 'CXXMemberCallExpr':
                continue
            _, nm = tu.callee(n)
            if nm in ('__builtin_va_start',):
                starts.append(n)
            elif nm in ('__builtin_va_end',):
                ends.append(n)
            elif nm == '__builtin_va_copy':
                uses.append((n, 'copy'))
            else:
                for a in call_args(n):
                    if 'va_list' in (a.type or '') or '__va_list_tag' in (
                            a.desugared or ''):
                        uses.append((n, 'use'))
                        break
        if not starts and not uses:
            continue
        con = f.qual
        if starts and f.params:
            last = f.params[-1].id
            ok = all(len(s.kids) > 2 and (s.kids[2].strip().ref or {}).get(
                'id') == last for s in starts)
            rep.check(ok, 'va-list', f'{con} start', f.loc(),
                      'va_start does not name the last parameter')
            rep.check(len(ends) >= 1, 'va-list', f'{con} end', f.loc(),
                      'va_start without va_end')
        con_uses = [u for u, k in uses if k == 'use']
        clash = [(a, b) for i, a in enumerate(con_uses)
                 for b in con_uses[i + 1:] if not exclusive(a, b)
                 and same_list(a, b) and not restarted(a, b, starts)]
        rep.check(not clash, 'va-list', f'{con} use', f.loc(),
                  'an argument list is consumed twice on one path')


def same_list(a, b):
    def lst(n):
        for x in call_args(n):
            if 'va_list' in (x.type or '') or '__va_list_tag' in (
                    x.desugared or ''):
                return (x.strip().ref or {}).get('id')
        return None
    return lst(a) == lst(b)


def restarted(a, b, starts):
    return any(a.line <= s.line <= b.line and s.line != a.line
               for s in starts)


def exclusive(a, b):
    pa, pb = [], []
    for n, p in ((a, pa), (b, pb)):
        while n is not None:
            p.append(n)
            n = n.parent
    ids = {id(x): i for i, x in enumerate(pa)}
    for j, x in enumerate(pb):
        if id(x) in ids:
            i = ids[id(x)]
            if i == 0 or j == 0:
                return False
            ca, cb = pa[i - 1], pb[j - 1]
            if x.kind in ('IfStmt', 'ConditionalOperator'):
                ks = x.kids
                ia, ib = ks.index(ca), ks.index(cb)
                return ia >= 1 and ib >= 1 and ia != ib
            # returning before the other is reached
            k = ca
            return k.kind == 'IfStmt' and any(
                y.kind == 'ReturnStmt' for y in k.walk())
    return False


# ---- Python
PYSPEC = re.compile(
    r'%(?P<key>\([^)]*\))?[-+ #0]*(?P<width>\*|\d+)?'
    r'(?:\.(?P<prec>\*|\d+)?)?[hlL]?(?P<conv>[a-zA-Z%])')
LOGM = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical',
        'stat', 'log'}


def py_specs(text):
    """(positional count, keys) or None when malformed."""
    n, keys, i = 0, set(), 0
    while True:
        j = text.find('%', i)
        if j < 0:
            return n, keys
        m = PYSPEC.match(text, j)
        if m is None or m['conv'] not in 'diouxXeEfFgGcrsa%':
            return None
        if m['conv'] != '%':
            if m['key']:
                keys.add(m['key'][1:-1])
            else:
                n += 1 + (m['width'] == '*') + (m['prec'] == '*')
        i = m.end()


def py_text(n, fn):
    """Literal texts an expression may be."""
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return [n.value]
    if isinstance(n, ast.IfExp):
        a, b = py_text(n.body, fn), py_text(n.orelse, fn)
        return a + b if a is not None and b is not None else None
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = py_text(n.left, fn), py_text(n.right, fn)
        return [x + y for x in a for y in b] if a is not None and \
            b is not None else None
    if isinstance(n, ast.Name) and fn is not None:
        vals = []
        for s in ast.walk(fn):
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(t, ast.Name) and t.id == n.id for t in ts):
                    vals.append(s.value)
                elif any(isinstance(x, ast.Name) and x.id == n.id
                         for t in ts for x in ast.walk(t)
                         if isinstance(getattr(x, 'ctx', None), ast.Store)):
                    return None
            elif isinstance(s, (ast.AugAssign, ast.For)) and isinstance(
                    s.target, ast.Name) and s.target.id == n.id:
                return None
            elif isinstance(s, ast.arg) and s.arg == n.id:
                return None
        out = []
        for v in vals:
            t = py_text(v, fn) if not (isinstance(v, ast.Name)
                                       and v.id == n.id) else None
            if t is None:
                return None
            out += t
        return out or None
    return None


def is_user_text(n):
    """Run-time text spliced into a would-be format."""
    if isinstance(n, ast.JoinedStr):
        return any(isinstance(v, ast.FormattedValue) for v in n.values)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        return any(is_user_text(x) or isinstance(
            x, (ast.Name, ast.Attribute, ast.Call, ast.Subscript))
            for x in (n.left, n.right))
    return False


def tuple_len(n):
    if isinstance(n, ast.Tuple):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return None
        return len(n.elts)
    return None


def check_python(rep, pkg):
    import string
    for fn, mod in sorted(pkg.mods.items()):
        parents = {}
        for p in ast.walk(mod.tree):
            for c in ast.iter_child_nodes(p):
                parents[c] = p

        def func_of(n):
            while n is not None and not isinstance(n, (
                    ast.FunctionDef, ast.AsyncFunctionDef)):
                n = parents.get(n)
            return n

        for n in ast.walk(mod.tree):
            f = None
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                f = func_of(n)
                ts = py_text(n.left, f)
                if ts is None:
                    if is_user_text(n.left):
                        rep.bad('py-format', f'{fn}::{qual(mod, n)}',
                                f'{fn}:{n.lineno}', 'run-time text is part '
                                f'of the format {ast.unparse(n.left)[:50]}')
                    continue
                for t in ts:
                    judge_py(rep, mod, fn, n, t, n.right)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute):
                f = func_of(n)
                if n.func.attr == 'format':
                    ts = py_text(n.func.value, f)
                    if ts is None:
                        if is_user_text(n.func.value):
                            rep.bad('py-format', f'{fn}::{qual(mod, n)}',
                                    f'{fn}:{n.lineno}', 'run-time text is '
                                    'part of the format')
                        continue
                    for t in ts:
                        judge_fmt(rep, mod, fn, n, t, string)
                elif n.func.attr in LOGM and 'log' in ast.unparse(
                        n.func.value).lower() and not isinstance(
                        n.func.value, ast.Constant) and 'np' != ast.unparse(
                        n.func.value):
                    a = n.args[1:] if n.func.attr == 'log' else n.args
                    if not a:
                        continue
                    lens = [star_len(x.value) if isinstance(x, ast.Starred)
                            else 1 for x in a[1:]]
                    if None in lens or isinstance(a[0], ast.Starred):
                        continue
                    ts = py_text(a[0], f)
                    if ts is None:
                        if is_user_text(a[0]) and len(a) > 1:
                            rep.bad('py-format', f'{fn}::{qual(mod, n)}',
                                    f'{fn}:{n.lineno}', 'run-time text is '
                                    'part of a logging format')
                        continue
                    for t in ts:
                        if len(a) == 1:
                            sp = (0, set())
                            if py_specs(t) != (0, set()) and py_specs(t):
                                rep.bad('py-format',
                                        f'{fn}::{qual(mod, n)}',
                                        f'{fn}:{n.lineno}',
                                        f'{t!r} is logged without the '
                                        'values of its directives')
                                continue
                        else:
                            sp = py_specs(t)
                        want = sum(lens)
                        if sp is not None and sp[1] and want == 1:
                            ok = True
                        else:
                            ok = sp is not None and sp[0] == want
                        rep.check(ok, 'py-format', f'{fn}::{qual(mod, n)}',
                                  f'{fn}:{n.lineno}',
                                  f'{t!r} is logged with {want} values')


def judge_py(rep, mod, fn, n, t, right):
    con, w = f'{fn}::{qual(mod, n)}', f'{fn}:{n.lineno}'
    sp = py_specs(t)
    if sp is None:
        rep.bad('py-format', con, w, f'malformed directive in {t!r}')
        return
    k = tuple_len(right)
    if sp[1]:
        if isinstance(right, ast.Dict) and all(
                isinstance(x, ast.Constant) for x in right.keys):
            miss = sp[1] - {x.value for x in right.keys}
            rep.check(not miss, 'py-format', con, w,
                      f'{t!r} lacks values for {sorted(miss)}')
        else:
            rep.undecided('py-format', con, w, 'mapping not literal')
        return
    if k is None:
        if isinstance(right, (ast.Constant, ast.JoinedStr, ast.BinOp,
                              ast.Compare)):
            k = 1
        elif sp[0] == 1:
            k = 1
        else:
            rep.undecided('py-format', con, w, 'number of values unknown')
            return
    rep.check(k == sp[0], 'py-format', con, w,
              f'{t!r} has {sp[0]} directives and {k} values')


def judge_fmt(rep, mod, fn, n, t, string):
    con, w = f'{fn}::{qual(mod, n)}', f'{fn}:{n.lineno}'
    try:
        fields = [x[1] for x in string.Formatter().parse(t)
                  if x[1] is not None]
        nested = [y[1] for x in string.Formatter().parse(t) if x[2]
                  for y in string.Formatter().parse(x[2])
                  if y[1] is not None]
    except ValueError as e:
        rep.bad('py-format', con, w, f'malformed format {t!r}: {e}')
        return
    pos, names, auto = set(), set(), 0
    for x in fields + nested:
        head = re.split(r'[.\[]', x, maxsplit=1)[0]
        if head == '':
            pos.add(auto)
            auto += 1
        elif head.isdigit():
            pos.add(int(head))
        else:
            names.add(head)
    lens = [star_len(a.value) if isinstance(a, ast.Starred) else 1
            for a in n.args]
    kws = [mapping_keys(k.value) if k.arg is None else {k.arg}
           for k in n.keywords]
    if None in lens or None in kws:
        rep.undecided('py-format', con, w, 'unpacked values')
        return
    kw = set().union(*kws) if kws else set()
    # an unpacked mapping may hold more than is printed
    extra = set().union(*[x for x, k in zip(kws, n.keywords)
                          if k.arg is None] or [set()])
    ok = pos == set(range(sum(lens))) and names <= kw and \
        kw - names <= extra
    rep.check(ok, 'py-format', con, w,
              f'{t!r} has fields {sorted(pos)} {sorted(names)} and is given '
              f'{sum(lens)} values and {sorted(kw)}')


def star_len(n):
    """Number of values an unpacked expression gives."""
    if isinstance(n, (ast.List, ast.Tuple)):
        return None if any(isinstance(x, ast.Starred) for x in n.elts) \
            else len(n.elts)
    if isinstance(n, (ast.ListComp, ast.GeneratorExp)) and len(
            n.generators) == 1 and not n.generators[0].ifs:
        it = n.generators[0].iter
        if isinstance(it, ast.Constant) and isinstance(it.value, str):
            return len(it.value)
        return star_len(it)
    if isinstance(n, ast.Subscript) and isinstance(
            n.value, ast.Attribute) and n.value.attr == 'bounds':
        return 2        # (minimum, maximum) along one axis
    return None


_GROUPS = {}


def mapping_keys(n):
    """Keys of an unpacked parameter group, by the documented template."""
    if isinstance(n, ast.Dict):
        if all(isinstance(k, ast.Constant) for k in n.keys):
            return {k.value for k in n.keys}
        return None
    if not (isinstance(n, ast.Subscript) and isinstance(
            n.slice, ast.Constant)):
        return None
    if not _GROUPS:
        import os
        p = os.path.join(cxx.PKG, 'resources',
                         'params_template.yml')
        top = None
        for ln in open(p, encoding='utf-8') if os.path.exists(p) else ():
            m = re.match(r'(\s*)(\w+):', ln)
            if m and not m[1]:
                top = m[2]
            elif m and top:
                _GROUPS.setdefault(top, set()).add(m[2])
    return _GROUPS.get(n.slice.value)


def check(rep, tier):
    prog = cxx.Program()
    rep.rule('format', 'every format is a literal whose directives match '
             'the arguments in number and type; scanned text fits')
    rep.rule('buffer', 'bounded writers are told at most the buffer\'s size')
    rep.rule('va-list', 'argument lists are started, consumed and ended '
             'once')
    rep.rule('py-format', 'Python formats match their values')
    fm = Formats(prog, rep)
    nsites = 0
    for s in fm.sites():
        nsites += 1
        short = s.name.split('::')[-1]
        for v, w, text in fm.judge(s):
            con = f'{s.fn.qual} {short}'
            if v == 'ok':
                rep.ok('format', con, w, text)
            elif v == 'undecided':
                rep.undecided('format', con, w, text)
            else:
                rep.bad('format', f'{con}: {text[:60]}', w, text)
    check_buffers(rep, fm)
    check_va(rep, fm)
    pkg = pymodel.Package()
    check_python(rep, pkg)
    rep.analysed = {'translation_units': [t.path for t in prog.tus],
                    'format_sites': nsites,
                    'calls': len(fm.calls),
                    'python_modules': sorted(pkg.mods)}
    rep.need('format', 60)
