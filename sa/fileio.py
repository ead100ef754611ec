"""What the C++ code does when a file cannot be opened, read or written.

Every opening of a file (`fopen', a file stream constructor or `open') is an
abstract *site*.  The function holding it is interpreted under the assumption
that this opening, reached along one particular chain of calls, fails: the
handle is then a null pointer, or the stream is in its failed state, and
everything else stays unknown.  Exceptions are followed to the handler that
takes them."""
from .absint import NOC, Domain, Interp, L, P, V

STREAMS = ('ifstream', 'ofstream', 'fstream')
BASES = {'exception': None, 'runtime_error': 'exception'}


class FP(P):
    """Null handle of the file whose opening failed."""


class Dom(Domain):
    def const(self, v, node):
        return None

    def unknown(self, node):
        return None

    def uninit(self, node):
        return None

    def initial(self, ai, loc, node):
        return V(NOC, None)

    def binop(self, op, a, b, node):
        return None

    def unop(self, op, a, node):
        return None

    def cast(self, v, typ, node):
        return None

    def join(self, a, b, node=None):
        return None

    def call(self, name, args, node):
        return None

    def compare(self, op, a, b, node):
        return None

    def loopvar(self, ai, loop, var, init):
        return None

    def index_key(self, v):
        return v.c if isinstance(v, V) and isinstance(v.c, int) else '*'


def is_stream(t):
    t = (t or '').replace('std::', '')
    return any(s in t for s in STREAMS)


def exc_name(t):
    t = (t or '').replace('const', '').replace('&', '').replace(
        'class ', '').strip()
    return t.split('<')[0].split('::')[-1].strip() or None


def bases(prog, t):
    out = [t]
    seen = set()
    while out[-1] not in seen:
        c = out[-1]
        seen.add(c)
        b = BASES.get(c, 0)
        if b == 0:
            b = None
            for q, rec in prog.records.items():
                if q.split('::')[-1] == c:
                    bs = rec[0].node.d.get('bases') or []
                    if bs:
                        b = exc_name(bs[0].get('type', {}).get('qualType'))
                    break
            else:
                b = 'exception'
        if b is None:
            break
        out.append(b)
    return out + ['exception']


class FailMixin:
    """`fail': chain of calls at which an opening (or a repository function
    in `outcomes') fails, or None to find out which chains there are."""

    def setup_fail(self, prog, fail=None, outcome=None, functions=()):
        self.base = len(self.frames)
        self.fail = fail
        self.outcome = outcome
        self.functions = functions
        self.sites = {}       # chain -> (kind, node, mode)
        self.trys = []
        self.escaped = []       # (exception, state, node)
        self.used = []          # (node, text): a failed handle is used
        self.ends = []          # (state, value) of the outermost function
        self.handling = []
        m = self.models
        m['fopen'] = m['std::fopen'] = self.f_fopen
        m['open'] = self.f_open
        m['fclose'] = m['std::fclose'] = self.f_fclose
        m['ferror'] = m['std::ferror'] = self.f_ferror
        for k in ('fftw_import_wisdom_from_filename',
                  'fftw_import_wisdom_from_file',
                  'fftw_export_wisdom_to_filename'):
            m[k] = self.f_wisdom
        for k in ('fail', 'bad', 'operator!'):
            m[k] = self.f_failed(True)
        for k in ('good', 'is_open', 'operator bool'):
            m[k] = self.f_failed(False)
        m['eof'] = self.f_eof
        for lv in ('error', 'warn', 'info', 'stat', 'debug', 'log', 'reset'):
            m['trv::sys::Logger::' + lv] = self.f_log
        m['trv::sys::exit_fatal'] = self.f_exit

    # -- files ------------------------------------------------------------
    def chain(self, n):
        return tuple(fr.node.loc() for fr in self.frames[self.base + 1:]
                     if fr.node is not None) + (n.loc(),)

    def site(self, n, kind, mode):
        c = self.chain(n)
        self.sites.setdefault(c, (kind, n, mode))
        if self.fail is not None and c == self.fail:
            self.st.set(('#failed',), V(1, None))
            return True
        return False

    def mode_of(self, n, i=1):
        for k in (n.kids[1:] if n.kind != 'CXXConstructExpr' else n.kids)[i:]:
            for x in k.walk():
                if x.kind == 'StringLiteral':
                    return (x.d.get('value') or '').strip('"')
                if x.kind == 'DeclRefExpr' and x.ref:
                    nm = x.ref.get('name')
                    if nm in ('in', 'out', 'app', 'trunc'):
                        return 'r' if nm == 'in' else 'w'
        return None

    def f_fopen(self, ai, n, args, this, decl):
        loc = self.new('file', n)
        if self.site(n, 'fopen', self.mode_of(n)):
            return FP(None)
        # the other openings are unconstrained
        self.st.set(loc + ('#mode',), V(self.mode_of(n) or 'w', None))
        return P(loc, V(0, None))

    def written(self, v):
        if isinstance(v, P) and v.loc is not None:
            m = self.st.get(v.loc + ('#mode',))
            return m is not None and isinstance(m.c, str) and \
                not m.c.startswith('r')
        return False

    def f_fclose(self, ai, n, args, this, decl):
        if args and self.written(args[0]) and self.site(n, 'fclose', 'w'):
            return V(-1, None)
        return V(NOC, None)

    def f_ferror(self, ai, n, args, this, decl):
        if args and self.written(args[0]) and self.site(n, 'ferror', 'w'):
            return V(1, None)
        return V(NOC, None)

    def f_wisdom(self, ai, n, args, this, decl):
        if self.site(n, 'wisdom', None):
            return V(0, None)
        return V(NOC, None)

    def f_open(self, ai, n, args, this, decl):
        if this is None:
            return V(NOC, None)
        c = n.kids[0].strip()
        t = self.ntype(c.kids[0].strip()) if c.kids else ''
        if not is_stream(t):
            return V(NOC, None)
        bad = self.site(n, 'stream', self.mode_of(n) or (
            'w' if 'ofstream' in t else 'r'))
        self.st.set(this + ('#io',), V(1 if bad else NOC, None))
        return V(NOC, None)

    def vardecl(self, k):
        t = k.desugared or k.type or ''
        if is_stream(t) and not t.rstrip().endswith(('&', '*')):
            loc = self.new(k.name or 'stream', k)
            self.fr.env[k.id] = loc
            for x in k.kids:
                c = x.strip()
                if c.kind in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') \
                        and c.kids and not is_stream(self.ntype(c.kids[0])):
                    for a in c.kids:
                        self.argval(a)
                    bad = self.site(k, 'stream',
                                    'w' if 'ofstream' in t else 'r')
                    self.st.set(loc + ('#io',), V(1 if bad else NOC, None))
            return
        super().vardecl(k)

    def f_mkdir(self, n, name, args):
        for a in args:
            self.argval(a)
        bad = self.site(n, 'mkdir', 'w')
        if not bad:
            return V(NOC, None)
        if name == 'mkdir':
            return V(-1, None)
        if len(args) < 2 or 'error_code' not in (
                self.ntype(args[-1].strip()) or ''):
            self.throw('filesystem_error', n)
            return V(NOC, None)
        self.st.set(self.lv(args[-1]) + ('#ec',), V(1, None))
        return V(False, None)

    def f_failed(self, val):
        def model(ai, n, args, this, decl):
            if decl is not None:
                return NotImplemented
            ec = self.st.get(this + ('#ec',)) if this else None
            if ec is not None and ec.c == 1:
                return V(not val, None)
            if this is None and args and isinstance(args[0], L):
                this = args[0].loc
            v = self.st.get(this + ('#io',)) if this else None
            if v is not None and v.c == 1:
                return V(val, None)
            return V(NOC, None)
        return model

    def f_eof(self, ai, n, args, this, decl):
        if decl is not None:
            return NotImplemented
        v = self.st.get(this + ('#io',)) if this else None
        if v is not None and v.c == 1:
            return V(False, None)
        return V(NOC, None)

    def e_CXXOperatorCallExpr(self, n):
        f, name = self.fr.tu.callee(n)
        if name == 'operator!' and f is None and len(n.kids) > 1 and \
                is_stream(self.ntype(n.kids[1].strip())):
            v = self.st.get(self.lv(n.kids[1]) + ('#io',))
            return V(True if v is not None and v.c == 1 else NOC, None)
        return super().e_CXXOperatorCallExpr(n)

    def e_CXXMemberCallExpr(self, n):
        f, name = self.fr.tu.callee(n)
        c = n.kids[0].strip()
        if f is None and c.kind == 'MemberExpr' and c.kids and (
                is_stream(self.ntype(c.kids[0].strip())) or 'error_code' in (
                    self.ntype(c.kids[0].strip()) or '')) and not c.d.get('isArrow'):
            this = self.lv(c.kids[0])
            vals = [self.argval(k) for k in n.kids[1:]]
            m = self.models.get(name)
            if self.st is None:
                return V(NOC, None)
            if m is not None:
                return m(self, n, vals, this, None)
            if name == 'value':
                return self.f_failed(False)(self, n, vals, this, None)
            return V(NOC, None)
        return super().e_CXXMemberCallExpr(n)

    def stream_failed(self, node):
        s = node.strip()
        if s.kind == 'CXXMemberCallExpr' and s.kids:
            s = s.kids[0].strip()
            if s.kind == 'MemberExpr' and s.kids:
                s = s.kids[0].strip()
        if s.kind == 'DeclRefExpr' and is_stream(self.ntype(s)):
            v = self.st.get(self.lv(s) + ('#io',))
            return v is not None and v.c == 1
        return False

    def f_log(self, ai, n, args, this, decl):
        b = decl.qual.split('::')[-1]
        if b in ('error', 'warn', 'info', 'log'):
            self.st.set(('#log',), V(1, None))
        if b in ('error', 'warn'):
            self.st.set(('#warn',), V(1, None))
        return V(NOC, None)

    def f_exit(self, ai, n, args, this, decl):
        self.st = None
        return V(NOC, None)

    # -- use of a failed handle --------------------------------------------
    def docall(self, n, f, name, args, this):
        q = f.qual if f is not None else name
        if q in self.functions:
            c = self.chain(n)
            self.sites.setdefault(c, (q, n, None))
            if self.fail == c:
                for a in args:
                    self.argval(a)
                self.st.set(('#failed',), V(1, None))
                if self.outcome[0] == 'throw':
                    self.throw(self.outcome[1], n)
                    return V(NOC, None)
                return V(self.outcome[1], None)
        if f is None and name in ('create_directories', 'create_directory',
                                  'mkdir'):
            return self.f_mkdir(n, name, args)
        m = self.models.get(q)
        if m is not None:
            def model(ai, n, vals, this, decl):
                self.check_use(n, name, vals)
                return m(ai, n, vals, this, decl)
            self.models[q] = model
            try:
                return super().docall(n, f, name, args, this)
            finally:
                self.models[q] = m
        return super().docall(n, f, name, args, this)

    def check_use(self, n, name, vals):
        if any(isinstance(v, FP) for v in vals):
            self.used.append((n, f'the null handle is passed to {name}()'))

    def ext_call(self, n, name, vals):
        self.check_use(n, name, vals)
        if name in ('exit', '_Exit', 'quick_exit', 'abort', 'terminate') \
                and self.st is not None:
            self.st = None
            return V(NOC, None)
        return super().ext_call(n, name, vals)

    # -- exceptions ---------------------------------------------------------
    def throw(self, t, n):
        if self.st is None:
            return
        if self.trys:
            self.trys[-1].append((t, self.st, n))
        else:
            self.escaped.append((t, self.st, n))
        self.st = None

    def e_CXXThrowExpr(self, n):
        t = None
        if n.kids and n.kids[0].kind != 'Null':
            for k in n.kids[0].walk():
                if k.kind in ('CallExpr', 'CXXMemberCallExpr'):
                    break
            t = exc_name(self.ntype(n.kids[0]))
            x = n.kids[0].strip()
            for k in x.kids:
                self.argval(k)
        else:
            t = self.handling[-1] if self.handling else None
        self.throw(t, n)
        return V(NOC, None)

    def s_CXXTryStmt(self, n):
        self.trys.append([])
        self.exec(n.kids[0])
        raised = self.trys.pop()
        out = self.st
        for t, st, node in raised:
            h = self.handler(n, t)
            self.st = st
            if h is None:
                self.throw(t, node)
                continue
            self.handling.append(t)
            for k in h.kids:
                if k.kind == 'CompoundStmt':
                    self.exec(k)
            self.handling.pop()
            out = self.join_state(out, self.st, n) if out is not None \
                else self.st
        self.st = out

    def handler(self, n, t):
        bs = bases(self.prog, t) if t else ['exception']
        for h in n.kids[1:]:
            if h.kind != 'CXXCatchStmt':
                continue
            d = next((k for k in h.kids if k.kind == 'VarDecl'), None)
            if d is None:
                return h
            if exc_name(d.type) in bs or exc_name(d.desugared) in bs:
                return h
        return None

    def on_leave(self, f, fr, val):
        super().on_leave(f, fr, val)
        if len(self.frames) == self.base:
            self.ends = list(fr.rets)


class FailInterp(FailMixin, Interp):
    def __init__(self, prog, **kw):
        super().__init__(prog, Dom())
        self.setup_fail(prog, **kw)

    def start(self, f, tu):
        args = []
        for p in f.params:
            t = p.desugared or p.type or ''
            loc = self.new('arg')
            c = self.cat(t)
            if c in ('num', 'str') or 'char' in t:
                args.append(V(NOC, None))
            elif t.rstrip().endswith('*'):
                args.append(P(loc, V(0, None)))
            else:
                args.append(L(loc))
        this = self.new('this') if f.cls else None
        v = self.invoke(f, tu, args, this, f.node)
        return v


def marker(st, key):
    v = st.get((key,))
    if v is None:
        return 0
    return v.c if v.c is not NOC else None
