"""Accesses to memory shared between the threads of a parallel region.

Every function that opens a parallel region is interpreted symbolically.
Inside a region repository calls are inlined, and each access to memory that
existed before the region (or is static or global) is recorded with its
symbolic location, its protection and the loop variables that tell concurrent
executions apart.  `judge` then decides which pairs of accesses can touch the
same location from two threads."""
import os
import re

from .absint import NOC, L, Lam, P, V, clean
from .cxx import REPO
from .sym import INTS, Poly, SymDomain, SymInterp

READONLY = {
    'size', 'empty', 'length', 'capacity', 'begin', 'end', 'cbegin', 'cend',
    'rbegin', 'rend', 'data', 'at', 'back', 'front', 'c_str', 'str', 'find',
    'rfind', 'count', 'substr', 'real', 'imag', 'operator[]', 'operator()',
    'operator bool', 'operator==', 'operator!=', 'compare', 'get',
    'find_first_of', 'find_last_of', 'good', 'fail', 'eof', 'is_open',
    'max_size', 'operator*', 'operator->', 'lower_bound', 'upper_bound',
    'what', 'first', 'second', 'value', 'has_value', 'load', 'contains'}
SHAPE = {'size', 'empty', 'length', 'capacity'}
ATOMIC_T = ('atomic<', 'std::atomic')
UNSAFE = {'rand', 'srand', 'strtok', 'asctime', 'ctime', 'gmtime',
          'localtime', 'setenv', 'putenv', 'unsetenv', 'strerror',
          'setlocale', 'drand48', 'lgamma'}
ALGO_W = {'fill', 'copy', 'copy_n', 'sort', 'stable_sort', 'iota', 'reverse',
          'transform', 'fill_n', 'swap', 'memset', 'memcpy', 'memmove',
          'partial_sum', 'rotate', 'shuffle', 'generate', 'swap_ranges'}
PURE = {'strstr', 'strchr', 'strrchr', 'strpbrk', 'memchr', 'getenv'}
SERIAL = {'OMPCriticalDirective', 'OMPSingleDirective', 'OMPMasterDirective',
          'OMPMaskedDirective', 'OMPOrderedDirective'}
TID = ('tid',)


class RaceDomain(SymDomain):
    def initial(self, ai, loc, node):
        last = next((x for x in reversed(loc) if isinstance(x, str)), '')
        if 'ngrid' in last and isinstance(loc[-1], int):
            return V(NOC, Poly.atom(('in', 'ngrid', loc[-1])))
        return V(NOC, Poly.atom(('in',) + tuple(loc)))

    def join(self, a, b, node=None):
        if a is None or b is None:
            return None
        if a == b:
            return a
        if a.size() + b.size() > 40:
            return Poly.atom(('int', Poly.atom(('joined',)))) if any(
                x[0] == 'int' for x in every(a) | every(b)) else \
                self.fresh('join')
        return Poly.atom(('join', a, b))

    def cast(self, v, typ, node):
        if v.d is None and typ in INTS:
            src = clean(node.kids[0].desugared or node.kids[0].type or ''
                        ) if node.kids else ''
            if src in ('double', 'float', 'long double'):
                return Poly.atom(('int', self.fresh('f')))
        return super().cast(v, typ, node)

    def loopvar(self, ai, loop, var, init):
        a = ('lv', loop.loc(), var)
        if not (var or '').endswith('#end'):
            ai.enter_var(loop, var, init, a)
        return Poly.atom(a)


def every(x, out=None):
    """All atoms in a polynomial or location, nested ones included."""
    out = set() if out is None else out
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                every(a, out)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str):
            out.add(x)
        for y in x:
            if isinstance(y, (tuple, Poly)):
                every(y, out)
    return out


class Region:
    def __init__(self, node, start, func):
        self.node, self.start, self.func = node, start, func
        self.dist = frozenset({TID})
        self.phase = 0
        self.acc = {}
        self.calls = {}


class Lams(Lam):
    """One of several functions."""

    def __init__(self, opts):
        super().__init__(opts[0].node, opts[0].env, opts[0].this)
        self.opts = opts


_SRC = {}


def pragma(n):
    """Text of the directive from the source."""
    p = n.file or ''
    if p not in _SRC:
        try:
            with open(p, encoding='utf-8') as f:
                _SRC[p] = f.read().split('\n')
        except OSError:
            _SRC[p] = []
    ls, i = _SRC[p], (n.line or 0) - 1
    if not 0 <= i < len(ls):
        return ''
    t = ls[i]
    while t.rstrip().endswith('\\') and i + 1 < len(ls):
        i += 1
        t = t.rstrip()[:-1] + ' ' + ls[i]
    return t


def pragmas(n):
    """Text of the directive and of its alternatives in the same group of
    preprocessor lines (one of them per compiler)."""
    first = pragma(n)
    ls, i = _SRC[n.file or ''], (n.line or 0) - 1
    out = [first]
    for step in (-1, 1):
        j = i + step
        while 0 <= j < len(ls) and (
                ls[j].lstrip().startswith('#') or not ls[j].strip() or
                ls[j - 1].rstrip().endswith('\\')):
            t = ls[j].strip()
            if re.match(r'#\s*pragma\s+omp\b', t):
                while t.endswith('\\') and j + 1 < len(ls) and step > 0:
                    j += 1
                    t = t[:-1] + ' ' + ls[j].strip()
                k = j
                while step < 0 and t.endswith('\\') and k + 1 < len(ls):
                    k += 1
                    t = t[:-1] + ' ' + ls[k].strip()
                out.append(t)
            j += step
    return [t for t in out if ('parallel' in t) == ('parallel' in first)
            and re.search(r'\bfor\b', t) is not None
            or t is first or re.search(r'\bfor\b', first) is None
            and re.search(r'\bfor\b', t) is None
            and 'parallel' in t and 'parallel' in first]


def clause(text, names):
    """Variables listed in the clauses of these names."""
    out = []
    for m in re.finditer(r'\b(%s)\s*\(([^()]*)\)' % '|'.join(names), text):
        b = m.group(2).split(':')[-1]
        out += [re.sub(r'\[.*', '', x).strip() for x in b.split(',')]
    return [x for x in out if x]


class RaceInterp(SymInterp):
    max_unroll = 8

    def __init__(self, prog):
        super().__init__(prog, RaceDomain())
        self.models = {}
        self.regions = []
        self.done = []
        self.prot = None
        self.atomic = None
        self.distfor = {}
        self.vars = {}        # loop variable atom -> number of values

    # -- memory -----------------------------------------------------------
    def private(self, blk, reg):
        m = re.search(r'#(\d+)$', blk)
        return bool(m) and int(m.group(1)) > reg.start

    def rec(self, rw, loc, node):
        if not self.regions or self.st is None:
            return
        if any(isinstance(x, str) and x.startswith('#') for x in loc[1:]):
            return
        for reg in self.regions:
            if self.private(loc[0], reg):
                continue
            if self.atomic is not None:
                self.atomic.append((reg, rw, loc, node))
                continue
            self.put(reg, rw, loc, self.prot, node)

    def put(self, reg, rw, loc, prot, node):
        facts = frozenset(f[1] for f in self.st.facts) if self.st.facts \
            else frozenset()
        k = (loc, rw, prot, reg.dist, reg.phase, facts)
        if k not in reg.acc:
            at = node.loc() if node is not None and hasattr(node, 'loc') \
                else reg.node.loc()
            if at in ('', '?'):
                at = next((f.node.loc() for f in reversed(self.frames)
                           if f.node is not None and f.node.loc()), '?')
            reg.acc[k] = at

    def read(self, loc, node=None):
        if self.regions:
            self.rec('r', loc, node)
        return super().read(loc, node)

    def write(self, loc, v, node=None):
        if self.regions:
            self.rec('w', loc, node)
        super().write(loc, v, node)

    def copy_tree(self, src, dst):
        if self.regions:
            self.rec('r', src, None)
            self.rec('w', dst, None)
        super().copy_tree(src, dst)

    def rvalue(self, loc, n):
        v = super().rvalue(loc, n)
        if isinstance(v, V) and self.cat(self.ntype(n)) == 'ptr':
            a = v.d.only_atom() if isinstance(v.d, Poly) else None
            if a is not None and a[0] == 'in' and len(a) > 1:
                return P((self.hname(a[1:]),), V(0, Poly()))
            return P((self.hname(loc),), V(0, Poly()))
        return v

    def hname(self, loc):
        m = re.search(r'#\d+$', loc[0])
        return 'h:' + show(loc) + (m.group(0) if m else '')

    def e_CXXDeleteExpr(self, n):
        p = self.ev(n.kids[0])
        if isinstance(p, P) and p.loc is not None:
            self.rec('w', p.loc, n)
        return None

    def join_val(self, a, b, node=None):
        if isinstance(a, Lam) and isinstance(b, Lam) and a is not b:
            o = []
            for x in (a, b):
                for y in (x.opts if isinstance(x, Lams) else [x]):
                    if not any(y.node is z.node and y.env is z.env
                               for z in o):
                        o.append(y)
            return Lams(o) if len(o) > 1 else o[0]
        if isinstance(a, P) and isinstance(b, P) and a.loc is not None and \
                b.loc is not None and a.loc != b.loc:
            return P(('unk:join',))
        return super().join_val(a, b, node)

    # -- calls ------------------------------------------------------------
    def call_lambda(self, lam, args, n):
        if not isinstance(lam, Lams):
            return super().call_lambda(lam, args, n)
        s0, out, val = self.st, None, None
        for x in lam.opts:
            self.st = s0.fork()
            v = super().call_lambda(x, args, n)
            out = self.join_state(out, self.st, n)
            val = v if val is None else self.join_val(val, v, n)
        self.st = out
        return val

    def e_CXXOperatorCallExpr(self, n):
        f, name = self.fr.tu.callee(n)
        if self.regions and name == 'operator()' and f is None:
            v = self.ev(n.kids[1])
            if not isinstance(v, Lam):
                try:
                    v = self.read(self.lv(n.kids[1]))
                except Exception:
                    pass
            if not isinstance(v, Lam) and 'function<' in self.ntype(
                    n.kids[1]):
                self.regions[-1].calls.setdefault(
                    ('unknown function', None), n.loc())
        if self.regions and f is None and name in (
                'operator=', 'operator+=', 'operator++', 'operator--',
                'operator-='):
            t = self.ntype(n.kids[1])
            if 'atomic<' in t:
                self.ev(n.kids[-1])
                return V(NOC, None)
        return super().e_CXXOperatorCallExpr(n)

    def ret_type(self, f):
        t = f.node.type or ''
        return t.split('(')[0].strip()

    def docall(self, n, f, name, args, this):
        if name == 'omp_get_thread_num':
            return V(NOC, Poly.atom(TID))
        if not self.regions and f is not None and \
                self.prog.definition(f) is not None:
            rt = self.ret_type(f)
            if not (rt.endswith(('&', '*')) or 'function<' in rt):
                self.skip(f, args, this)
                c = self.cat(rt)
                if c in ('rec', 'vec', 'arr'):
                    return L(self.new('ret:' + (f.name or ''), n))
                return V(NOC, Poly.atom(('in', 'ret', f.qual, n.loc())))
        return super().docall(n, f, name, args, this)

    def skip(self, f, args, this):
        """Serial code: forget what the call may change."""
        for p, a in zip(f.params, args):
            t = (p.desugared or p.type or '').strip()
            if a.kind == 'CXXDefaultArgExpr':
                continue
            if t.endswith('&') and not t.startswith('const'):
                self.clear_tree(self.lv(a))
            elif t.endswith('*'):
                v = self.ev(a)
                if isinstance(v, P) and v.loc is not None and \
                        not t.startswith('const'):
                    self.clear_tree(v.loc)
            else:
                self.ev(a)
        if this is not None:
            self.clear_tree(this)

    def construct(self, loc, t, args, n):
        if not self.regions:
            for a in args:
                if a.kind != 'CXXDefaultArgExpr':
                    self.ev(a)
            return
        super().construct(loc, t, args, n)

    def ext_call(self, n, name, vals):
        if self.regions:
            reg = self.regions[-1]
            if name in UNSAFE or name and (
                    name.startswith('fftw_') and not name.startswith((
                        'fftw_execute', 'fftw_malloc', 'fftw_alloc',
                        'fftw_free'))):
                if self.prot is None:
                    reg.calls.setdefault((name, False), n.loc())
            sig = self.sig(n)
            for i, v in enumerate(vals):
                if isinstance(v, L):
                    v = P(v.loc)
                if not isinstance(v, P) or v.loc is None or name in PURE:
                    continue
                loc = v.loc
                t = sig[i] if sig and i < len(sig) else ''
                if name in ALGO_W:
                    w = name not in ('copy', 'copy_n', 'transform') or i >= 2
                    if name in ('memcpy', 'memmove'):
                        w = i == 0
                    self.rec('w' if w else 'r', loc + ('<all>',), n)
                elif t.endswith('*') and not t.startswith('const') and \
                        'FILE' not in t or (
                        t.endswith('&') and not t.startswith('const')
                        and not t.endswith('&&')):
                    if not (t.endswith('&') and ('stream' in t)):
                        self.rec('w', loc, n)
                else:
                    self.rec('r', loc, n)
        if self.regions and name and 'alloc' in name:
            return P(self.new(name, n), V(0, Poly()))
        s = self.atomic, self.prot
        if name in ALGO_W and self.regions:
            return V(NOC, self.dom.unknown(n))
        r = super().ext_call(n, name, vals)
        self.atomic, self.prot = s
        return r

    def sig(self, n):
        """Parameter types of the called function."""
        c = n.kids[0].strip() if n.kids else None
        t = (c.ref or {}).get('type', {}) if c is not None and c.ref else {}
        q = t.get('qualType', '') if isinstance(t, dict) else ''
        m = re.match(r'[^(]*\((.*)\)', q)
        if not m:
            return None
        out, d, cur = [], 0, ''
        for ch in m.group(1):
            if ch in '(<[':
                d += 1
            elif ch in ')>]':
                d -= 1
            if ch == ',' and not d:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip():
            out.append(cur.strip())
        return out

    def obj_method(self, n, name, this, vals):
        if self.regions:
            c = n.kids[0].strip()
            t = self.ntype(c.kids[0]) if c.kids else ''
            if 'atomic<' in t or 'mutex' in t:
                return V(NOC, None)
            if name in SHAPE:
                self.rec('r', this + ('<shape>',), n)
            elif name not in READONLY:
                self.rec('w', this + ('<shape>',), n)
                if self.prot is None and self.atomic is None and \
                        name in ('push_back', 'emplace_back', 'resize',
                                 'assign', 'clear'):
                    return V(NOC, self.dom.unknown(n))
            if name in ('begin', 'data', 'cbegin', 'end', 'cend', 'rbegin'):
                return P(this, V(0, Poly()))
        return super().obj_method(n, name, this, vals)

    def scalar_method(self, n, name, v, args, base):
        if self.regions and name not in READONLY:
            try:
                loc = self.lv(base)
            except Exception:
                loc = None
            if loc is not None:
                self.rec('w', loc, n)
        return super().scalar_method(n, name, v, args, base)

    # -- statements -------------------------------------------------------
    def vardecl(self, k):
        if k.d.get('storageClass') == 'static' and not k.d.get('tls'):
            self.fr.env[k.id] = ('static:' + (k.name or '') + '#0',)
            return
        super().vardecl(k)

    def enter_var(self, loop, var, init, atom):
        """Number of values of a loop variable."""
        size = None
        cond = loop.kids[2] if len(loop.kids) > 2 else None
        c = cond.strip() if cond is not None and cond.kids else None
        if c is not None and c.kind == 'BinaryOperator' and c.op in (
                '<', '<=', '!=', '>', '>='):
            i = self.dom.p(init)
            a, b = c.kids
            up = c.op in ('<', '<=', '!=')
            e = self.dom.p(self.ev(b)) if up else None
            if e is not None and i is not None:
                size = e - i
                if c.op == '<=':
                    size = size + Poly.num(1)
        self.vars[atom] = size
        if loop.id in self.distfor and self.regions:
            reg = self.distfor[loop.id]
            reg.dist = (reg.dist - {TID}) | {atom}

    def const_cond(self, cond):
        return cond.id not in self.distcond()

    def distcond(self):
        return {getattr(r, 'conds', {}).get(i) for i, r in
                self.distfor.items()}

    def havoc(self, body):
        ids = {}
        for k in body.walk():
            t = None
            if k.kind in ('BinaryOperator', 'CompoundAssignOperator') and (
                    k.kind[0] == 'C' or k.op == '='):
                t = k.kids[0].strip()
            elif k.kind == 'UnaryOperator' and k.op in ('++', '--'):
                t = k.kids[0].strip()
            elif k.kind == 'CXXOperatorCallExpr' and len(k.kids) > 1 and (
                    (k.kids[0].strip().ref or {}).get('name', '') in (
                        'operator=', 'operator+=', 'operator++',
                        'operator-=', 'operator*=', 'operator/=')):
                t = k.kids[1].strip()
            if t is not None and t.kind == 'DeclRefExpr' and t.ref:
                ids[t.ref.get('id')] = t
        for i, t in ids.items():
            loc = self.fr.env.get(i)
            if loc is None or len(loc) != 1:
                continue
            v = self.st.get(loc)
            if isinstance(v, P) and v.loc is not None:
                self.st.set(loc, P(v.loc, V(NOC, self.dom.fresh('phi'))))
            elif isinstance(v, V):
                self.st.set(loc, V(NOC, Poly.atom(
                    ('phi', t.ref.get('name'), body.loc()))))

    def abstract_loop(self, n, cond, inc, body, ctx):
        lv = self.loop_var(n)
        keep = None
        if lv is not None and lv[0] in self.fr.env:
            keep = (self.fr.env[lv[0]], self.st.get(self.fr.env[lv[0]]))
        self.havoc(body)
        if keep is not None and keep[1] is not None:
            self.st.set(*keep)
        if lv is not None and lv[0] in self.fr.env:
            loc = self.fr.env[lv[0]]
            if self.regions:      # the loop itself changes its variable
                self.rec('w', loc, n)
        old = self.regions[-1].dist if self.regions else None
        super().abstract_loop(n, cond, inc, body, ctx)
        if old is not None and self.regions:
            self.regions[-1].dist = old

    def s_WhileStmt(self, n):
        self.havoc(n)
        super().s_WhileStmt(n)

    def s_DoStmt(self, n):
        self.havoc(n)
        super().s_DoStmt(n)

    def s_CXXForRangeStmt(self, n):
        decls = [k for k in n.kids if k.kind == 'DeclStmt']
        body = n.kids[-1]
        var = decls[-1].kids[0] if decls else None
        rng = decls[0].kids[0] if decls else None
        if var is None or rng is None or not rng.kids or self.cat(
                self.ntype(rng.kids[-1])) not in ('vec', 'arr'):
            super().s_CXXForRangeStmt(n)
            return
        ctx = self.loop_ctx()
        loc = self.lv(rng.kids[-1])
        a = ('lv', n.loc(), 'range')
        self.vars[a] = None
        old = self.regions[-1].dist if self.regions else None
        if n.id in self.distfor and self.regions:
            reg = self.distfor[n.id]
            reg.dist = (reg.dist - {TID}) | {a}
        el = loc + (('sym', Poly.atom(a)),)
        t = var.desugared or var.type or ''
        self.havoc(body)
        if t.rstrip().endswith('&'):
            self.fr.env[var.id] = el
        else:
            l2 = self.new(var.name or 'it', var)
            self.fr.env[var.id] = l2
            if self.cat(t) in ('rec', 'vec', 'arr'):
                self.copy_tree(el, l2)
            else:
                self.write(l2, self.read(el, n), n)
        try:
            self.run_body(body, ctx)
            for s in ctx['break']:
                self.st = self.join_state(self.st, s, n)
        finally:
            self.fr.loops.pop()
            if old is not None:
                self.regions[-1].dist = old

    def on_cond(self, node, state, positive):
        if not self.regions or not positive:
            return
        c = node.strip()
        if c.kind == 'BinaryOperator' and c.op == '&&':
            for k in c.kids:
                self.on_cond(k, state, positive)
            return
        if c.kind != 'BinaryOperator' or c.op != '==':
            return
        a, b = (self.dom.p(self.ev(k)) for k in c.kids)
        if a is None or b is None:
            return
        lin = linear(a - b, set(self.vars) | {TID})
        if lin is not None and len(lin[0]) == 1:
            state.facts = tuple(state.facts) + (('eq', next(iter(lin[0]))),)

    # -- directives -------------------------------------------------------
    def body_of(self, n):
        for k in n.walk():
            if k.kind == 'CapturedDecl' and k.kids:
                return k.kids[0]
        return next((k for k in n.kids if k.kind.endswith(
            ('Stmt', 'Expr', 'Operator'))), None)

    def s_omp(self, n):
        k = n.kind
        if k == 'OMPAtomicDirective':
            if not self.regions:
                super().s_omp(n)
                return
            old, self.atomic = self.atomic, []
            super().s_omp(n)
            got, self.atomic = self.atomic, old
            w = {x[2] for x in got if x[1] == 'w'}
            rd = 'read' in pragma(n).split('atomic')[-1]
            for reg, rw, loc, node in got:
                p = 'atomic' if loc in w or rd else None
                if self.st is not None:
                    self.put(reg, rw, loc, self.prot or p, node)
            return
        if k in SERIAL:
            old = self.prot
            t = pragma(n)
            if k == 'OMPCriticalDirective':
                m = re.search(r'critical\s*\(\s*(\w+)', t)
                self.prot = 'critical ' + (m.group(1) if m else '')
            else:
                self.prot = k[3:-9].lower()
            super().s_omp(n)
            self.prot = old
            if k == 'OMPSingleDirective' and 'nowait' not in t and \
                    self.regions:
                self.regions[-1].phase += 1
            return
        if k == 'OMPBarrierDirective':
            if self.regions:
                self.regions[-1].phase += 1
            return
        par = 'Parallel' in k
        loop = 'For' in k
        if not par and not loop or not par and not self.regions:
            super().s_omp(n)
            return
        text = pragma(n)
        names = None
        for t in pragmas(n):
            c = set(clause(t, ['private', 'firstprivate', 'lastprivate',
                               'linear', 'reduction']))
            names = c if names is None else names & c
        first = set(clause(text, ['firstprivate', 'lastprivate', 'linear']))
        if par:
            reg = Region(n, self.nblk, self.fr.func.qual)
            self.regions.append(reg)
        reg = self.regions[-1]
        saved = {}
        for x in n.walk():
            if x.kind == 'DeclRefExpr' and x.ref and \
                    x.ref.get('name') in names:
                i = x.ref.get('id')
                loc = self.fr.env.get(i)
                if loc is None or i in saved:
                    continue
                saved[i] = loc
                new = self.new(x.ref.get('name'), x)
                self.fr.env[i] = new
                if x.ref.get('name') in first:
                    v = self.st.get(loc)
                    if v is not None:
                        self.st.set(new, v)
        conds = {}
        if loop:
            m = re.search(r'collapse\s*\(\s*(\d+)', text)
            body, c = self.body_of(n), int(m.group(1)) if m else 1
            while body is not None and c > 0:
                while body.kind in ('CompoundStmt', 'CapturedStmt') and \
                        body.kids:
                    body = next((x for x in body.kids if x.kind in (
                        'ForStmt', 'CXXForRangeStmt', 'CompoundStmt')),
                        body.kids[0])
                if body.kind not in ('ForStmt', 'CXXForRangeStmt'):
                    break
                self.distfor[body.id] = reg
                if body.kind == 'ForStmt':
                    conds[body.id] = body.kids[2].id
                    lv = self.loop_var(body)
                    if lv is not None and lv[0] in self.fr.env and \
                            lv[0] not in saved:
                        saved[lv[0]] = self.fr.env[lv[0]]
                        self.fr.env[lv[0]] = self.new(lv[1], body)
                body = body.kids[-1]
                c -= 1
        reg.conds = dict(getattr(reg, 'conds', {}), **conds)
        dist = reg.dist
        super().s_omp(n)
        reg.dist = dist
        if loop and not par and 'nowait' not in text:
            reg.phase += 1
        for i, loc in saved.items():
            self.fr.env[i] = loc
            if self.st is not None and len(loc) == 1:
                self.st.set(loc, V(NOC, self.dom.fresh('region')))
        if par:
            self.regions.pop()
            self.done.append(reg)
            if self.st is not None:
                self.st.facts = ()

    # -- entry ------------------------------------------------------------
    def run_entry(self, f, tu):
        args = []
        for p in f.params:
            t = p.desugared or p.type or ''
            c = self.cat(t)
            loc = (f'p:{p.name}',)
            if c == 'ptr' or t.rstrip().endswith(']'):
                args.append(P((f'h:{p.name}',), V(0, Poly())))
            elif c in ('rec', 'vec', 'arr') or t.rstrip().endswith('&'):
                args.append(L(loc))
            else:
                args.append(V(NOC, Poly.atom(('in', p.name or '?'))))
        self.invoke(f, tu, args, ('this',), f.node)


def show(loc):
    s = loc[0]
    s = re.sub(r'#\d+$', '', s[2:] if s[:2] in ('p:', 'g:', 'h:') else s)
    for x in loc[1:]:
        if isinstance(x, tuple):
            s += f'[{x[1]!r}]'
        elif isinstance(x, int) or x == '*':
            s += f'[{x}]'
        else:
            s += ('.' if x[:1] not in '<@' else ' ') + x
    return s


def base(loc):
    """Printable name without indices."""
    s = re.sub(r'\[[^\]]*\]', '', show(loc))
    return re.sub(r'\[.*', '', s)


# -- judgement -------------------------------------------------------------
def linear(p, vs):
    """({var: coefficient}, rest) if p is linear in the loop variables."""
    co, rest = {}, Poly()
    for m, c in p.t.items():
        here = [(a, e) for a, e in m if a in vs]
        other = [(a, e) for a, e in m if a not in vs]
        if any(vs & every(a) for a, e in other):
            return None
        if not here:
            rest = rest + Poly({m: c})
            continue
        if len(here) > 1 or here[0][1] != 1:
            return None
        v = here[0][0]
        co[v] = co.get(v, Poly()) + Poly({tuple(other): c})
    return {v: c for v, c in co.items() if c.t}, rest


def plain(p):
    """Made of constants and mesh numbers only."""
    return all(a[:2] == ('in', 'ngrid') for a in every(p))


def chain(co, sizes, target=None):
    """An order of the variables in which each coefficient steps over all
    values of the variables before it.  True, False (cannot) or None."""
    vs = list(co)
    if len(vs) == 1:
        return True
    from itertools import permutations
    if len(vs) > 5:
        return None
    soft = False
    for o in permutations(vs):
        ok = True
        for a, b in zip(o, o[1:]):
            sz = sizes.get(a)
            if sz is None:
                ok, soft = False, True
                break
            need = co[a] * sz
            if need == co[b] or need == -co[b]:
                continue
            x, y = need.const(), co[b].const()
            if x is not None and y is not None:
                if abs(y) >= abs(x):
                    continue
            elif not (plain(need) and plain(co[b])):
                soft = True
            ok = False
            break
        if ok:
            return True
    return None if soft else False


def classify(p, vs):
    """Why an index is not linear: 'data' or 'unknown'."""
    return 'data' if any(a[0] == 'int' for a in every(p)) else 'unknown'


def loaded(p, vs):
    """p is one element of a table indexed by a loop variable."""
    a = p.only_atom()
    return a is not None and a[0] == 'in' and a not in vs


def unique(loc, dist, facts, sizes):
    """Is the location different in every concurrent execution?"""
    vs = set(sizes) | {TID}
    det, soft, hard = set(facts), False, False
    for x in loc[1:]:
        if x == '*':
            soft = True
        if not (isinstance(x, tuple) and x[0] == 'sym'):
            if isinstance(x, str) and x.startswith('@'):
                soft = True
            continue
        lin = linear(x[1], vs)
        if lin is None or (not lin[0] and any(
                a[0] in ('fresh', 'phi', 'join', 'int', 'mod', 'idiv', 'bit')
                for a in every(x[1]))):
            if classify(x[1], vs) == 'data':
                hard = True
            else:
                soft = True
            continue
        if not lin[0]:
            continue
        c = chain(lin[0], sizes)
        if c:
            det |= set(lin[0])
        elif c is None:
            soft = True
        else:
            hard = True
    if TID in det or dist <= det:
        return True
    if loc[0].startswith('unk:'):
        return None
    return None if soft and not hard else False


def apart(a, b, sizes):
    """Locations a and b of two concurrent executions: True if they never
    meet, 'same' if identical expressions, False if they can meet, None if
    unknown."""
    vs = set(sizes) | {TID}
    soft = False
    same = True
    for x, y in zip(a[1:], b[1:]):
        if x == y and x != '*':
            continue
        same = False
        if x in ('<shape>', '<all>') or y in ('<shape>', '<all>'):
            if '<shape>' in (x, y) and not ('<all>' in (x, y)):
                o = y if x == '<shape>' else x
                if isinstance(o, str) and o not in ('*', '<shape>'):
                    return True
            return False if not soft else None
        if x == '*' or y == '*':
            soft = True
            continue
        if isinstance(x, str) or isinstance(y, str):
            if isinstance(x, str) and isinstance(y, str):
                if x[:1] == '@' or y[:1] == '@':
                    soft = True
                    continue
                return True
            soft = True
            continue
        if isinstance(x, int) and isinstance(y, int):
            return True
        p = Poly.num(x) if isinstance(x, int) else x[1]
        q = Poly.num(y) if isinstance(y, int) else y[1]
        lp, lq = linear(p, vs), linear(q, vs)
        if lp is None or lq is None:
            bad = [z for z, l in ((p, lp), (q, lq)) if l is None]
            if len(bad) == 1 and loaded(bad[0], vs):
                continue        # an element chosen by a table
            if classify(bad[0], vs) != 'data':
                soft = True
            continue
        # different residues modulo the step of every variable
        cs = [c.const() for c in list(lp[0].values()) + list(lq[0].values())]
        d = (lp[1] - lq[1]).const()
        steps = [content(c) for c in list(lp[0].values()) +
                 list(lq[0].values())]
        if d is not None and d.denominator == 1 and steps and None not in \
                steps:
            from math import gcd
            g = 0
            for s in steps:
                g = gcd(g, s)
            if g and int(d) % g:
                return True
        r = residual(lp, lq, sizes)
        if r == 'block':
            return 'same'
        if not (all(c is not None for c in cs) and d is not None) and not (
                plain(p) or plain(q)):
            if lp[0].keys() != lq[0].keys():
                soft = True
    if same:
        return 'same' if len(a) == len(b) else 'prefix'
    return None if soft else False


def content(c):
    """Greatest integer dividing every coefficient."""
    from math import gcd
    g = 0
    for v in c.t.values():
        if v.denominator != 1:
            return None
        g = gcd(g, abs(int(v)))
    return g


def residual(lp, lq, sizes):
    """Both indices stay in the block of their own iteration."""
    if lp[1] != lq[1]:
        return None
    common = {v for v in lp[0] if lq[0].get(v) == lp[0][v]}
    rest_p = {v: c for v, c in lp[0].items() if v not in common}
    rest_q = {v: c for v, c in lq[0].items() if v not in common}
    if not common or len(rest_p) > 1 or len(rest_q) > 1:
        return None
    for rest in (rest_p, rest_q):
        for v, c in rest.items():
            sz = sizes.get(v)
            if sz is None or not any(c * sz == lp[0][u] for u in common):
                return None
    return 'block'


def judge(reg, sizes):
    """[(rule, ok, construct, where, detail)]"""
    out = []
    acc = [k + (w,) for k, w in reg.acc.items()]
    by = {}
    for a in acc:
        by.setdefault(a[0][0], []).append(a)
    for (name, ok), at in sorted(reg.calls.items(), key=str):
        out.append(('call', ok, f'{reg.func}: {name}', at,
                    'not safe to call from several threads' if ok is False
                    else 'the called function is not known'))
    for blk, accs in by.items():
        ws = [a for a in accs if a[1] == 'w']
        if not ws:
            continue
        for loc, _, prot, dist, phase, facts, at in ws:
            cons = f'{reg.func}: {base(loc)}'
            if prot is None:
                u = unique(loc, dist, facts, sizes)
                out.append(('write', u, cons, at,
                            f'{show(loc)} is written by several threads '
                            'without protection' if u is False else
                            f'{show(loc)}: cannot tell whether every '
                            'iteration has its own location'))
                if u is not True:
                    continue
            else:
                out.append(('write', True, cons, at, ''))
            for b in accs:
                if b[4] != phase or b[0] == loc and b[1] == 'w' and \
                        b[2] == prot:
                    continue
                if prot is not None and b[2] is not None:
                    if b[2] == prot or {prot, b[2]} & {'single', 'master',
                                                       'masked'} == {prot}:
                        continue
                s = apart(loc, b[0], sizes)
                if s is True:
                    continue
                if s in ('same', 'prefix'):
                    if prot is None and b[2] is None and b[3] == dist:
                        continue        # the same iteration
                    u = unique(loc if len(loc) > len(b[0]) else b[0],
                               dist, facts | b[5], sizes)
                    if u is True and b[3] == dist:
                        continue
                    s = False if u is False or b[3] != dist else None
                how = 'written' if b[1] == 'w' else 'read'
                out.append((
                    'write' if b[1] == 'w' else 'read', s, cons, b[6],
                    f'{show(b[0])} is {how} '
                    + (f'({b[2]}) ' if b[2] else '') +
                    f'while another thread writes {show(loc)}'
                    + (f' ({prot})' if prot else '') + f' ({at})'))
        for a in accs:
            if a[1] == 'r':
                out.append(('read', True, f'{reg.func}: {base(a[0])}', a[6],
                            ''))
    return out


def entries(prog):
    """Functions that open a parallel region."""
    out = []
    for f, tu in prog.funcs.values():
        if f.body is None:
            continue
        if any(n.kind.startswith('OMP') and 'Parallel' in n.kind
               for n in f.body.walk()):
            out.append((f, tu))
    return out


def analyse(prog, key):
    f, tu = prog.funcs[key]
    ai = RaceInterp(prog)
    ai.run_entry(f, tu)
    rows, nacc = [], 0
    for reg in ai.done:
        rows += judge(reg, ai.vars)
        nacc += len(reg.acc)
    return rows, len(ai.done), nacc, {r.node.loc() for r in ai.done}
