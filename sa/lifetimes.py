"""Path-sensitive lifetimes of raw resources and of the memory accounting.

Structured walk over the typed syntax tree.  A path state holds the raw
resources acquired and not yet released, which variables and fields refer to
them, the constant values of flags, the truth of the conditions decided so
far (equal conditions have equal truth along a path), and the net change of
each accounting counter as a linear form over size expressions.  Helpers
whose net effect on any of these is not nil are expanded at their call
sites.  Objects are followed from each constructor through sequences of
public methods to the destructor.
"""
import re
from fractions import Fraction

from .canon import canon
from .callgraph import CallGraph

COUNTERS = {'gbytesMem', 'count_cgrid', 'count_rgrid', 'count_grid'}
BYTES = {'fftw_complex': 16, 'double[2]': 16, 'double': 8, 'int': 4,
         'float': 4, 'std::complex<double>': 16, 'long long': 8, 'char': 1,
         'bool': 1, 'long': 8, 'trv::LineOfSight': 24}
MAYBE_NULL = {'file'}


def acquires(name):
    if not name:
        return None
    m = re.fullmatch(r'(gsl_\w+?)_alloc', name)
    if m:
        return m.group(1)
    if name in ('fftw_alloc_complex', 'fftw_alloc_real', 'fftw_malloc'):
        return 'fftw buffer'
    if re.match(r'fftw_plan_(dft|r2r|many|guru)', name):
        return 'fftw plan'
    if name in ('malloc', 'calloc', 'aligned_alloc'):
        return 'malloc'
    if name in ('fopen', 'tmpfile', 'fdopen'):
        return 'file'
    return None


def releases(name):
    if not name:
        return None
    m = re.fullmatch(r'(gsl_\w+?)_free', name)
    if m:
        return m.group(1)
    return {'fftw_free': 'fftw buffer', 'fftw_destroy_plan': 'fftw plan',
            'free': 'malloc', 'fclose': 'file'}.get(name)


class TooMany(Exception):
    pass


class St:
    __slots__ = ('names', 'env', 'res', 'facts', 'cnt', 'ver', 'eq')

    def __init__(self):
        self.names = {}
        self.env = {}
        self.res = {}
        self.facts = {}
        self.cnt = {}
        self.ver = {}
        self.eq = {}

    def copy(self):
        s = St()
        for a in St.__slots__:
            setattr(s, a, dict(getattr(self, a)))
        return s

    def key(self):
        def fz(d):
            return tuple(sorted(((str(k), str(v)) for k, v in d.items())))
        return (fz(self.env), fz({k: v[0] for k, v in self.res.items()}),
                fz(self.facts), fz(self.cnt), fz(self.ver), fz(self.names))


def dedupe(outs):
    seen, r = set(), []
    for o in outs:
        k = (o[0], o[1].key(), str(o[2]))
        if k not in seen:
            seen.add(k)
            r.append(o)
    return r


class Frame:
    def __init__(self, f, tu, up=None):
        self.f, self.tu, self.up = f, tu, up
        self.depth = up.depth + 1 if up else 0
        self.wrote = None


class Lifetimes:
    CAP = 600

    def __init__(self, prog):
        self.prog = prog
        self.core_fn = {}      # key -> has a resource/accounting operation
        self.memo = {}
        self.found = {}        # (rule, construct) -> (node, detail)
        self.undecided = {}
        self.expand = set()    # keys of functions expanded at calls
        self.sites = {'acquire': set(), 'release': set(), 'count': set()}
        self.defaults = {}     # (class, field) -> value
        self.steps = 0
        self.quiet = False
        self.idents = {}
        self.blur = set()      # functions releasing what is not understood
        self.lam = {}          # (path, variable) -> (params, body)
        for f, tu in prog.funcs.values():
            if f.body is None:
                continue
            for v in f.body.walk():
                if v.kind != 'VarDecl' or not v.kids:
                    continue
                x = v.kids[0].strip()
                while x.kind != 'LambdaExpr' and len(x.kids) == 1:
                    x = x.kids[0].strip()
                if x.kind != 'LambdaExpr':
                    continue
                body = next((y for y in x.kids if y.kind == 'CompoundStmt'),
                            None)
                if body is None or not any(
                        self.direct(y, tu) for y in body.walk()):
                    continue
                m = next((y for y in x.walk() if y.kind == 'CXXMethodDecl'
                          and y.name == 'operator()'), None)
                ps = [y for y in m.kids if y.kind == 'ParmVarDecl'] \
                    if m is not None else []
                self.lam[(tu.path, v.id)] = (ps, body)
        self.uid = 0
        self.terse = False     # forget conditions asked only once

    # -- which code matters -------------------------------------------
    def direct(self, n, tu):
        """n itself is a resource or accounting operation."""
        k = n.kind
        if k in ('CXXNewExpr', 'CXXDeleteExpr'):
            return not (k == 'CXXNewExpr' and self.placement(n))
        if k == 'CallExpr':
            d, nm = tu.callee(n)
            return bool(acquires(nm) or releases(nm))
        if k in ('CompoundAssignOperator', 'BinaryOperator',
                 'UnaryOperator') and n.kids:
            if k == 'BinaryOperator' and n.op != '=':
                return False
            if k == 'UnaryOperator' and n.op not in ('++', '--'):
                return False
            return self.counter(n.kids[0]) is not None
        return False

    @staticmethod
    def placement(n):
        return 'void *)' in str((n.d.get('operatorNewDecl') or {}).get(
            'type', {}).get('qualType', '')) and 'void *' in str(
            n.d.get('operatorNewDecl', {}).get('type', {}).get(
                'qualType', '')).split('(')[-1]

    @staticmethod
    def counter(n):
        n = n.strip()
        if n.kind == 'DeclRefExpr' and n.ref and \
                n.ref.get('kind') == 'VarDecl' and n.ref['name'] in COUNTERS:
            return n.ref['name']
        return None

    def core(self, n, tu, keys=None):
        """The subtree holds an operation that matters."""
        if keys is None:
            keys = self.expand
            c = self.memo.get((tu.path, id(n)))
            if c is not None:
                return c[0]
        r = False
        for x in n.walk():
            if self.direct(x, tu):
                r = True
                break
            if self.lam and self.lambda_of(x, tu):
                r = True
                break
            if x.kind in ('CallExpr', 'CXXMemberCallExpr',
                          'CXXOperatorCallExpr') and keys:
                d, _ = tu.callee(x)
                if d is not None and d.key in keys and \
                        self.inlinable(x, d):
                    r = True
                    break
        if keys is self.expand:
            self.memo[(tu.path, id(n))] = (r, n)
        return r

    def lambda_of(self, x, tu):
        if x.kind == 'CXXOperatorCallExpr' and len(x.kids) > 1:
            v = x.kids[1].strip()
            if v.kind == 'DeclRefExpr' and v.ref:
                return self.lam.get((tu.path, v.ref.get('id')))
        return None

    def inlinable(self, call, d):
        if call.kind == 'CXXMemberCallExpr':
            c = call.kids[0].strip()
            return bool(c.kids) and c.kids[0].strip().kind == 'CXXThisExpr'
        return True

    def exits(self, n):
        """return/throw/break/continue in the subtree (lambdas excluded)."""
        c = self.memo.get(('x', id(n)))
        if c is not None:
            return c[0]
        r, stack = False, [n]
        while stack:
            x = stack.pop()
            if x.kind in ('ReturnStmt', 'CXXThrowExpr', 'BreakStmt',
                          'ContinueStmt', 'GotoStmt'):
                r = True
                break
            if x.kind == 'LambdaExpr':
                continue
            stack.extend(x.kids)
        self.memo[('x', id(n))] = (r, n)
        return r

    # -- names -----------------------------------------------------------
    def text(self, n, st, fr, neg=False):
        sub = {k[1]: v for k, v in st.names.items() if k[0] == fr.tu.path}
        return self.versioned(canon(n, sub, neg), st)

    @staticmethod
    def versioned(t, st):
        for path, k in st.ver.items():
            if path in t:
                t = re.sub(re.escape(path) + r"(?![\w'~])", f"{path}'{k}", t)
        return t

    def lkey(self, n, st, fr):
        n = n.strip()
        if n.kind == 'DeclRefExpr' and n.ref:
            k = ('l', fr.tu.path, n.ref.get('id'))
            seen = 0
            while st.env.get(k, (None,))[0] == 'ref' and seen < 9:
                k = st.env[k][1]
                seen += 1
            return k
        if n.kind == 'MemberExpr' and n.kids and \
                n.kids[0].strip().kind == 'CXXThisExpr':
            return ('f', n.name)
        if n.kind == 'MemberExpr' and not n.kids:
            return ('f', n.name)
        return None

    def path(self, n, st, fr):
        """Text of the lvalue without versions."""
        sub = {k[1]: v for k, v in st.names.items() if k[0] == fr.tu.path}
        return canon(n, sub)

    def bump(self, n, st, fr):
        m = n.strip()
        while m.kind in ('ArraySubscriptExpr',) or \
                m.kind == 'CXXOperatorCallExpr' and len(m.kids) > 1:
            m = (m.kids[0] if m.kind == 'ArraySubscriptExpr'
                 else m.kids[1]).strip()
        if m.kind == 'DeclRefExpr' and m.ref:
            k = (fr.tu.path, m.ref.get('id'))
            self.uid += 0
            old = st.names.get(k, m.ref.get('name', '?'))
            base, _, v = old.partition("'")
            if not re.fullmatch(r'[\w#]+', base):
                base = f"{m.ref.get('name')}#{str(m.ref.get('id'))[-5:]}"
            st.names[k] = f"{base}'{int(v or 0) + 1 if (v or '0').isdigit() else 1}"
        elif m.kind == 'MemberExpr':
            b = m.kids[0].strip() if m.kids else None
            if b is not None and b.kind == 'DeclRefExpr' and b.ref:
                o = ('o', fr.tu.path, b.ref.get('id'))
                if o in st.env:
                    st.env[o] = ('fresh', st.env[o][1] | {m.name})
            p = self.path(m, st, fr)
            if '(' in p:
                return
            st.ver[p] = min(st.ver.get(p, 0) + 1, 3)
        k = self.lkey(m, st, fr)
        if k is not None and m is n.strip():
            v = st.env.get(k)
            if v is not None and v[0] != 'res':
                st.env[k] = ('set', )

    def writes(self, n, st, fr):
        """Account for the assignments of code that is otherwise skipped."""
        c = self.memo.get(('w', id(n)))
        if c is None:
            c = []
            for x in n.walk():
                if x.kind in ('BinaryOperator',) and x.op == '=' or \
                        x.kind == 'CompoundAssignOperator' or \
                        x.kind == 'UnaryOperator' and x.op in ('++', '--'):
                    c.append(x.kids[0])
                elif x.kind == 'CXXOperatorCallExpr' and len(x.kids) == 3 \
                        and (x.kids[0].strip().ref or {}).get('name') in (
                            'operator=', 'operator+='):
                    c.append(x.kids[1])
            self.memo[('w', id(n))] = c = (c, n)
        self.touched(n, st, fr)
        ids = self.idents.get(fr.f.key)
        for t in c[0]:
            last = t.strip()
            while last.kind in ('ArraySubscriptExpr',) and last.kids:
                last = last.kids[0].strip()
            nm = last.name or (last.ref or {}).get('name')
            if ids is not None and nm not in ids:
                continue
            self.bump(t, st, fr)

    def interesting(self, f, tu):
        """Identifiers used by the operations and the conditions."""
        if f.key in self.idents:
            return self.idents[f.key]
        self.idents[f.key] = ids = set()

        def names(n):
            for x in n.walk():
                if x.kind == 'DeclRefExpr' and x.ref:
                    ids.add(x.ref.get('name'))
                elif x.kind == 'MemberExpr':
                    ids.add(x.name)
        for n in (f.body.walk() if f.body else ()):
            if n.kind == 'IfStmt' and (self.core(n, tu) or self.exits(n)):
                names(n.kids[0])
                if len(n.kids) > 1 and n.kids[1].kind not in (
                        'CompoundStmt',):
                    names(n.kids[1])
            elif self.direct(n, tu):
                names(n)
            elif n.kind in ('CallExpr', 'CXXMemberCallExpr'):
                d, _ = tu.callee(n)
                if d is not None and d.key in self.expand and \
                        self.inlinable(n, d):
                    names(n)
                    g = self.prog.definition(d)
                    if g and g[0] is not f:
                        ids |= self.interesting(*g)
        # scalars used through other scalars
        for n in (f.body.walk() if f.body else ()):
            if n.kind == 'VarDecl' and n.name in ids and n.kids:
                names(n)
        return ids

    # -- reporting ---------------------------------------------------------
    def bad(self, rule, construct, node, detail):
        if self.quiet:
            return
        self.found.setdefault((rule, construct), (node, detail))

    def label(self, n, fam, fr):
        return f'{fam} acquired in {fr.f.qual}'

    # -- resources -----------------------------------------------------------
    def acquire(self, n, fam, st, fr):
        self.uid += 1
        self.sites['acquire'].add(n.loc())
        rid = (n.loc(), fam, 0)
        k = 0
        while rid in st.res and st.res[rid][0] == 'live':
            k += 1
            if k > 3:
                break
            rid = (n.loc(), fam, k)
        st.res[rid] = ('live', fam, n, fr.f.qual)
        return ('res', rid)

    def release(self, n, fam, argnode, v, st, fr):
        self.sites['release'].add(n.loc())
        if v is not None and v[0] in ('ext', 'const'):
            return
        if v is None or v[0] in ('set', 'sym'):
            k = self.lkey(argnode, st, fr)
            if k is None or k[0] == 'l' and not any(
                    p.id == k[2] for p in fr.f.params) or \
                    v is not None and not (k[0] == 'f' and fr.f.cls is None):
                up = fr
                while up is not None:
                    self.blur.add(up.f.key)
                    up = up.up
            return
        if v[0] == 'uninit':
            self.bad('uninit', f'{fr.f.qual}: {self.show(argnode)}', n,
                     'an indeterminate pointer is released')
        if v[0] == 'foreign':
            self.bad('foreign', f'{fr.f.qual}: {self.show(argnode)}', n,
                     f'a {fam} the object was given, and does not own, is '
                     'released')
        if v[0] != 'res':
            return
        r = st.res.get(v[1])
        if r is None:
            return
        if r[0] == 'freed':
            self.bad('double', f'{fr.f.qual}: {self.show(argnode)}', n,
                     f'the {r[1]} acquired at {r[2].loc()} is released twice')
            return
        if r[0] == 'live' and fam != r[1]:
            self.bad('family', f'{fr.f.qual}: {self.show(argnode)}', n,
                     f'a {r[1]} (acquired at {r[2].loc()}) is released as a '
                     f'{fam}')
        st.res[v[1]] = ('freed',) + r[1:]

    @staticmethod
    def show(n):
        return re.sub(r'#\w+', '', canon(n)) if n is not None else '?'

    def holders(self, rid, st, but=None):
        return [k for k, v in st.env.items() if v == ('res', rid) and k != but]

    def assign(self, lhs, v, st, fr, rhs=None):
        k = self.lkey(lhs, st, fr)
        if k is None:
            if v is not None and v[0] == 'res':
                r = st.res.get(v[1])
                if r and r[0] == 'live':
                    st.res[v[1]] = ('escaped',) + r[1:]
            self.bump(lhs, st, fr)
            return
        old = st.env.get(k)
        if old is not None and old[0] == 'res' and old != v and \
                st.res.get(old[1], ('?',))[0] == 'live' and \
                not self.holders(old[1], st, k):
            self.bad('overwritten', f'{fr.f.qual}: {self.show(lhs)}', lhs,
                     f'{old[1][1]} acquired at {old[1][0]} is still alive '
                     'when its only reference is overwritten')
        self.bump(lhs, st, fr)
        if v is None or v[0] in ('set', 'ext'):
            v = v or ('set',)
            if k[0] == 'f' and rhs is not None and self.foreign(rhs, fr):
                v = ('foreign',)
        st.env[k] = v
        if rhs is not None and k[0] == 'f' and v[0] != 'res':
            st.eq[self.versioned(f'this.{k[1]}', st)] = self.text(rhs, st, fr)

    @staticmethod
    def foreign(n, fr):
        """A handle taken from a parameter, which its owner releases."""
        n = n.strip()
        if not re.search(r'\*|fftw_plan', n.type or ''):
            return False
        if n.kind == 'MemberExpr' and n.kids:
            n = n.kids[0].strip()
        return n.kind == 'DeclRefExpr' and bool(n.ref) and \
            n.ref.get('kind') == 'ParmVarDecl' and \
            any(p.id == n.ref.get('id') for p in fr.f.params)

    # -- counters --------------------------------------------------------------
    def amount(self, n, st, fr):
        """Linear form {unit: factor} of an accounting expression."""
        n = n.strip()
        c = n.const_value()
        if c is not None and not isinstance(c, bool):
            return {'1': Fraction(c)}
        if n.kind == 'BinaryOperator' and n.op in '+-':
            a, b = (self.amount(x, st, fr) for x in n.kids)
            for u, x in b.items():
                a[u] = a.get(u, 0) + (x if n.op == '+' else -x)
            return {u: x for u, x in a.items() if x}
        if n.kind == 'UnaryOperator' and n.op == '-':
            return {u: -x for u, x in self.amount(n.kids[0], st, fr).items()}
        if n.kind == 'BinaryOperator' and n.op == '*':
            a, b = (self.amount(x, st, fr) for x in n.kids)
            out = {}
            for u, x in a.items():
                for w, y in b.items():
                    k = '*'.join(sorted(t for q in (u, w)
                                        for t in q.split('*') if t != '1'))
                    k = k or '1'
                    out[k] = out.get(k, 0) + x * y
            return out
        if n.kind == 'BinaryOperator' and n.op == '/':
            b = self.amount(n.kids[1], st, fr)
            if set(b) == {'1'} and b['1']:
                return {u: x / b['1']
                        for u, x in self.amount(n.kids[0], st, fr).items()}
        if n.kind in ('CXXFunctionalCastExpr', 'CStyleCastExpr',
                      'CXXStaticCastExpr') and n.kids:
            return self.amount(n.kids[-1], st, fr)
        if n.kind == 'CallExpr':
            d, nm = fr.tu.callee(n)
            if nm == 'size_in_gb' and len(n.kids) == 2:
                ty = None
                if d is not None:
                    ty = next((k.type for k in d.node.kids
                               if k.kind == 'TemplateArgument'), None)
                ty = (ty or '?').replace('struct ', '')
                out = {}
                size = BYTES.get(ty)
                for u, x in self.amount(n.kids[1], st, fr).items():
                    us = [t for t in u.split('*') if t != '1'] + ['GB']
                    if size is None:
                        us.append(f'sizeof({ty})')
                    out['*'.join(sorted(us))] = x * (size or 1)
                return out
        if n.kind == 'DeclRefExpr' and n.ref:
            t = st.names.get((fr.tu.path, n.ref.get('id')))
            a = st.env.get(('a', fr.tu.path, n.ref.get('id')))
            if a is not None:
                return dict(a[1])
            return {(t or n.ref['name']).replace('*', '\u00d7'): Fraction(1)}
        if n.kind == 'MemberExpr' and n.kids:
            b = n.kids[0].strip()
            if b.kind == 'DeclRefExpr' and b.ref:
                o = st.env.get(('o', fr.tu.path, b.ref.get('id')))
                if o is not None and n.name not in o[1]:
                    v = self.initial(b, n.name, fr)
                    if v is not None:
                        return {'1': Fraction(v)} if v else {}
        return {self.text(n, st, fr).replace('*', '\u00d7'): Fraction(1)}

    def initial(self, b, fld, fr):
        """Constant a member of a default-constructed object starts with."""
        c = b.desugared.replace('const ', '').strip('& ')
        q = next((q for q in self.prog.records
                  if q == c or q.endswith('::' + c.split('::')[-1])), None)
        if q is None:
            return None
        for f in self.prog.records[q][0].fields:
            if f.name == fld:
                init = next((k for k in f.kids if not k.kind.endswith(
                    ('Comment', 'Attr'))), None)
                v = init.const_value() if init is not None else None
                return v if isinstance(v, (int, float)) and not isinstance(
                    v, bool) else None
        return None

    def sets(self, d):
        """Members a method gives a value to (with the methods it calls on
        the same object)."""
        key = ('sets', d.key)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = out = set()
        g = self.prog.definition(d)
        if g is None or g[0].body is None:
            return out
        for x in g[0].body.walk():
            if x.kind in ('BinaryOperator', 'CompoundAssignOperator',
                          'UnaryOperator') and x.kids and x.op in (
                    '=', '+=', '-=', '*=', '/=', '++', '--'):
                t = x.kids[0].strip()
                if t.kind == 'MemberExpr' and t.kids and \
                        t.kids[0].strip().kind == 'CXXThisExpr':
                    out.add(t.name)
            if x.kind == 'CXXMemberCallExpr':
                d2, _ = g[1].callee(x)
                if d2 is not None and self.inlinable(x, d2):
                    out |= self.sets(d2)
        return out

    def touched(self, n, st, fr):
        """Method calls on local objects in n."""
        c = self.memo.get(('t', id(n)))
        if c is None:
            c = []
            for x in n.walk():
                if x.kind == 'CXXMemberCallExpr':
                    m = x.kids[0].strip()
                    b = m.kids[0].strip() if m.kids else None
                    if b is not None and b.kind == 'DeclRefExpr' and b.ref:
                        c.append((b.ref.get('id'), x))
            self.memo[('t', id(n))] = c = (c, n)
        for i, x in c[0]:
            k = ('o', fr.tu.path, i)
            if k in st.env:
                d, _ = fr.tu.callee(x)
                if d is not None:
                    st.env[k] = ('fresh', st.env[k][1] | self.sets(d))

    def count(self, c, n, sign, st, fr):
        self.sites['count'].add(n.loc())
        for u, x in self.amount(n, st, fr).items():
            k = (c, u)
            v = st.cnt.get(k, 0) + sign * x
            if v:
                st.cnt[k] = v
            else:
                st.cnt.pop(k, None)

    # -- expressions -----------------------------------------------------------
    def val(self, n, st, fr):
        n = n.strip()
        if n.kind in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return ('null',)
        c = n.const_value()
        if c is not None:
            return ('null',) if c == 0 and '*' in (n.type or '') else \
                ('const', c)
        if n.kind in ('CStyleCastExpr', 'CXXStaticCastExpr',
                      'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr') \
                and n.kids:
            return self.val(n.kids[-1], st, fr)
        sv = n.string_value()
        if sv is not None:
            return ('const', sv)
        k = self.lkey(n, st, fr)
        if k is not None:
            v = st.env.get(k)
            if v is None and (k[0] == 'f' or fr.up is None and any(
                    p.id == k[2] for p in fr.f.params)):
                return ('ext',)
            return v
        return None

    def ev(self, n, st, fr):
        """-> [(outcome, state, value)] with outcome fall or throw."""
        n = n.strip()
        self.steps += 1
        k = n.kind
        tu = fr.tu
        if k == 'LambdaExpr':
            return [('fall', st, None)]
        if k == 'CXXThrowExpr':
            return [('throw', st, None)]
        if k == 'BinaryOperator' and n.op == '=':
            c = self.counter(n.kids[0])
            if c is not None:
                st = st.copy()
                r = n.kids[1].strip()
                if r.kind == 'BinaryOperator' and r.op in '+-' and \
                        self.counter(r.kids[0]) == c:
                    self.count(c, r.kids[1], 1 if r.op == '+' else -1, st, fr)
                elif r.kind == 'BinaryOperator' and r.op == '+' and \
                        self.counter(r.kids[1]) == c:
                    self.count(c, r.kids[0], 1, st, fr)
                else:
                    self.undecided[f'{fr.f.qual}: {c}'] = n
                return [('fall', st, None)]
            out = []
            for o, s, v in self.ev(n.kids[1], st, fr):
                if o == 'fall':
                    s = s.copy()
                    self.assign(n.kids[0], v, s, fr, n.kids[1])
                out.append((o, s, v))
            return out
        if self.opname(n) == 'operator=' and not self.core(n.kids[2], tu):
            st = st.copy()
            self.assign(n.kids[1], self.val(n.kids[2], st, fr), st, fr)
            return [('fall', st, None)]
        if k == 'CompoundAssignOperator' or k == 'UnaryOperator' and \
                n.op in ('++', '--'):
            c = self.counter(n.kids[0])
            st = st.copy()
            if c is not None:
                if k == 'UnaryOperator':
                    s = 1 if n.op == '++' else -1
                    kk = (c, '1')
                    v = st.cnt.get(kk, 0) + s
                    st.cnt[kk] = v
                    if not v:
                        st.cnt.pop(kk)
                elif n.op in ('+=', '-='):
                    self.count(c, n.kids[1], 1 if n.op == '+=' else -1, st,
                               fr)
                else:
                    self.undecided[f'{fr.f.qual}: {c}'] = n
            else:
                self.bump(n.kids[0], st, fr)
            return [('fall', st, None)]
        if not self.core(n, tu):
            if self.exits(n):
                return [('throw', st, None)]
            st = st.copy()
            self.writes(n, st, fr)
            return [('fall', st, self.val(n, st, fr))]
        if k == 'CXXNewExpr':
            outs = self.many(n.kids, st, fr)
            res = []
            for o, s, vs in outs:
                if o != 'fall':
                    res.append((o, s, None))
                    continue
                s = s.copy()
                fam = 'new[]' if n.d.get('isArray') else 'new'
                res.append(('fall', s, self.acquire(n, fam, s, fr)))
            return res
        if k == 'CXXDeleteExpr':
            res = []
            for o, s, v in self.ev(n.kids[0], st, fr):
                if o == 'fall':
                    s = s.copy()
                    self.release(n, 'new[]' if n.d.get('isArray') else 'new',
                                 n.kids[0], v, s, fr)
                res.append((o, s, None))
            return res
        if k in ('ConditionalOperator',):
            out = []
            for t, s in self.cond(n.kids[0], st, fr):
                out += self.ev(n.kids[1 if t else 2], s, fr)
            return out
        if k == 'BinaryOperator' and n.op in ('&&', '||'):
            return [('fall', s, ('const', t))
                    for t, s in self.cond(n, st, fr)]
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.call(n, st, fr)
        out = []
        for o, s, vs in self.many(n.kids, st, fr):
            v = None
            if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr',
                     'InitListExpr'):
                s = s.copy()
                for x in vs:
                    if x is not None and x[0] == 'res' and \
                            s.res.get(x[1], ('?',))[0] == 'live':
                        s.res[x[1]] = ('escaped',) + s.res[x[1]][1:]
            elif len(vs) == 1 and k.endswith('CastExpr'):
                v = vs[0]
            out.append((o, s, v))
        return out

    @staticmethod
    def opname(n):
        if n.kind == 'CXXOperatorCallExpr' and len(n.kids) == 3:
            return (n.kids[0].strip().ref or {}).get('name')
        return None

    def many(self, nodes, st, fr):
        outs = [('fall', st, [])]
        for x in nodes:
            new = []
            for o, s, vs in outs:
                if o != 'fall':
                    new.append((o, s, vs))
                    continue
                for o2, s2, v in self.ev(x, s, fr):
                    new.append((o2, s2, vs + [v]))
            outs = new
        return outs

    def call(self, n, st, fr):
        d, nm = fr.tu.callee(n)
        args = n.kids[1:]
        lam = self.lambda_of(n, fr.tu)
        if lam is not None and fr.depth < 8:
            f = type('Lam', (), dict(
                qual=fr.f.qual, cls=fr.f.cls, key=fr.f.key, params=lam[0],
                body=lam[1], name='(lambda)'))()
            out = []
            for o, s, vs in self.many(n.kids[2:], st, fr):
                if o == 'fall':
                    out += self.inline((f, fr.tu), n.kids[2:], vs, s, fr)
                else:
                    out.append((o, s, None))
            return out
        res = []
        for o, s, vs in self.many(args, st, fr):
            if o != 'fall':
                res.append((o, s, None))
                continue
            fam = acquires(nm) if n.kind == 'CallExpr' else None
            if fam:
                s = s.copy()
                res.append(('fall', s, self.acquire(n, fam, s, fr)))
                continue
            fam = releases(nm) if n.kind == 'CallExpr' else None
            if fam and args:
                s = s.copy()
                self.release(n, fam, args[0], vs[0], s, fr)
                res.append(('fall', s, None))
                continue
            if d is not None and d.key in self.expand and \
                    self.inlinable(n, d) and fr.depth < 8:
                g = self.prog.definition(d)
                up = fr
                rec = False
                while up is not None:
                    rec = rec or up.f.key == d.key
                    up = up.up
                if g is not None and g[0].body is not None and not rec:
                    res += self.inline(g, args, vs, s, fr)
                    continue
            if d is None and n.kind == 'CXXMemberCallExpr' and any(
                    v is not None and v[0] == 'res' for v in vs):
                s = s.copy()
                for v in vs:
                    if v is not None and v[0] == 'res' and \
                            s.res.get(v[1], ('?',))[0] == 'live':
                        s.res[v[1]] = ('escaped',) + s.res[v[1]][1:]
            res.append(('fall', s, None))
        return res

    def bind(self, g, tu, args, vs, s, fr):
        for p, a, v in zip(g.params, args, vs):
            k = ('l', tu.path, p.id)
            ty = p.type or ''
            if ty.endswith('&'):
                lk = self.lkey(a, s, fr)
                if lk is not None:
                    s.env[k] = ('ref', lk)
                else:
                    s.env.pop(k, None)
            else:
                s.env.pop(k, None)
                if v is not None:
                    s.env[k] = v
            if re.fullmatch(r'(const )?(int|long|long long|double|float|'
                            r'std::size_t|size_t|unsigned.*)', ty):
                s.env[('a', tu.path, p.id)] = (
                    'amount', tuple(sorted(self.amount(a, s, fr).items())))
            s.names[(tu.path, p.id)] = self.text(a, s, fr)

    def inline(self, g, args, vs, s, fr):
        f, tu = g
        s = s.copy()
        self.bind(f, tu, args, vs, s, fr)
        sub = Frame(f, tu, fr)
        out = []
        for o, s2, v in self.run(f.body, s, sub):
            if o in ('fall', 'return'):
                v2 = v if o == 'return' else None
                self.leave(f, s2, v2, sub)
                out.append(('fall', s2, v2))
            # errors raised inside a helper are those of any other call
        return dedupe(out)

    def leave(self, f, s, v, fr):
        """Locals of an expanded helper go out of scope."""
        for x in f.body.walk():
            if x.kind == 'VarDecl':
                s.env.pop(('l', fr.tu.path, x.id), None)
                s.env.pop(('a', fr.tu.path, x.id), None)
                s.env.pop(('o', fr.tu.path, x.id), None)
                s.names.pop((fr.tu.path, x.id), None)
        for p in f.params:
            s.names.pop((fr.tu.path, p.id), None)
            s.env.pop(('a', fr.tu.path, p.id), None)
            s.env.pop(('l', fr.tu.path, p.id), None)
        keep = {x[1] for x in s.env.values() if x[0] == 'res'}
        if v is not None and v[0] == 'res':
            keep.add(v[1])
        for rid, r in s.res.items():
            if r[0] == 'live' and rid not in keep:
                self.bad('leak', f'{fr.f.qual}: {r[1]}', r[2],
                         f'{r[1]} acquired at {rid[0]} is not released when '
                         f'{fr.f.qual} returns')
                s.res[rid] = ('lost',) + r[1:]

    # -- conditions ------------------------------------------------------------
    def cond(self, n, st, fr):
        n = n.strip()
        k = n.kind
        if k == 'UnaryOperator' and n.op == '!':
            return [(not t, s) for t, s in self.cond(n.kids[0], st, fr)]
        if k == 'BinaryOperator' and n.op in ('&&', '||'):
            out = []
            for t, s in self.cond(n.kids[0], st, fr):
                if t == (n.op == '||'):
                    out.append((t, s))
                else:
                    out += self.cond(n.kids[1], s, fr)
            return out
        if k == 'CXXBoolLiteralExpr':
            return [(bool(n.d['value']), st)]
        op = n.op if k == 'BinaryOperator' else \
            (self.opname(n) or '')[len('operator'):]
        if op in ('==', '!='):
            out = []
            for o, s, (a, b) in [(o, s, (vs + [None, None])[:2]) for o, s, vs
                                 in self.many(n.kids[-2:], st, fr)]:
                if o != 'fall':
                    continue
                for t, s2 in self.equal(a, b, n, s, fr, op):
                    out.append((t == (op == '=='), s2))
            return out
        out = []
        for o, s, v in self.ev(n, st, fr):
            if o != 'fall':
                continue
            if v is not None and v[0] == 'const':
                out.append((bool(v[1]), s))
            elif v is not None and v[0] == 'null':
                out.append((False, s))
            elif v is not None and v[0] == 'res':
                out += [(not t, s2) for t, s2 in
                        self.equal(v, ('null',), n, s, fr, '==')]
            else:
                out += self.fork(n, s, fr)
        return out

    def equal(self, a, b, n, s, fr, op):
        if a is not None and b is not None:
            for x, y in ((a, b), (b, a)):
                if x[0] == 'res' and y[0] in ('null', 'const'):
                    r = s.res.get(x[1])
                    if r and r[1] in MAYBE_NULL and r[0] == 'live' and \
                            ('live!', x[1]) not in s.facts:
                        s1, s2 = s.copy(), s.copy()
                        s1.res.pop(x[1])
                        for k, v in list(s1.env.items()):
                            if v == x:
                                s1.env[k] = ('null',)
                        s2.facts[('live!', x[1])] = True
                        return [(True, s1), (False, s2)]
                    return [(False, s)]
            if a[0] == 'null' and b[0] in ('null', 'const') or \
                    b[0] == 'null' and a[0] == 'const':
                return [(True, s)]
            if a[0] == 'const' and b[0] == 'const':
                return [(a[1] == b[1], s)]
            for x, y, e in ((a, b, n.kids[-2] if len(n.kids) > 1 else n),
                            (b, a, n.kids[-1])):
                if x[0] == 'set' and y[0] == 'const':
                    lk = self.lkey(e, s, fr)
                    dv = self.default(fr, lk)
                    if dv is not None and dv[0] == 'const' and \
                            dv[1] == y[1] and not isinstance(y[1], bool):
                        # a value set at run time is not the unset mark
                        return [(False, s)]
        if op == '!=':
            return [(not t, s2) for t, s2 in self.fork(n, s, fr)]
        return self.fork(n, s, fr)

    def default(self, fr, lk):
        if lk is None or lk[0] != 'f' or not fr.f.cls:
            return None
        return self.defaults.get((fr.f.cls, lk[1]))

    def fork(self, n, s, fr):
        t, tn = self.text(n, s, fr), self.text(n, s, fr, True)
        flip = False
        if tn < t:
            t, flip = tn, True
        if t in s.facts:
            return [(s.facts[t] != flip, s)]
        pure = all(x.kind not in ('CallExpr', 'CXXMemberCallExpr') or
                   len(x.kids) == 1 and x.kind == 'CallExpr'
                   for x in n.walk()) and not self.core(n, fr.tu)
        m = re.fullmatch(r'\(("[^"]*"|\d+) == (.*)\)', t)
        if m:
            for t2, b in s.facts.items():
                if b and isinstance(t2, str):
                    m2 = re.fullmatch(r'\(("[^"]*"|\d+) == (.*)\)', t2)
                    if m2 and m2.group(2) == m.group(2):
                        return [(False != flip, s)]
        m = re.fullmatch(r'\(("[^"]*"|\d+) != (.*)\)', t)
        if m:
            for t2, b in s.facts.items():
                if not b and isinstance(t2, str):
                    m2 = re.fullmatch(r'\(("[^"]*"|\d+) != (.*)\)', t2)
                    if m2 and m2.group(2) == m.group(2):
                        return [(True != flip, s)]
        if pure and self.terse and self.asked(n, fr) < 2:
            return [(True, s.copy()), (False, s.copy())]
        s1, s2 = s.copy(), s.copy()
        if pure:
            s1.facts[t] = True
            s2.facts[t] = False
        return [(True != flip, s1), (False != flip, s2)]

    def asked(self, n, fr):
        """How many conditions of the function mention what n mentions."""
        def ids(x):
            return frozenset(
                y.name or (y.ref or {}).get('name') for y in x.walk()
                if y.kind in ('MemberExpr', 'DeclRefExpr')
                and not (y.ref or {}).get('name', '').startswith('operator'))
        c = self.memo.get(('ask', fr.f.key))
        if c is None:
            c = {}
            for x in fr.f.body.walk():
                if x.kind == 'IfStmt' and self.relevant(x, fr):
                    st = [x.kids[0]]
                    while st:
                        y = st.pop().strip()
                        if y.kind == 'BinaryOperator' and y.op in (
                                '&&', '||') or y.kind == 'UnaryOperator' \
                                and y.op == '!':
                            st += y.kids
                        else:
                            c[ids(y)] = c.get(ids(y), 0) + 1
            self.memo[('ask', fr.f.key)] = c
        return c.get(ids(n), 1)

    # -- statements ------------------------------------------------------------
    def run(self, n, st, fr):
        """-> [(outcome, state, value)]"""
        outs = self._run(n, st, fr)
        if len(outs) > 4:
            outs = dedupe(outs)
        if len(outs) > self.CAP:
            raise TooMany(fr.f.qual)
        return outs

    def seq(self, stmts, st, fr):
        outs = [('fall', st, None)]
        ahead = self.terse and fr.up is None and stmts and \
            stmts[0].parent is fr.f.body
        for i, x in enumerate(stmts):
            if ahead:
                self.forget(outs, stmts[i:], fr)
            new, todo = [], []
            for o in outs:
                (todo if o[0] == 'fall' else new).append(o)
            if not todo:
                break
            if len(todo) > 1:
                todo = dedupe(todo)
            for _, s, _ in todo:
                new += self.run(x, s, fr)
            outs = new
            if len(outs) > 4:
                outs = dedupe(outs)
            if len(outs) > self.CAP:
                raise TooMany(fr.f.qual)
        return outs

    def forget(self, outs, stmts, fr):
        """Drop facts no condition ahead can ask about."""
        c = self.memo.get(('fg', id(stmts[0])))
        if c is None:
            ids = set()
            for x in stmts:
                for y in x.walk():
                    if y.kind == 'IfStmt' and self.relevant(y, fr):
                        for z in y.kids[0].walk():
                            if z.kind in ('MemberExpr', 'DeclRefExpr'):
                                ids.add(z.name or (z.ref or {}).get('name'))
            ids -= {'params', 'trv', 'sys', None}
            self.memo[('fg', id(stmts[0]))] = c = (ids, stmts[0])
        for o, s, v in outs:
            for t in list(s.facts):
                if isinstance(t, str):
                    names = set(re.findall(
                        r'[A-Za-z_]\w*', re.sub(r'"[^"]*"|#\w+', '', t)))
                    if not names & c[0]:
                        s.facts.pop(t)

    def scope(self, n, outs, fr):
        """Forget the locals of a block that ends."""
        c = self.memo.get(('sc', id(n)))
        if c is None:
            c = [v.id for x in n.kids if x.kind == 'DeclStmt'
                 for v in x.kids if v.kind == 'VarDecl']
            self.memo[('sc', id(n))] = c = (c, n)
        if n is fr.f.body:
            return outs
        for o, s, v in outs:
            if o == 'return':
                continue
            tags = []
            for i in c[0]:
                for t in 'lao':
                    s.env.pop((t, fr.tu.path, i), None)
                s.names.pop((fr.tu.path, i), None)
                tags.append('#' + str(i)[-5:])
            held = {x[1] for x in s.env.values() if x[0] == 'res'}
            for rid in [r for r, q in s.res.items()
                        if q[0] != 'live' and r not in held]:
                s.res.pop(rid)
            for t in list(s.facts):
                if isinstance(t, tuple):
                    if t[1] not in s.res:
                        s.facts.pop(t)
                elif any(g in t for g in tags):
                    s.facts.pop(t)
        return outs

    def relevant(self, n, fr):
        return self.core(n, fr.tu) or self.exits(n)

    def assigns(self, n, fr):
        ids = self.idents.get(fr.f.key) or ()
        c = self.memo.get(('as', id(n)))
        if c is None:
            c = set()
            for x in n.walk():
                if x.kind == 'BinaryOperator' and x.op == '=' or \
                        self.opname(x) == 'operator=':
                    t = x.kids[-2].strip()
                    c.add(t.name or (t.ref or {}).get('name'))
            self.memo[('as', id(n))] = c = (c, n)
        return bool(c[0] & set(ids))

    def _run(self, n, st, fr):
        k = n.kind
        if k == 'Null' or k == 'NullStmt':
            return [('fall', st, None)]
        if k == 'CompoundStmt':
            return self.scope(n, self.seq(n.kids, st, fr), fr)
        if k == 'ReturnStmt':
            if not n.kids:
                return [('return', st, None)]
            return [(('return' if o == 'fall' else o), s, v)
                    for o, s, v in self.ev(n.kids[0], st, fr)]
        if k == 'BreakStmt':
            return [('break', st, None)]
        if k == 'ContinueStmt':
            return [('continue', st, None)]
        if k == 'DeclStmt':
            outs = [('fall', st, None)]
            for v in n.kids:
                if v.kind != 'VarDecl':
                    continue
                new = []
                for o, s, _ in outs:
                    new += self.decl(v, s, fr) if o == 'fall' else \
                        [(o, s, None)]
                outs = new
            return outs
        if k == 'IfStmt':
            if not self.relevant(n, fr) and not self.assigns(n, fr):
                st = st.copy()
                self.writes(n, st, fr)
                return [('fall', st, None)]
            kids = list(n.kids)
            outs = [('fall', st, None)]
            while kids and kids[0].kind == 'DeclStmt':
                d = kids.pop(0)
                outs = [x for o, s, _ in outs for x in self.run(d, s, fr)]
            if not kids:
                return outs
            res = []
            for o, s, v in outs:
                if o != 'fall':
                    res.append((o, s, v))
                    continue
                for t, s2 in self.cond(kids[0], s, fr):
                    if t:
                        res += self.run(kids[1], s2, fr)
                    elif len(kids) > 2:
                        res += self.run(kids[2], s2, fr)
                    else:
                        res.append(('fall', s2, None))
            return res
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            return self.loop(n, st, fr)
        if k == 'SwitchStmt':
            return self.switch(n, st, fr)
        if k == 'CXXTryStmt':
            outs = self.run(n.kids[0], st, fr)
            res, thrown = [], []
            for o in outs:
                (thrown if o[0] == 'throw' else res).append(o)
            for h in n.kids[1:]:
                body = h.kids[-1] if h.kids else None
                if body is None:
                    continue
                for _, s, _ in thrown + [('throw', st, None)]:
                    res += self.run(body, s, fr)
            return res
        if k.startswith('OMP'):
            body = self.omp(n)
            if body is None:
                return [('fall', st, None)]
            return self.run(body, st, fr)
        if k in ('AttributedStmt', 'LabelStmt', 'CaseStmt', 'DefaultStmt',
                 'CapturedStmt'):
            return self.run(n.kids[-1], st, fr) if n.kids else \
                [('fall', st, None)]
        if k == 'CapturedDecl':
            return self.run(n.kids[0], st, fr) if n.kids else \
                [('fall', st, None)]
        return [(o, s, None) for o, s, v in self.ev(n, st, fr)]

    @staticmethod
    def omp(n):
        for x in n.walk():
            if x.kind == 'CapturedDecl':
                for b in x.kids:
                    if b.kind.endswith('Stmt') or b.kind.startswith('OMP'):
                        return b
        for x in n.kids:
            if x.kind.endswith('Stmt'):
                return x
        return None

    def decl(self, v, st, fr):
        st = st.copy()
        nk = (fr.tu.path, v.id)
        k = ('l', fr.tu.path, v.id)
        ty = v.type or ''
        init = next((x for x in v.kids if not x.kind.endswith('Comment')
                     and not x.kind.endswith('Attr')), None)
        st.names[nk] = f'{v.name}#{str(v.id)[-5:]}'
        st.env.pop(('o', fr.tu.path, v.id), None)
        if init is not None and init.strip().kind == 'CXXConstructExpr' and \
                all(x.strip().kind == 'CXXDefaultArgExpr'
                    for x in init.strip().kids):
            st.env[('o', fr.tu.path, v.id)] = ('fresh', frozenset())
        if init is None:
            st.env.pop(k, None)
            if ty.rstrip().endswith('*'):
                st.env[k] = ('uninit',)
            return [('fall', st, None)]
        if ty.rstrip().endswith('&'):
            lk = self.lkey(init, st, fr)
            if lk is not None:
                st.env[k] = ('ref', lk)
            st.names[nk] = self.text(init, st, fr)
            return [('fall', st, None)]
        out = []
        if ty in ('bool', 'const bool') and v.name in (
                self.idents.get(fr.f.key) or ()):
            vals = [('fall', s, ('const', t))
                    for t, s in self.cond(init, st, fr)]
        else:
            vals = self.ev(init, st, fr)
        for o, s, val in vals:
            if o == 'fall':
                s = s.copy()
                old = s.env.get(k)
                if old is not None and old[0] == 'res' and s.res.get(
                        old[1], ('?',))[0] == 'live' and \
                        not self.holders(old[1], s, k):
                    self.bad('leak', f'{fr.f.qual}: {old[1][1]}', v,
                             f'{old[1][1]} acquired at {old[1][0]} is not '
                             'released before the next pass of the loop')
                s.env.pop(k, None)
                if val is not None and val[0] in ('res', 'null', 'const'):
                    s.env[k] = val
                if re.fullmatch(r'(const )?(int|long|long long|double|float|'
                                r'bool|std::size_t|size_t|unsigned.*|auto)',
                                ty) and not self.reassigned(fr.f, v.id):
                    if re.search(r'double|float|int|long|size', ty) and \
                            not self.core(init, fr.tu):
                        a = self.amount(init, s, fr)
                        s.env[('a', fr.tu.path, v.id)] = (
                            'amount', tuple(sorted(a.items())))
                        if len(a) == 1 and list(a.values())[0] == 1:
                            s.names[nk] = list(a)[0]
                    elif val is None or val[0] != 'const':
                        s.names[nk] = self.text(init, s, fr)
            out.append((o, s, None))
        return out

    def reassigned(self, f, vid):
        c = self.memo.get(('ra', f.key))
        if c is None:
            c = set()
            for x in f.body.walk():
                t = None
                if x.kind == 'BinaryOperator' and x.op == '=' or \
                        x.kind == 'CompoundAssignOperator' or \
                        x.kind == 'UnaryOperator' and x.op in (
                            '++', '--', '&'):
                    t = x.kids[0].strip()
                if t is not None and t.kind == 'DeclRefExpr' and t.ref:
                    c.add(t.ref.get('id'))
            self.memo[('ra', f.key)] = c
        return vid in c

    def loop(self, n, st, fr):
        if not self.core(n, fr.tu) and not any(
                x.kind in ('ReturnStmt', 'CXXThrowExpr') for x in n.walk()):
            st = st.copy()
            self.writes(n, st, fr)
            return [('fall', st, None)]
        body = n.kids[0] if n.kind == 'DoStmt' else n.kids[-1]
        st = st.copy()
        if n.kind in ('ForStmt', 'CXXForRangeStmt'):
            for x in n.kids[:-1]:
                self.writes(x, st, fr)
                if x.kind == 'DeclStmt':
                    for v in x.kids:
                        if v.kind == 'VarDecl':
                            st.names[(fr.tu.path, v.id)] = \
                                f'{v.name}#{str(v.id)[-5:]}'
        done, cur = [('fall', st, None)], [st]
        for it in range(2):
            nxt = []
            for s in cur:
                s = s.copy()
                self.writes(n, s, fr)
                # conditions on what the loop computes differ per pass
                for o, s2, v in self.run(body, s, fr):
                    if o in ('fall', 'continue'):
                        done.append(('fall', s2, None))
                        nxt.append(s2)
                    elif o == 'break':
                        done.append(('fall', s2, None))
                    else:
                        done.append((o, s2, v))
            done = dedupe(done)
            cur = [o[1] for o in dedupe([('fall', s, None) for s in nxt])]
        return done

    def switch(self, n, st, fr):
        body = n.kids[-1]
        res = [('fall', st, None)]
        flat = body.kids
        for i, x in enumerate(flat):
            if x.kind in ('CaseStmt', 'DefaultStmt'):
                for o, s, v in self.seq(flat[i:], st, fr):
                    res.append(('fall' if o == 'break' else o, s, v))
        return dedupe(res)

    # -- functions -------------------------------------------------------------
    def start(self, f, tu):
        st = St()
        for p in f.params:
            st.names[(tu.path, p.id)] = f'{p.name}#{str(p.id)[-5:]}'
        return st

    def function(self, f, tu, st=None):
        """Run one function; -> [(outcome, state, value)]"""
        fr = Frame(f, tu)
        self.interesting(f, tu)
        return fr, self.run(f.body, st or self.start(f, tu), fr)

    def live(self, s, v=None):
        """Resources alive with no holder outside the function's locals."""
        held = {x[1] for k, x in s.env.items()
                if x[0] == 'res' and k[0] == 'f'}
        if v is not None and v[0] == 'res':
            held.add(v[1])
        return [(rid, r) for rid, r in s.res.items()
                if r[0] == 'live' and rid not in held]
