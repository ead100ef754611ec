"""Flow-sensitive, context-sensitive abstract interpreter for the C++ back end.

The engine walks the typed syntax tree, inlining calls to repository
functions, and propagates abstract values: literal constants (so that option
strings select branches), pointers/objects, and a payload supplied by the
domain of the check (dimensions, axes, polynomials, ...).  States are joined
where control flow meets; loops over a non-constant range are traversed
abstractly, with a loop variable that stands for every iteration.  No path is
enumerated and nothing is executed.
"""
from .cxx import AnalysisBroken



def is_expr(n):
    return n.kind.endswith(('Expr', 'Operator', 'Literal')) or \
        n.kind == 'ExprWithCleanups'


NOC = type('NoConst', (), {'__repr__': lambda s: 'NOC'})()


class V:
    """Scalar abstract value: constant (or NOC) and domain payload."""
    __slots__ = ('c', 'd')

    def __init__(self, c=NOC, d=None):
        self.c, self.d = c, d

    def __repr__(self):
        return f'V({self.c!r},{self.d!r})'


class P:
    """Pointer.  idx None: points at loc itself; else at element idx of the
    array at loc.  loc None: null."""
    __slots__ = ('loc', 'idx', 'maybe_null')

    def __init__(self, loc, idx=None, maybe_null=False):
        self.loc, self.idx, self.maybe_null = loc, idx, maybe_null

    def __repr__(self):
        return f'P({self.loc},{self.idx})'


class Lam:
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class L:
    """An rvalue of class or array type, living at loc."""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class State:
    __slots__ = ('mem', 'own', 'facts')

    def __init__(self):
        self.mem, self.own = {}, set()
        self.facts = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        self.own = set()
        s.facts = self.facts
        return s

    def blk(self, b):
        """Writable block."""
        if b not in self.own:
            self.mem[b] = dict(self.mem.get(b, ()))
            self.own.add(b)
        return self.mem[b]

    def get(self, loc):
        m = self.mem.get(loc[0])
        if m is None:
            return None
        return m.get(loc[1:])

    def set(self, loc, v):
        self.blk(loc[0])[loc[1:]] = v

    def under(self, loc):
        """[(relative path, value)] stored at or below loc."""
        m = self.mem.get(loc[0])
        if not m:
            return []
        p = loc[1:]
        n = len(p)
        return [(k[n:], v) for k, v in m.items() if k[:n] == p]


class Domain:
    """Default domain: constants only."""

    def const(self, v, node):
        return None

    def unknown(self, node):
        return None

    def uninit(self, node):
        return None

    def initial(self, ai, loc, node):
        return V(NOC, self.unknown(node))

    def binop(self, op, a, b, node):
        return None

    def unop(self, op, a, node):
        return None

    def cast(self, v, typ, node):
        return v.d

    def join(self, a, b, node=None):
        return None

    def call(self, name, args, node):
        return None

    def compare(self, op, a, b, node):
        return None

    def loopvar(self, ai, loop, var, init):
        return None

    def index_key(self, v):
        return v.c if isinstance(v.c, int) and not isinstance(
            v.c, bool) else '*'


def clean(t):
    t = (t or '').strip()
    while True:
        u = t
        if t.startswith('const '):
            t = t[6:].strip()
        if t.endswith('const'):
            t = t[:-5].strip()
        if t.endswith('&'):
            t = t.rstrip('&').strip()
        if t == u:
            return t


class Frame:
    def __init__(self, func, tu, env, this, node):
        self.func, self.tu, self.env, self.this = func, tu, env, this
        self.node = node
        self.rets = []
        self.retloc = None
        self.loops = []


class TooDeep(Exception):
    pass


ARITH = {'+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'}
CMP = {'<', '>', '<=', '>=', '==', '!='}


class Interp:
    max_unroll = 16
    loop_passes = 1
    join_zero_trip = False
    max_depth = 40

    def __init__(self, prog, dom):
        self.prog, self.dom = prog, dom
        self.st = State()
        self.frames = []
        self.nblk = 0
        self.models = {}      # qualified or bare name -> fn(ai, node, args,
        #                        this_loc, decl) -> value or NotImplemented
        self.loopstack = []   # active abstract loops (loop node, var id,...)
        self.reached = {}     # qual -> times entered
        self.sites = {}       # (qual, line) of interpreted calls
        self.inputs = {}      # block -> input name
        self.blkinfo = {}     # block -> description
        self.notes = []

    # -- blocks ---------------------------------------------------------
    def new(self, what='', node=None):
        self.nblk += 1
        b = f'{what}#{self.nblk}'
        self.blkinfo[b] = (what, node)
        return (b,)

    def where(self, node):
        return node.loc() if node is not None else '?'

    def stack(self):
        return ' <- '.join(f.func.qual for f in reversed(self.frames)
                           if f.func is not None)

    # -- types ----------------------------------------------------------
    def cat(self, t):
        t = clean(t)
        if t.endswith('*') or t.endswith('*const') or t in (
                'fftw_plan', 'std::nullptr_t', 'nullptr_t') or '(*)' in t:
            return 'ptr'
        if t.endswith(']'):
            return 'arr'
        if t.startswith(('std::vector<', 'vector<', 'std::array<')):
            return 'vec'
        if 'basic_string' in t or t in ('std::string', 'string'):
            return 'str'
        if self.record(t) is not None:
            return 'rec'
        return 'num'

    def record(self, t):
        t = clean(t)
        for p in ('struct ', 'class '):
            if t.startswith(p):
                t = t[len(p):]
        r = self.prog.records.get(t)
        if r is None and '::' not in t:
            for pre in ('trv::', 'trv::sys::', 'trv::maths::'):
                r = self.prog.records.get(pre + t)
                if r is not None:
                    break
        return r

    def ntype(self, node):
        return node.desugared or node.type or ''

    # -- memory ---------------------------------------------------------
    def read(self, loc, node=None):
        v = self.st.get(loc)
        if v is not None:
            return v
        # walk fallbacks: replace concrete keys by '*' and vice versa
        m = self.st.mem.get(loc[0])
        if m:
            p = loc[1:]
            cands = []
            for k, val in m.items():
                if len(k) == len(p) and all(
                        a == b or a == '*' or (b == '*' and (
                            isinstance(a, (int, tuple)) or a == '*'))
                        for a, b in zip(k, p)):
                    cands.append((k, val))
            if cands:
                # prefer the most specific covering entries
                cov = [c for c in cands if all(
                    a == b or a == '*' for a, b in zip(c[0], p))]
                use = cov or cands
                if cov:
                    use = [max(cov, key=lambda c: sum(
                        x != '*' for x in c[0]))]
                r = use[0][1]
                for _, x in use[1:]:
                    r = self.join_val(r, x, node)
                return r
        for i in range(len(loc), 0, -1):
            a = self.st.get(loc[:i] + ('#copyof',))
            if a is not None and i > 0 and a.loc != loc[:i]:
                return self.read(a.loc + loc[i:], node)
        v = self.dom.initial(self, loc, node)
        return v

    def write(self, loc, v, node=None):
        if '*' in loc[1:]:
            # a symbolic element stands for every element: drop entries
            # it covers
            b = self.st.blk(loc[0])
            p = loc[1:]
            for k in [k for k in b if len(k) == len(p) and k != p and all(
                    x == y or (y == '*' and isinstance(x, (int, tuple)))
                    for x, y in zip(k, p))]:
                del b[k]
        self.st.set(loc, v)

    def copy_tree(self, src, dst):
        items = self.st.under(src)
        n = len(dst) - 1
        b = self.st.blk(dst[0])
        p = dst[1:]
        for k in [k for k in b if k[:n] == p]:
            del b[k]
        for rel, v in items:
            b[p + rel] = v
        self.alias(src, dst)

    def alias(self, src, dst):
        """Lazily initialised inputs: a copy of an input object reads the
        same atoms for members not yet touched."""
        self.st.set(dst + ('#copyof',), P(src))

    def clear_tree(self, loc):
        b = self.st.blk(loc[0])
        p = loc[1:]
        n = len(p)
        for k in [k for k in b if k[:n] == p]:
            del b[k]

    def join_val(self, a, b, node=None):
        if a is b:
            return a
        if isinstance(a, P) and isinstance(b, P):
            if a.loc is None:
                return P(b.loc, b.idx, True)
            if b.loc is None:
                return P(a.loc, a.idx, True)
            if a.loc == b.loc and _same(a.idx, b.idx):
                return P(a.loc, a.idx, a.maybe_null or b.maybe_null)
            return a
        if isinstance(a, V) and isinstance(b, V):
            same = a.c is not NOC and b.c is not NOC and type(a.c) is type(
                b.c) and a.c == b.c
            return V(a.c if same else NOC, self.dom.join(a.d, b.d, node))
        return a if not isinstance(a, V) else b

    def join_state(self, s1, s2, node=None):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        out = State()
        out.facts = s1.facts if s1.facts == s2.facts else ()
        m2 = s2.mem
        get = m2.get
        diff = [(b, x, get(b)) for b, x in s1.mem.items()
                if get(b) is not x]
        out.mem = dict(m2)
        out.mem.update(s1.mem)
        for b, x, y in diff:
            if y is None:
                continue
            if x is None:
                out.mem[b] = y
                continue
            d = {}
            for k in x.keys() | y.keys():
                u, w = x.get(k), y.get(k)
                if u is None or w is None:
                    d[k] = self.join_missing(b, k, u, w, x, y, node)
                elif u is w:
                    d[k] = u
                else:
                    d[k] = self.join_val(u, w, node)
            out.mem[b] = {k: v for k, v in d.items() if v is not None}
        s1.own = set()
        s2.own = set()
        return out

    def join_missing(self, b, k, u, w, x, y, node):
        """One branch wrote k and the other did not."""
        have = u if u is not None else w
        other = y if u is not None else x
        # covered by a '*' entry of the other state?
        for kk, val in other.items():
            if len(kk) == len(k) and kk != k and all(
                    a == c or a == '*' for a, c in zip(kk, k)):
                return self.join_val(have, val, node)
        return have

    # -- environment ------------------------------------------------------
    @property
    def fr(self):
        return self.frames[-1]

    def lookup(self, node):
        r = node.ref or {}
        rid = r.get('id')
        e = self.fr.env
        if rid in e:
            return e[rid]
        q = self.fr.tu.qual_by_id.get(rid) or \
            self.fr.tu.var_by_name(r.get('name')) or r.get('name') or '?'
        return ('g:' + q,)

    # -- lvalues ----------------------------------------------------------
    def deref(self, p, i=None, node=None):
        """Location of p[i] (i an abstract value or None for *p)."""
        if isinstance(p, L):
            p = P(p.loc, V(0))
        if not isinstance(p, P) or p.loc is None:
            return ('unk:%s' % (node.loc() if node else '?'),)
        k = 0 if i is None else self.dom.index_key(i)
        if p.idx is None:
            if k == 0:
                return p.loc
            return p.loc + ('@%s' % (k,),)
        base = p.idx
        bk = self.dom.index_key(base) if isinstance(base, V) else base
        if isinstance(bk, int) and isinstance(k, int):
            return p.loc + (bk + k,)
        if bk == 0:
            return p.loc + (k,)
        if i is None or k == 0:
            return p.loc + (bk,)
        if isinstance(i, V) and isinstance(base, V):
            s = V(NOC, self.dom.binop('+', base, i, node))
            return p.loc + (self.dom.index_key(s),)
        return p.loc + ('*',)

    def lv(self, node):
        n = node
        k = n.kind
        while k in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr',
                    'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') or (
                k == 'ImplicitCastExpr' and n.d.get('castKind') in (
                    'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase')):
            n = n.kids[0]
            k = n.kind
        if k == 'DeclRefExpr':
            return self.lookup(n)
        if k == 'MemberExpr':
            b = n.kids[0] if n.kids else None
            if b is None:
                return self.fr.this + (n.name,)
            if n.d.get('isArrow'):
                p = self.ev(b)
                return self.deref(p, None, n) + (n.name,)
            return self.lv(b) + (n.name,)
        if k == 'ArraySubscriptExpr':
            p = self.ev(n.kids[0])
            i = self.ev(n.kids[1])
            self.on_index(n, p, i)
            return self.deref(p, i, n)
        if k == 'UnaryOperator' and n.op == '*':
            return self.deref(self.ev(n.kids[0]), None, n)
        if k == 'UnaryOperator' and n.op in ('++', '--'):
            loc = self.lv(n.kids[0])
            self.incdec(n, loc)
            return loc
        if k == 'CXXOperatorCallExpr':
            nm = (n.kids[0].strip().ref or {}).get('name')
            if nm == 'operator[]' and self.fr.tu.callee(n)[0] is None:
                c = self.cat(self.ntype(n.kids[1]))
                if c in ('vec', 'arr', 'rec'):
                    base = self.lv(n.kids[1])
                    i = self.ev(n.kids[2])
                    self.on_index(n, P(base, V(0)), i)
                    return base + (self.dom.index_key(i),)
            v = self.ev(n)
            return self.tmp(v, n)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (
                n.op == '=' or k == 'CompoundAssignOperator'):
            self.ev(n)
            return self.lv(n.kids[0])
        if k == 'BinaryOperator' and n.op == ',':
            self.ev(n.kids[0])
            return self.lv(n.kids[1])
        if k == 'ConditionalOperator':
            t = self.truth(self.ev(n.kids[0]))
            if t is True:
                return self.lv(n.kids[1])
            if t is False:
                return self.lv(n.kids[2])
        v = self.ev(n)
        return self.tmp(v, n)

    def tmp(self, v, node):
        if isinstance(v, L):
            return v.loc
        loc = self.new('tmp', node)
        if v is not None:
            self.write(loc, v, node)
        return loc

    def on_index(self, node, p, i):
        """Hook: an element access."""

    def on_write(self, node, loc, v, old):
        """Hook: an assignment (node is the expression)."""

    def on_branch(self, node, cond, truth):
        """Hook: a branch condition was evaluated."""

    def on_cond(self, node, state, positive):
        """Hook: refine a forked state by a condition; may return facts."""

    # -- scalars ----------------------------------------------------------
    def truth(self, v):
        if isinstance(v, V) and v.c is not NOC:
            return bool(v.c) if not isinstance(v.c, str) else None
        if isinstance(v, P):
            if v.loc is None:
                return False
            if not v.maybe_null and not v.loc[0].startswith('unk:'):
                return True
        return None

    def scalar(self, v, node=None):
        if isinstance(v, V):
            return v
        if v is None or isinstance(v, (P, Lam)):
            return V(NOC, self.dom.unknown(node))
        if isinstance(v, L):
            return self.read(v.loc, node)
        return v

    def fold(self, op, a, b):
        try:
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b)
                    return q if (a >= 0) == (b >= 0) else -q
                return a / b
            if op == '%':
                return a - b * self.fold('/', a, b)
            if op == '<':
                return a < b
            if op == '>':
                return a > b
            if op == '<=':
                return a <= b
            if op == '>=':
                return a >= b
            if op == '==':
                return a == b
            if op == '!=':
                return a != b
        except Exception:
            pass
        return NOC

    def arith(self, op, a, b, node):
        if isinstance(a, P) or isinstance(b, P):
            return self.ptr_arith(op, a, b, node)
        a, b = self.scalar(a, node), self.scalar(b, node)
        c = NOC
        if a.c is not NOC and b.c is not NOC and \
                isinstance(a.c, str) == isinstance(b.c, str):
            c = self.fold(op, a.c, b.c)
        if op in CMP:
            r = self.dom.compare(op, a, b, node)
            if c is NOC and isinstance(r, bool):
                c = r
            return V(c, self.dom.const(c, node) if c is not NOC
                     else self.dom.unknown(node))
        return V(c, self.dom.binop(op, a, b, node))

    def ptr_arith(self, op, a, b, node):
        if op in ('==', '!='):
            if isinstance(a, P) and isinstance(b, P):
                an, bn = a.loc is None, b.loc is None
                if an and bn:
                    return V(op == '==', self.dom.const(op == '==', node))
                if (an and not b.maybe_null) or (bn and not a.maybe_null):
                    o = b if an else a
                    if o.loc and o.loc[0].startswith('unk:'):
                        return V(NOC, self.dom.unknown(node))
                    return V(op == '!=', self.dom.const(op == '!=', node))
            return V(NOC, self.dom.unknown(node))
        if op in ('+', '-') and isinstance(a, P) and not isinstance(b, P):
            i = a.idx if a.idx is not None else V(0, self.dom.const(0, node))
            if not isinstance(i, V):
                i = V(i, self.dom.const(i, node))
            return P(a.loc, self.arith(op, i, b, node), a.maybe_null)
        if op == '+' and isinstance(b, P) and not isinstance(a, P):
            return self.ptr_arith(op, b, a, node)
        return V(NOC, self.dom.unknown(node))

    # -- expressions --------------------------------------------------------
    def ev(self, n):
        m = getattr(self, 'e_' + n.kind, None)
        if m is not None:
            return m(n)
        if n.kids:
            r = None
            for k in n.kids:
                if is_expr(k):
                    r = self.ev(k)
            if len(n.kids) == 1:
                return r
        return V(NOC, self.dom.unknown(n))

    def first(self, n):
        return self.ev(n.kids[0])

    e_ParenExpr = e_ExprWithCleanups = e_ConstantExpr = first
    e_CXXBindTemporaryExpr = e_MaterializeTemporaryExpr = first

    def lit(self, n):
        v = n.const_value()
        return V(v, self.dom.const(v, n))

    e_IntegerLiteral = e_FloatingLiteral = lit
    e_CXXBoolLiteralExpr = e_CharacterLiteral = lit

    def e_StringLiteral(self, n):
        v = n.string_value()
        return V(v, self.dom.const(v, n))

    def e_CXXNullPtrLiteralExpr(self, n):
        return P(None)

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n):
        return P(self.fr.this)

    def e_DeclRefExpr(self, n):
        r = n.ref or {}
        if r.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
            return V(NOC, self.dom.unknown(n))
        if r.get('kind') == 'EnumConstantDecl':
            return V(r.get('name'), self.dom.const(0, n))
        return self.rvalue(self.lookup(n), n)

    def rvalue(self, loc, n):
        c = self.cat(self.ntype(n))
        if c in ('rec', 'vec', 'arr'):
            return L(loc)
        return self.read(loc, n)

    def e_MemberExpr(self, n):
        if (n.type or '').startswith('<bound'):
            return V(NOC, None)
        return self.rvalue(self.lv(n), n)

    e_ArraySubscriptExpr = e_MemberExpr

    def e_ImplicitCastExpr(self, n):
        k = n.d.get('castKind')
        x = n.kids[0]
        if k == 'ArrayToPointerDecay':
            y = x.strip()
            if y.kind == 'StringLiteral':
                return self.ev(y)
            return P(self.lv(x), V(0, self.dom.const(0, n)))
        if k == 'NullToPointer':
            return P(None)
        v = self.ev(x)
        if k == 'LValueToRValue' and isinstance(v, L) and self.cat(
                self.ntype(x)) not in ('rec', 'vec', 'arr'):
            v = self.read(v.loc, n)
        if k in ('IntegralCast', 'IntegralToFloating', 'FloatingCast',
                 'FloatingToIntegral', 'IntegralToBoolean',
                 'FloatingToBoolean'):
            if isinstance(v, V):
                return self.docast(v, n)
        return v

    def docast(self, v, n):
        t = clean(self.ntype(n))
        c = v.c
        if c is not NOC and not isinstance(c, str):
            try:
                if t in ('double', 'float', 'long double'):
                    c = float(c) if not float(c).is_integer() else c
                elif t == 'bool':
                    c = bool(c)
                elif t.endswith(('int', 'long', 'short', 'char')):
                    c = int(c)
            except Exception:
                pass
        return V(c, self.dom.cast(v, t, n))

    def castish(self, n):
        if not n.kids:
            return V(NOC, self.dom.unknown(n))
        v = self.ev(n.kids[0])
        if isinstance(v, V) and self.cat(self.ntype(n)) == 'num':
            return self.docast(v, n)
        return v

    e_CStyleCastExpr = e_CXXStaticCastExpr = castish
    e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = castish
    e_CXXConstCastExpr = castish

    def e_UnaryOperator(self, n):
        op = n.op
        if op == '&':
            return P(self.lv(n.kids[0]))
        if op == '*':
            return self.rvalue(self.deref(self.ev(n.kids[0]), None, n), n)
        if op in ('++', '--'):
            return self.incdec(n, self.lv(n.kids[0]))
        v = self.ev(n.kids[0])
        if op == '!':
            t = self.truth(v)
            if t is None:
                return V(NOC, self.dom.unknown(n))
            return V(not t, self.dom.const(not t, n))
        v = self.scalar(v, n)
        c = NOC
        if v.c is not NOC and not isinstance(v.c, str):
            c = -v.c if op == '-' else v.c if op == '+' else NOC
        return V(c, self.dom.unop(op, v, n))

    def incdec(self, n, loc):
        old = self.read(loc, n)
        one = V(1, self.dom.const(1, n))
        new = self.arith('+' if n.op == '++' else '-', old, one, n)
        self.write(loc, new, n)
        self.on_write(n, loc, new, old)
        return old if n.d.get('isPostfix') else new

    def e_BinaryOperator(self, n):
        op = n.op
        a, b = n.kids
        if op == '=':
            return self.assign(n, a, b)
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op in ('&&', '||'):
            x = self.truth(self.ev(a))
            if x is not None and x == (op == '||'):
                return V(x, self.dom.const(x, n))
            y = self.truth(self.ev(b))
            if x is None:
                if y is not None and y == (op == '||'):
                    return V(y, self.dom.const(y, n))
                return V(NOC, self.dom.unknown(n))
            if y is None:
                return V(NOC, self.dom.unknown(n))
            return V(y, self.dom.const(y, n))
        x = self.ev(a)
        y = self.ev(b)
        return self.arith(op, x, y, n)

    def assign(self, n, a, b):
        c = self.cat(self.ntype(a))
        if c in ('rec', 'vec', 'arr'):
            v = self.ev(b)
            loc = self.lv(a)
            if isinstance(v, L):
                if v.loc != loc:
                    self.copy_tree(v.loc, loc)
                    self.on_copy(n, v.loc, loc)
            return L(loc)
        v = self.ev(b)
        if self.st is None:
            return V(NOC, self.dom.unknown(n))
        loc = self.lv(a)
        if not isinstance(v, (V, P, Lam)):
            v = self.scalar(v, n)
        old = self.st.get(loc)
        v = self.conv_assign(v, n, a)
        self.write(loc, v, n)
        self.on_write(n, loc, v, old)
        return v

    def conv_assign(self, v, n, a):
        return v

    def on_copy(self, n, src, dst):
        """Hook: whole-object assignment."""

    def e_CompoundAssignOperator(self, n):
        a, b = n.kids
        v = self.ev(b)
        loc = self.lv(a)
        old = self.read(loc, n)
        new = self.arith(n.op[:-1], old, v, n)
        self.write(loc, new, n)
        self.on_write(n, loc, new, old)
        return new

    def e_ConditionalOperator(self, n):
        cv = self.ev(n.kids[0])
        t = self.truth(cv)
        self.on_branch(n, n.kids[0], t)
        if t is True:
            return self.ev(n.kids[1])
        if t is False:
            return self.ev(n.kids[2])
        s0 = self.st
        s1 = s0.fork()
        s2 = s0.fork()
        self.st = s1
        self.on_cond(n.kids[0], s1, True)
        a = self.ev(n.kids[1])
        s1 = self.st
        self.st = s2
        self.on_cond(n.kids[0], s2, False)
        b = self.ev(n.kids[2])
        s2 = self.st
        self.st = self.join_state(s1, s2, n)
        return self.select(n, a, b)

    def select(self, n, a, b):
        return self.join_val(a, b, n) if a is not None else b

    def e_UnaryExprOrTypeTraitExpr(self, n):
        return V(NOC, self.dom.const(1, n))

    def e_CXXDefaultArgExpr(self, n):
        if n.kids:
            return self.ev(n.kids[0])
        return V(NOC, self.dom.unknown(n))

    def e_ImplicitValueInitExpr(self, n):
        return V(0, self.dom.const(0, n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXStdInitializerListExpr(self, n):
        v = self.ev(n.kids[0])
        il = n.kids[0].strip()
        if isinstance(v, L) and il.kind == 'InitListExpr' and \
                self.st is not None:
            k = len(il.kids)
            self.st.set(v.loc + ('#size',), V(k, self.dom.const(k, n)))
        return v

    def e_InitListExpr(self, n):
        loc = self.new('init', n)
        c = self.cat(self.ntype(n))
        rec = self.record(self.ntype(n)) if c == 'rec' else None
        if c == 'num' and len(n.kids) == 1:
            return self.ev(n.kids[0])
        for i, k in enumerate(n.kids):
            key = i
            if rec is not None and i < len(rec[0].fields):
                key = rec[0].fields[i].name
            self.store(loc + (key,), self.ev(k), k)
        if not n.kids and c != 'num':
            pass
        f = n.d.get('array_filler')
        if f is not None or c == 'arr':
            self.st.set(loc + ('#zerofill',), V(True))
        return L(loc)

    def store(self, loc, v, node):
        if isinstance(v, L):
            if v.loc != loc:
                self.copy_tree(v.loc, loc)
        elif v is not None:
            self.write(loc, v, node)

    def e_LambdaExpr(self, n):
        return Lam(n, self.fr.env, self.fr.this)

    # -- construction --------------------------------------------------------
    def e_CXXConstructExpr(self, n):
        t = self.ntype(n)
        c = self.cat(t)
        if c == 'rec':
            loc = self.new(clean(t), n)
            self.construct(loc, t, n.kids, n)
            return L(loc)
        if c == 'vec':
            args = [self.ev(k) for k in n.kids]
            if args and isinstance(args[0], L) and n.kids[0].strip(
                    ).kind == 'CXXStdInitializerListExpr':
                loc = self.new(clean(t), n)
                self.copy_tree(args[0].loc, loc)
                return L(loc)
            if len(args) == 1 and isinstance(args[0], L):
                src = args[0]
                if self.cat(self.ntype(n.kids[0])) == 'vec':
                    loc = self.new(clean(t), n)
                    self.copy_tree(src.loc, loc)
                    return L(loc)
                return src
            loc = self.new(clean(t), n)
            if len(args) >= 2 and isinstance(args[1], V):
                self.write(loc + ('*',), args[1], n)
            elif len(args) >= 2 and isinstance(args[1], L):
                self.copy_tree(args[1].loc, loc + ('*',))
            elif args and isinstance(args[0], V):
                self.fill_default(loc + ('*',), elem_type(t), n)
            if args and isinstance(args[0], V) and args[0].c != 0 or (
                    args and isinstance(args[0], V)):
                self.st.set(loc + ('#size',), args[0])
            return L(loc)
        if c == 'str':
            if not n.kids:
                return V('', self.dom.const('', n))
            vs = [self.ev(k) for k in n.kids]
            return vs[0] if len([k for k in n.kids if k.kind !=
                                 'CXXDefaultArgExpr']) == 1 else \
                V(NOC, self.dom.unknown(n))
        if 'complex<' in t:
            vs = [self.ev(k) for k in n.kids
                  if k.kind != 'CXXDefaultArgExpr']
            vs = [self.scalar(v, n) for v in vs]
            if not vs:
                return V(0, self.dom.const(0, n))
            if len(vs) == 1:
                return vs[0]
            return V(NOC, self.dom.call('complex', vs, n))
        if len(n.kids) == 1:
            return self.ev(n.kids[0])
        for k in n.kids:
            self.ev(k)
        return V(NOC, self.dom.unknown(n))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def fill_default(self, loc, t, n):
        c = self.cat(t)
        if c == 'num' or c == 'str':
            z = '' if c == 'str' else 0
            self.write(loc, V(z, self.dom.const(z, n)), n)

    def construct(self, loc, t, args, n):
        """Run a constructor of record type t on loc."""
        from . import callgraph
        rec = self.record(t)
        if rec is None:
            return
        rec = rec[0]
        f = None
        if n is not None and n.kind in ('CXXConstructExpr',
                                        'CXXTemporaryObjectExpr'):
            f = callgraph.ctor_of(self.fr.tu, n)
        d = self.prog.definition(f) if f is not None else None
        m = self.models.get(rec.qual + '::' + rec.qual.split('::')[-1])
        if m is not None:
            vals = [self.ev(a) for a in args]
            r = m(self, n, vals, loc, f)
            if r is not NotImplemented:
                return
        if d is not None and not d[0].node.d.get('isImplicit'):
            self.invoke(d[0], d[1], args, loc, n)
            return
        if len(args) == 1 and self.record(self.ntype(args[0])) is not None \
                and self.record(self.ntype(args[0]))[0].qual == rec.qual:
            v = self.ev(args[0])
            src = v.loc if isinstance(v, L) else self.lv(args[0])
            self.copy_tree(src, loc)
            return
        for fld in rec.fields:
            if field_init(fld) is not None:
                self.frames.append(Frame(None, rec_tu(self.prog, rec), {},
                                         loc, n))
                self.store(loc + (fld.name,), self.ev(field_init(fld)), fld)
                self.frames.pop()

    def e_CXXNewExpr(self, n):
        loc = self.new('new', n)
        ctor = next((k for k in n.kids if k.kind in (
            'CXXConstructExpr', 'InitListExpr')), None)
        sizes = [k for k in n.kids if k is not ctor]
        if n.d.get('isArray'):
            for k in sizes[:1]:
                s = self.ev(k)
                if isinstance(s, V):
                    self.st.set(loc + ('#size',), s)
            if ctor is not None and ctor.kind == 'CXXConstructExpr' and \
                    self.cat(clean(self.ntype(ctor)).split('[')[0]) == 'rec':
                t = clean(self.ntype(ctor)).split('[')[0]
                self.construct(loc + ('*',), t, ctor.kids, ctor)
            elif 'complex<' in (n.desugared or n.type or '') or \
                    len(sizes) > 1 and sizes[1].kind in (
                        'ImplicitValueInitExpr', 'InitListExpr'):
                # value-initialised, or a class that starts at zero
                self.write(loc + ('*',), V(0, self.dom.const(0, n)), n)
            return P(loc, V(0, self.dom.const(0, n)))
        if ctor is not None and ctor.kind == 'CXXConstructExpr':
            self.construct(loc + (0,), self.ntype(ctor), ctor.kids, ctor)
        elif sizes:
            self.store(loc + (0,), self.ev(sizes[0]), n)
        return P(loc, V(0, self.dom.const(0, n)))

    def e_CXXDeleteExpr(self, n):
        p = self.ev(n.kids[0])
        self.on_delete(n, p)
        return None

    def on_delete(self, n, p):
        """Hook: delete expression."""

    def e_CXXThrowExpr(self, n):
        self.st = None
        return None

    # -- calls ----------------------------------------------------------------
    def e_CallExpr(self, n):
        f, name = self.fr.tu.callee(n)
        return self.docall(n, f, name, n.kids[1:], None)

    def e_CXXMemberCallExpr(self, n):
        f, name = self.fr.tu.callee(n)
        c = n.kids[0].strip()
        this = None
        if c.kind == 'MemberExpr' and c.kids:
            b = c.kids[0]
            if f is None and self.cat(self.ntype(b)) in ('num', 'str') and \
                    not c.d.get('isArrow'):
                v = self.ev(b)
                args = [self.ev(k) for k in n.kids[1:]]
                return self.scalar_method(n, name, v, args, b)
            if c.d.get('isArrow'):
                this = self.deref(self.ev(b), None, c)
            else:
                this = self.lv(b)
        return self.docall(n, f, name, n.kids[1:], this)

    def e_CXXOperatorCallExpr(self, n):
        f, name = self.fr.tu.callee(n)
        args = n.kids[1:]
        if name is None:
            return V(NOC, self.dom.unknown(n))
        op = name[len('operator'):]
        if op == '()':
            v = self.ev(args[0])
            if not isinstance(v, Lam):
                try:
                    v2 = self.read(self.lv(args[0]))
                    v = v2 if isinstance(v2, Lam) else v
                except Exception:
                    pass
            if isinstance(v, Lam):
                return self.call_lambda(v, args[1:], n)
        if f is not None and op == '=' and len(args) == 2 and \
                f.node.d.get('isImplicit'):
            return self.assign(n, args[0], args[1])
        if f is not None and self.prog.definition(f) is not None:
            d = self.prog.definition(f)
            if f.cls:
                return self.docall(n, f, name, args[1:], self.lv(args[0]))
            return self.docall(n, f, name, args, None)
        if op == '[]':
            c = self.cat(self.ntype(args[0]))
            if c in ('vec', 'arr', 'rec'):
                return self.rvalue(self.lv(n), n)
            vs = [self.ev(a) for a in args]
            return V(NOC, self.dom.unknown(n))
        if op == '=':
            return self.assign(n, args[0], args[1])
        if op in ('+=', '-=', '*=', '/='):
            v = self.ev(args[1])
            loc = self.lv(args[0])
            old = self.read(loc, n)
            new = self.arith(op[:-1], old, v, n)
            self.write(loc, new, n)
            self.on_write(n, loc, new, old)
            return new
        if op in CMP or (op in ARITH and len(args) == 2 and op not in (
                '<<', '>>')):
            a, b = self.ev(args[0]), self.ev(args[1])
            return self.arith(op, a, b, n)
        if op == '-' and len(args) == 1:
            v = self.scalar(self.ev(args[0]), n)
            return V(NOC, self.dom.unop('-', v, n))
        if op in ('++', '--'):
            return self.ev(args[0])
        if op == '*' and len(args) == 1:      # iterator dereference
            v = self.ev(args[0])
            if isinstance(v, P):
                return self.rvalue(self.deref(v, None, n), n)
            return V(NOC, v.d if isinstance(v, V) else
                     self.dom.unknown(n))
        r = V(NOC, self.dom.unknown(n))
        for a in args:
            v = self.ev(a)
            if op == '<<' and a is args[0]:
                r = v
        if op == '>>' and len(args) == 2 and self.st is not None and \
                self.cat(self.ntype(args[1])) in ('num', 'str') and \
                args[1].strip().kind == 'DeclRefExpr':
            self.write(self.lv(args[1]), V(NOC, self.dom.unknown(n)), n)
        return r

    def call_lambda(self, lam, args, n):
        meth = None
        for k in lam.node.walk():
            if k.kind == 'CXXMethodDecl' and k.name == 'operator()':
                meth = k
                break
        if meth is None:
            return V(NOC, self.dom.unknown(n))
        from .cxx import Func
        f = Func(meth, 'lambda')
        if f.body is None:
            f.body = next((k for k in lam.node.kids
                           if k.kind == 'CompoundStmt'), None)
        return self.invoke(f, self.fr.tu, args, lam.this, n, dict(lam.env))

    def docall(self, n, f, name, args, this):
        q = f.qual if f is not None else name
        m = self.models.get(q)
        if m is None and f is None:
            m = self.models.get(name)
        if m is not None:
            vals = [self.argval(a) for a in args]
            r = m(self, n, vals, this, f)
            if r is not NotImplemented:
                return r
        d = self.prog.definition(f)
        if d is not None:
            return self.invoke(d[0], d[1], args, this, n)
        vals = [self.argval(a) for a in args]
        if this is not None:
            return self.obj_method(n, name, this, vals)
        if f is None and name == 'getline' and len(args) > 1:
            self.write(self.lv(args[1]), V(NOC, self.dom.unknown(n)), n)
        return self.ext_call(n, name, vals)

    def argval(self, a):
        if a.kind == 'CXXDefaultArgExpr':
            return self.e_CXXDefaultArgExpr(a)
        return self.ev(a)

    def ext_call(self, n, name, vals):
        """Call to a function outside the repository."""
        if name in ('fftw_alloc_complex', 'fftw_malloc', 'malloc',
                    'fftw_alloc_real'):
            loc = self.new('alloc', n)
            if vals and isinstance(vals[0], V):
                self.st.set(loc + ('#size',), vals[0])
            return P(loc, V(0, self.dom.const(0, n)))
        if name in ('scanf', 'sscanf', 'fscanf', 'vsscanf'):
            for v in vals[1:]:
                if isinstance(v, P) and v.loc is not None and \
                        self.st.get(v.loc) is not None:
                    self.write(v.loc, V(NOC, self.dom.unknown(n)), n)
            return V(NOC, self.dom.unknown(n))
        if name in ('exit', 'abort', 'terminate'):
            self.st = None
            return V(NOC, self.dom.unknown(n))
        if name in ('move', 'forward') and vals:
            return vals[0]
        if name == 'fill' and len(vals) >= 3 and isinstance(vals[0], P):
            if vals[0].loc is not None:
                self.write(vals[0].loc + ('*',), self.scalar(vals[2], n), n)
            return V(NOC, self.dom.unknown(n))
        if name in ('copy', 'copy_n', 'memcpy', 'memmove') and \
                len(vals) >= 3:
            src, dst = (vals[0], vals[2]) if name.startswith('copy') else \
                (vals[1], vals[0])
            if isinstance(src, P) and isinstance(dst, P) and src.loc and \
                    dst.loc:
                self.copy_tree(src.loc, dst.loc)
                return dst
        if name in ('min_element', 'max_element') and vals and \
                isinstance(vals[0], P):
            return vals[0]
        if any(isinstance(v, P) for v in vals) and self.cat(
                self.ntype(n)) == 'ptr':
            return P(('unk:%s' % n.loc(),), V(0, self.dom.const(0, n)))
        sv = [v if isinstance(v, V) else v for v in vals]
        c = NOC
        return V(c, self.dom.call(name, sv, n))

    def scalar_method(self, n, name, v, args, base):
        if name in ('real', 'imag'):
            v = self.scalar(v, n)
            return V(v.c if name == 'real' else NOC,
                     self.dom.call(name, [v], n))
        if name == 'c_str' or name == 'str':
            return v if isinstance(v, V) else V(NOC, self.dom.unknown(n))
        if isinstance(v, V) and isinstance(v.c, str):
            s = v.c
            a = [x.c if isinstance(x, V) else NOC for x in args]
            if name in ('size', 'length'):
                return V(len(s), self.dom.const(len(s), n))
            if name == 'empty':
                return V(not s, self.dom.const(not s, n))
            if name in ('find', 'rfind') and a and isinstance(a[0], str):
                i = s.find(a[0])
                if i < 0:
                    i = NPOS
                return V(i, self.dom.const(i, n))
        if name == 'operator bool':
            return V(NOC, self.dom.unknown(n))
        if name == 'operator=':
            return args[0]
        return V(NOC, self.dom.call(name, [self.scalar(v, n)] + args, n))

    def obj_method(self, n, name, this, vals):
        """Method of a standard-library object at `this`."""
        if name == 'push_back' or name == 'emplace_back':
            if vals:
                v = vals[0]
                if isinstance(v, L):
                    for rel, x in self.st.under(v.loc):
                        cur = self.st.get(this + ('*',) + rel)
                        self.write(this + ('*',) + rel, x if cur is None
                                   else self.join_val(cur, x, n), n)
                elif v is not None:
                    cur = self.st.get(this + ('*',))
                    new = v if cur is None else self.join_val(cur, v, n)
                    self.write(this + ('*',), new, n)
                    self.on_write(n, this + ('*',), new, cur)
            return V(NOC, self.dom.unknown(n))
        if name in ('resize', 'assign'):
            if vals and isinstance(vals[0], V):
                self.st.set(this + ('#size',), vals[0])
            if len(vals) > 1 and isinstance(vals[1], V) and \
                    self.st.get(this + ('*',)) is None:
                self.write(this + ('*',), vals[1], n)
            elif len(vals) == 1 and self.st.get(this + ('*',)) is None:
                c = n.kids[0].strip()
                t = self.ntype(c.kids[0]) if c.kids else ''
                self.fill_default(this + ('*',), elem_type(t), n)
            return V(NOC, self.dom.unknown(n))
        if name == 'size':
            v = self.st.get(this + ('#size',))
            return v if v is not None else self.dom_size(this, n)
        if name in ('clear',):
            self.clear_tree(this)
            return V(NOC, self.dom.unknown(n))
        if name in ('begin', 'data', 'cbegin'):
            return P(this, V(0, self.dom.const(0, n)))
        if name in ('end', 'cend'):
            return P(this, V(NOC, self.dom.unknown(n)))
        if name in ('back', 'front', 'at'):
            key = '*' if name != 'at' else self.dom.index_key(vals[0])
            if name == 'front':
                key = 0
            return self.rvalue(this + (key,), n)
        if name == 'operator=':
            if vals and isinstance(vals[0], L):
                self.copy_tree(vals[0].loc, this)
            elif vals and isinstance(vals[0], V):
                self.write(this, vals[0], n)
            return L(this)
        return V(NOC, self.dom.call(name, [v for v in vals], n))

    def dom_size(self, this, n):
        return V(NOC, self.dom.call('size', [], n))

    def invoke(self, f, tu, args, this, n, env=None):
        """Inline a call: args are argument nodes (evaluated here) or
        values."""
        if len(self.frames) > self.max_depth or sum(
                1 for fr in self.frames if fr.func is not None and
                fr.func.key == f.key and f.qual != 'lambda') > 2:
            for a in args:
                if hasattr(a, 'kind'):
                    self.ev(a)
            return V(NOC, self.dom.unknown(n))
        env = {} if env is None else env
        binds = []
        for i, p in enumerate(f.params):
            if i < len(args):
                a = args[i]
                if hasattr(a, 'kind') and a.kind == 'CXXDefaultArgExpr':
                    a = default_arg(self.prog, f, i) or a
            else:
                a = default_arg(self.prog, f, i)
                if a is None:
                    binds.append((p, None, None))
                    continue
            t = p.desugared or p.type or ''
            if t.rstrip().endswith('&'):
                if hasattr(a, 'kind'):
                    binds.append((p, 'ref', self.lv(a)))
                elif isinstance(a, L):
                    binds.append((p, 'ref', a.loc))
                else:
                    binds.append((p, 'ref', self.tmp(a, n)))
            else:
                v = self.ev(a) if hasattr(a, 'kind') else a
                binds.append((p, 'val', v))
        if self.st is None:
            return V(NOC, self.dom.unknown(n))
        for p, how, v in binds:
            if how == 'ref':
                env[p.id] = v
            else:
                loc = self.new(p.name or 'arg', p)
                env[p.id] = loc
                if isinstance(v, L):
                    self.copy_tree(v.loc, loc)
                elif v is not None:
                    self.write(loc, v, p)
        fr = Frame(f, tu, env, this, n)
        fr.retloc = self.new('ret:' + (f.name or ''), n)
        self.frames.append(fr)
        self.reached[f.qual] = self.reached.get(f.qual, 0) + 1
        self.on_enter(f, fr)
        try:
            if f.node.kind == 'CXXConstructorDecl' and this is not None:
                self.ctor_inits(f, this)
            self.exec(f.body)
        finally:
            self.frames.pop()
        if self.st is not None:
            fr.rets.append((self.st, None))
        out = None
        val = None
        for s, v in fr.rets:
            if out is None:
                out, val = s, v
            else:
                out = self.join_state(out, s, n)
                if v is not None:
                    val = v if val is None else self.join_val(val, v, n)
        self.st = out
        self.on_leave(f, fr, val)
        if val is None:
            val = V(NOC, self.dom.unknown(n))
        return val

    def on_enter(self, f, fr):
        """Hook: a repository function is entered."""

    def on_leave(self, f, fr, val):
        """Hook: a repository function is left."""

    def ctor_inits(self, f, this):
        rec = self.prog.records.get(f.cls)
        given = {}
        for i in f.inits:
            a = i.d.get('anyInit')
            if a and i.kids:
                given[a.get('name')] = i.kids[0]
            elif 'delegatingInit' in i.d and i.kids:
                v = self.ev(i.kids[0])
                if isinstance(v, L):
                    self.copy_tree(v.loc, this)
        if rec is None:
            return
        for fld in rec[0].fields:
            if fld.name in given:
                k = given[fld.name]
                if k.kind == 'CXXDefaultInitExpr':
                    k = field_init(fld)
                if k is not None:
                    self.store(this + (fld.name,), self.ev(k), fld)
            elif field_init(fld) is not None:
                self.store(this + (fld.name,), self.ev(field_init(fld)),
                           fld)

    # -- statements -------------------------------------------------------
    def exec(self, n):
        if self.st is None or n is None:
            return
        m = getattr(self, 's_' + n.kind, None)
        if m is not None:
            m(n)
            return
        if n.kind.startswith('OMP') and n.kind.endswith('Directive'):
            self.s_omp(n)
            return
        if is_expr(n):
            self.ev(n)

    def s_Null(self, n):
        pass

    s_NullStmt = s_Null

    def s_CompoundStmt(self, n):
        for k in n.kids:
            if self.st is None:
                return
            self.exec(k)

    def s_DeclStmt(self, n):
        for k in n.kids:
            if k.kind == 'VarDecl':
                self.vardecl(k)

    def vardecl(self, k):
        t = k.desugared or k.type or ''
        init = None
        for x in k.kids:
            if is_expr(x):
                init = x
        if t.rstrip().endswith('&') and init is not None:
            self.fr.env[k.id] = self.lv(init)
            return
        loc = self.new(k.name or 'var', k)
        self.fr.env[k.id] = loc
        if init is None:
            return
        c = self.cat(t)
        if c == 'rec' and init.strip().kind in (
                'CXXConstructExpr', 'CXXTemporaryObjectExpr') and \
                self.record(self.ntype(init.strip())) is not None:
            s = init.strip()
            self.construct(loc, self.ntype(s), s.kids, s)
            self.on_decl(k, loc)
            return
        v = self.ev(init)
        if self.st is None:
            return
        if isinstance(v, L) and c in ('rec', 'vec', 'arr'):
            self.copy_tree(v.loc, loc)
        elif isinstance(v, Lam):
            self.st.set(loc, v)
        elif v is not None:
            if isinstance(v, L):
                v = self.scalar(v, k)
            v = self.conv_assign(v, k, k)
            self.write(loc, v, k)
            self.on_write(k, loc, v, None)
        self.on_decl(k, loc)

    def on_decl(self, k, loc):
        """Hook: a local variable was initialised."""

    def s_ReturnStmt(self, n):
        v = None
        if n.kids and returns_ref(self.fr.func):
            v = L(self.lv(n.kids[0]))
            if self.st is None:
                return
        elif n.kids:
            v = self.ev(n.kids[0])
            if self.st is None:
                return
            if isinstance(v, L):
                self.copy_tree(v.loc, self.fr.retloc)
                v = L(self.fr.retloc)
        self.fr.rets.append((self.st, v))
        self.st = None

    def s_IfStmt(self, n):
        kids = n.kids
        i = 0
        if n.d.get('hasInit'):
            self.exec(kids[i])
            i += 1
        if n.d.get('hasVar'):
            self.exec(kids[i])
            i += 1
        cond, then = kids[i], kids[i + 1]
        els = kids[i + 2] if len(kids) > i + 2 else None
        cv = self.ev(cond)
        if self.st is None:
            return
        t = self.truth(cv)
        self.on_branch(n, cond, t)
        if t is True:
            self.exec(then)
            return
        if t is False:
            self.exec(els)
            return
        s0 = self.st
        s1, s2 = s0.fork(), s0.fork()
        self.st = s1
        self.on_cond(cond, s1, True)
        self.exec(then)
        s1 = self.st
        self.st = s2
        self.on_cond(cond, s2, False)
        self.exec(els)
        s2 = self.st
        self.st = self.merge_if(n, cond, s0, s1, s2)

    def merge_if(self, n, cond, s0, s1, s2):
        return self.join_state(s1, s2, n)

    def loop_ctx(self):
        c = {'break': [], 'continue': []}
        self.fr.loops.append(c)
        return c

    def s_BreakStmt(self, n):
        if self.fr.loops:
            self.fr.loops[-1]['break'].append(self.st)
        self.st = None

    def s_ContinueStmt(self, n):
        if self.fr.loops:
            self.fr.loops[-1]['continue'].append(self.st)
        self.st = None

    def run_body(self, body, ctx):
        self.exec(body)
        for s in ctx['continue']:
            self.st = self.join_state(self.st, s, body)
        ctx['continue'] = []

    def loop_var(self, n):
        """(VarDecl id, name, node) assigned in a for-init."""
        init = n.kids[0]
        if init.kind == 'DeclStmt' and init.kids and \
                init.kids[0].kind == 'VarDecl':
            return init.kids[0].id, init.kids[0].name, init.kids[0]
        s = init.strip() if init.kids else init
        if s.kind == 'BinaryOperator' and s.op == '=':
            r = s.kids[0].strip()
            if r.kind == 'DeclRefExpr':
                return (r.ref or {}).get('id'), r.ref.get('name'), r
        return None

    def s_ForStmt(self, n):
        init, cv, cond, inc, body = (n.kids + [None] * 5)[:5]
        self.exec(init)
        if self.st is None:
            return
        has = cond is not None and cond.kind != 'Null'
        trips = 0
        ctx = self.loop_ctx()
        try:
            # constant trip count: follow it
            while has and self.st is not None:
                if not self.const_cond(cond):
                    break
                t = self.truth(self.ev(cond))
                if t is None:
                    break
                if t is False:
                    for s in ctx['break']:
                        self.st = self.join_state(self.st, s, n)
                    return
                trips += 1
                if trips > self.max_unroll:
                    break
                self.run_body(body, ctx)
                if self.st is not None and inc is not None and \
                        inc.kind != 'Null':
                    self.ev(inc)
            if self.st is None:
                for s in ctx['break']:
                    self.st = self.join_state(self.st, s, n)
                return
            self.abstract_loop(n, cond, inc, body, ctx)
        finally:
            self.fr.loops.pop()

    def const_cond(self, cond):
        return True

    def abstract_loop(self, n, cond, inc, body, ctx):
        pre = self.st.fork() if self.join_zero_trip else None
        lv = self.loop_var(n)
        if lv is not None and lv[0] in self.fr.env:
            loc = self.fr.env[lv[0]]
            v0 = self.read(loc, n)
            self.loopstack.append((n, lv[1], v0, cond))
            if not isinstance(v0, P):
                v = V(NOC, self.dom.loopvar(self, n, lv[1], v0))
                self.write(loc, v, n)
            if cond is not None and cond.kind != 'Null':
                self.ev(cond)
        else:
            self.loopstack.append((n, None, None, cond))
        for _ in range(self.loop_passes):
            if self.st is None:
                break
            self.run_body(body, ctx)
        if self.st is not None and inc is not None and inc.kind != 'Null':
            self.ev(inc)
        self.loopstack.pop()
        for s in ctx['break']:
            self.st = self.join_state(self.st, s, n)
        if pre is not None:
            self.st = self.join_state(self.st, pre, n)
        if lv is not None and lv[0] in self.fr.env and self.st is not None:
            self.write(self.fr.env[lv[0]], V(NOC, self.dom.loopvar(
                self, n, (lv[1] or '') + '#end', v0)), n)

    def s_WhileStmt(self, n):
        cond, body = n.kids[-2], n.kids[-1]
        ctx = self.loop_ctx()
        try:
            v = self.ev(cond)
            if self.truth(v) is False:
                return
            pre = self.st.fork()
            self.loopstack.append((n, None, None, cond))
            self.run_body(body, ctx)
            self.loopstack.pop()
            for s in ctx['break']:
                self.st = self.join_state(self.st, s, n)
            self.st = self.join_state(self.st, pre, n)
        finally:
            self.fr.loops.pop()

    def s_DoStmt(self, n):
        ctx = self.loop_ctx()
        try:
            self.loopstack.append((n, None, None, n.kids[1]))
            self.run_body(n.kids[0], ctx)
            self.loopstack.pop()
            for s in ctx['break']:
                self.st = self.join_state(self.st, s, n)
            if self.st is not None:
                self.ev(n.kids[1])
        finally:
            self.fr.loops.pop()

    def s_CXXForRangeStmt(self, n):
        decls = [k for k in n.kids if k.kind == 'DeclStmt']
        body = n.kids[-1]
        var = decls[-1].kids[0] if decls else None
        rng = decls[0].kids[0] if decls else None
        ctx = self.loop_ctx()
        try:
            loc = None
            if rng is not None and rng.kids:
                x = rng.kids[-1]
                if self.cat(self.ntype(x)) in ('vec', 'arr'):
                    loc = self.lv(x)
                else:
                    self.ev(x)
            if var is not None:
                t = var.desugared or var.type or ''
                if loc is not None and t.rstrip().endswith('&'):
                    self.fr.env[var.id] = loc + ('*',)
                else:
                    l2 = self.new(var.name or 'it', var)
                    self.fr.env[var.id] = l2
                    if loc is not None:
                        c = self.cat(t)
                        if c in ('rec', 'vec', 'arr'):
                            self.copy_tree(loc + ('*',), l2)
                        else:
                            self.write(l2, self.read(loc + ('*',), n), n)
            pre = self.st.fork() if self.join_zero_trip else None
            self.loopstack.append((n, None, None, None))
            self.run_body(body, ctx)
            self.loopstack.pop()
            for s in ctx['break']:
                self.st = self.join_state(self.st, s, n)
            if pre is not None:
                self.st = self.join_state(self.st, pre, n)
        finally:
            self.fr.loops.pop()

    def s_SwitchStmt(self, n):
        cond, body = n.kids[-2], n.kids[-1]
        v = self.ev(cond)
        stmts = []
        for k in body.kids:
            labels = []
            x = k
            while x.kind in ('CaseStmt', 'DefaultStmt'):
                labels.append(x)
                x = x.kids[-1]
            stmts.append((labels, x))
        starts = [i for i, (l, x) in enumerate(stmts) if l]
        pre = self.st
        out = None
        hasdef = False
        for i in starts:
            if any(l.kind == 'DefaultStmt' for l in stmts[i][0]):
                hasdef = True
            ctx = self.loop_ctx()
            self.st = pre.fork()
            for l, x in stmts[i:]:
                if self.st is None:
                    break
                self.exec(x)
            self.fr.loops.pop()
            for s in ctx['break']:
                self.st = self.join_state(self.st, s, n)
            if ctx['continue'] and self.fr.loops:
                self.fr.loops[-1]['continue'].extend(ctx['continue'])
            out = self.join_state(out, self.st, n)
        if not hasdef:
            out = self.join_state(out, pre, n)
        self.st = out

    def s_CXXTryStmt(self, n):
        pre = self.st.fork()
        self.exec(n.kids[0])
        out = self.st
        for h in n.kids[1:]:
            self.st = pre.fork()
            for k in h.kids:
                if k.kind == 'CompoundStmt':
                    self.exec(k)
            out = self.join_state(out, self.st, n)
        self.st = out

    def s_omp(self, n):
        for k in n.kids:
            if k.kind == 'CapturedStmt':
                c = next((x for x in k.kids if x.kind == 'CapturedDecl'),
                         None)
                if c is not None and c.kids:
                    self.exec(c.kids[0])
                return
        for k in n.kids:
            if k.kind.endswith(('Stmt', 'Expr', 'Operator')):
                self.exec(k)

    def s_CapturedStmt(self, n):
        c = next((x for x in n.kids if x.kind == 'CapturedDecl'), None)
        if c is not None and c.kids:
            self.exec(c.kids[0])

    # -- entry ------------------------------------------------------------
    def run(self, qual, args, this=None, pick=None):
        """Interpret the repository function `qual` on abstract values."""
        cands = self.prog.by_qual.get(qual, [])
        if pick is not None:
            cands = [c for c in cands if pick(c[0])]
        if not cands:
            raise AnalysisBroken(f'function {qual} not found')
        f, tu = cands[0]
        return self.invoke(f, tu, args, this, f.node)


NPOS = 2 ** 64 - 1


def field_init(fld):
    """Default member initialiser of a field, if any."""
    for k in reversed(fld.kids):
        if is_expr(k):
            return k
    return None


def returns_ref(f):
    t = (f.type or '') if f is not None else ''
    return t.split('(')[0].rstrip().endswith('&')


def _same(a, b):
    if isinstance(a, V) and isinstance(b, V):
        return a.c is not NOC and b.c is not NOC and a.c == b.c or a is b
    return a == b


def elem_type(t):
    t = clean(t)
    i = t.find('<')
    if i < 0:
        return ''
    depth, out = 0, ''
    for ch in t[i + 1:]:
        if ch == '<':
            depth += 1
        if ch == '>':
            if depth == 0:
                break
            depth -= 1
        if ch == ',' and depth == 0:
            break
        out += ch
    return out.strip()


def rec_tu(prog, rec):
    r = prog.records.get(rec.qual)
    return r[1] if r else prog.tus[0]


_DEF = {}


def default_arg(prog, f, i):
    """Default argument expression of parameter i, from any declaration."""
    key = (id(prog), f.key, i)
    if key in _DEF:
        return _DEF[key]
    r = None
    for tu in prog.tus:
        for g in tu.decls.values():
            if g.key == f.key and i < len(g.params):
                p = g.params[i]
                for x in p.kids:
                    if is_expr(x):
                        r = x
                        break
            if r is not None:
                break
        if r is not None:
            break
    _DEF[key] = r
    return r
