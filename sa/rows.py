"""Are the entries of text rows read within bounds?

Values remember that they are the content of a column-index cell, or exceed
it; conditions on the way establish that a column index is not negative and
that a row has more entries than it.  (A lower bound derived from the maximum
over the columns counts for a column whose index is negative, too: nothing
non-negative is below it.)"""
from . import fileio
from .absint import NOC, L, P, V

E0 = frozenset()


class RowDom(fileio.Dom):
    ai = None

    def unknown(self, node):
        return E0

    def const(self, v, node):
        return E0

    def binop(self, op, a, b, node):
        t = set()
        for x, y in ((a, b), (b, a)):
            if op == '+' and isinstance(y.c, int) and y.c >= 1 or \
                    op == '-' and x is a and isinstance(y.c, int) and \
                    y.c <= -1:
                t |= {('gt', r[1]) for r in x.d or E0
                      if r[0] in ('is', 'gt')}
            if op == '+' and isinstance(y.c, int) and y.c == 0:
                t |= set(x.d or E0)
        return frozenset(t)

    def cast(self, v, typ, node):
        return v.d if isinstance(v, V) else E0

    def unop(self, op, a, node):
        return E0

    def initial(self, ai, loc, node):
        return V(NOC, E0)

    def loopvar(self, ai, loop, var, init):
        return E0

    def call(self, name, args, node):
        if name in ('stod', 'stof', 'strtod', 'atof'):
            return frozenset({('entry',)})
        if name == 'max':
            t = set()
            for a in args:
                t |= set(a.d or E0) if isinstance(a, V) else set()
            return frozenset(r for r in t if r[0] == 'gt')
        if name == 'min':
            ds = [a.d or E0 if isinstance(a, V) else E0 for a in args]
            return ds[0].intersection(*ds[1:]) if ds else E0
        return E0

    def join(self, a, b, node=None):
        a, b = a or E0, b or E0
        t = set(a & b)
        if self.ai is not None and self.ai.joining:
            s1, s2 = self.ai.joining
            for r in a - b:
                if r[0] == 'gt' and self.ai.fact(s2, ('neg', r[1])):
                    t.add(r)
            for r in b - a:
                if r[0] == 'gt' and self.ai.fact(s1, ('neg', r[1])):
                    t.add(r)
        return frozenset(t)

    def compare(self, op, a, b, node):
        self.ai.cmps[id(node)] = (op, a, b)
        return None


class RowInterp(fileio.FailInterp):
    def __init__(self, prog):
        super().__init__(prog)
        self.dom = RowDom()
        self.dom.ai = self
        self.joining = None
        self.cmps = {}
        self.accesses = []      # (node, index tags, row loc, nonneg, inside)
        self.rows = set()

    # -- facts --------------------------------------------------------------
    def fact(self, st, f):
        v = st.get(('#fact', f)) if st is not None else None
        return v is not None and v.c == 1

    def join_state(self, s1, s2, node=None):
        old = self.joining
        self.joining = (s1, s2) if s1 is not None and s2 is not None else None
        try:
            r = super().join_state(s1, s2, node)
        finally:
            self.joining = old
        return r

    def join_missing(self, b, k, u, w, x, y, node):
        if b == '#fact':
            return V(NOC, E0)
        return super().join_missing(b, k, u, w, x, y, node)

    def rvalue(self, loc, n):
        v = super().rvalue(loc, n)
        if isinstance(v, V) and v.c is NOC and self.st is not None and \
                len(loc) > 1 and isinstance(loc[-1], int):
            v = V(NOC, (v.d or E0) | {('is', loc)})
        elif isinstance(v, V) and isinstance(v.c, int) and len(loc) > 1 \
                and isinstance(loc[-1], int):
            v = V(v.c, (v.d or E0) | {('is', loc)})
        return v

    def dom_size(self, this, n):
        return V(NOC, frozenset({('size', this)}))

    def obj_method(self, n, name, this, vals):
        if name == 'size':
            v = self.st.get(this + ('#size',))
            if v is None or v.c is NOC:
                return V(NOC, (v.d or E0 if v is not None else E0) |
                         {('size', this)})
        if name in ('push_back', 'emplace_back') and vals and \
                isinstance(vals[0], V) and ('entry', ) in (vals[0].d or E0):
            self.rows.add(this)
        if name in ('clear', 'resize', 'assign', 'pop_back', 'erase', 'swap'):
            for rel, v in list(self.st.under(('#fact',))):
                if rel and isinstance(rel[0], tuple) and \
                        rel[0][0] == 'in' and rel[0][1] == this:
                    self.st.set(('#fact',) + rel, V(NOC, E0))
        return super().obj_method(n, name, this, vals)

    def e_CXXOperatorCallExpr(self, n):
        f, name = self.fr.tu.callee(n)
        r = super().e_CXXOperatorCallExpr(n)
        if name == 'operator>>' and len(n.kids) == 3 and self.st is not None:
            a = n.kids[2].strip()
            t = self.ntype(a)
            if a.kind == 'DeclRefExpr' and t in ('double', 'float'):
                self.write(self.lv(a), V(NOC, frozenset({('entry',)})), n)
        return r

    def truth_of(self, op, a, b, positive):
        neg = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=',
               '!=': '=='}
        return op if positive else neg.get(op)

    def on_cond(self, cond, state, positive):
        s = cond.strip()
        while s.kind in ('ParenExpr', 'ExprWithCleanups') and s.kids:
            s = s.kids[0].strip()
        if s.kind == 'UnaryOperator' and s.op == '!':
            return self.on_cond(s.kids[0], state, not positive)
        if s.kind == 'BinaryOperator' and s.op in ('&&', '||'):
            if (s.op == '&&') == positive:
                for k in s.kids:
                    self.on_cond(k, state, positive)
            return
        c = self.cmps.get(id(s))
        if c is None:
            return
        op, a, b = c
        op = self.truth_of(op, a, b, positive)
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==',
                '!=': '!='}
        for o, x, y in ((op, a, b), (flip.get(op), b, a)):
            xt = x.d or E0 if isinstance(x, V) else E0
            yt = y.d or E0 if isinstance(y, V) else E0
            for r in xt:
                if r[0] == 'is' and isinstance(y, V) and \
                        isinstance(y.c, int):
                    k = y.c
                    if o == '>=' and k >= 0 or o == '>' and k >= -1 or \
                            o == '!=' and k == -1 or o == '==' and k >= 0:
                        state.set(('#fact', ('nn', r[1])), V(1, E0))
                    if o == '<' and k <= 0 or o == '<=' and k <= -1 or \
                            o == '==' and k < 0:
                        state.set(('#fact', ('neg', r[1])), V(1, E0))
                if r[0] == 'size':
                    for q in yt:
                        if q[0] == 'gt' and o in ('>=', '>', '==') or \
                                q[0] == 'is' and o == '>':
                            state.set(('#fact', ('in', r[1], q[1])),
                                      V(1, E0))
        super().on_cond(cond, state, positive)

    def on_index(self, node, p, i):
        self.access(node, getattr(p, 'loc', None), i)
        return super().on_index(node, p, i)

    def access(self, node, loc, i):
        if loc is None or loc not in self.rows or self.st is None:
            return
        tags = i.d or E0 if isinstance(i, V) else E0
        cells = [r[1] for r in tags if r[0] == 'is']
        self.accesses.append((node, loc, cells, [
            (self.fact(self.st, ('nn', c)),
             self.fact(self.st, ('in', loc, c))) for c in cells]))
