"""Flow-insensitive inference of the degree of integers in the mesh
dimensions: ngrid[a] has degree 1, products add, every variable, member,
parameter and return value takes the largest degree that reaches it."""
from .absint import clean, is_expr

WIDTH = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8,
         'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
         'unsigned': 32, 'long': 64, 'unsigned long': 64, 'long long': 64,
         'unsigned long long': 64, 'size_t': 64, 'ptrdiff_t': 64}
CAP = 6


def width(t):
    return WIDTH.get(clean(t))


class Degrees:
    """Fixpoint over all functions of the program."""

    def __init__(self, prog, seeds):
        self.prog = prog
        self.deg = {}          # key of variable/member/return -> degree
        self.seeds = seeds     # member name -> degree
        self.changed = True
        self.funcs = []
        seen = set()
        for fs in prog.by_qual.values():
            for f, tu in fs:
                if f.body is not None and f.key not in seen:
                    seen.add(f.key)
                    self.funcs.append((f, tu))
        self.flows = []        # (target key, source expr node, tu, f)
        self.loops = []
        self.memo = {}
        for f, tu in self.funcs:
            self.collect(f, tu)
        # a variable stored into a mesh dimension is one
        for tgt, src, tu, f, n in self.flows:
            if tgt[0] == 'm' and tgt[1] in seeds:
                s = src
                while s.kind.endswith('CastExpr') or s.kind in (
                        'ParenExpr', 'ExprWithCleanups'):
                    if not s.kids:
                        break
                    s = s.kids[0]
                k = self.key(s, tu, f) if s.kind in (
                    'DeclRefExpr', 'MemberExpr') else None
                if k is not None and k[0] == 'v':
                    self.deg[k] = seeds[tgt[1]]
        for _ in range(12):
            self.changed = False
            self.memo = {}
            for tgt, src, tu, f, n in self.flows:
                d = self.of(src, tu, f)
                if d > self.deg.get(tgt, 0):
                    self.deg[tgt] = min(d, CAP)
                    self.changed = True
            if not self.changed:
                break
        self.memo = {}

    # -- keys
    def key(self, n, tu, f):
        """Storage key of an lvalue expression."""
        while n.kind in ('ParenExpr', 'ImplicitCastExpr',
                         'ArraySubscriptExpr', 'ExprWithCleanups',
                         'MaterializeTemporaryExpr') and n.kids:
            n = n.kids[0]
        if n.kind == 'CXXOperatorCallExpr' and len(n.kids) > 1 and (
                n.kids[0].strip().ref or {}).get('name') == 'operator[]':
            return self.key(n.kids[1], tu, f)
        if n.kind == 'DeclRefExpr':
            r = n.ref or {}
            return ('v', f.key, r.get('id')) if r.get('kind') in (
                'VarDecl', 'ParmVarDecl') else ('g', r.get('name'))
        if n.kind == 'MemberExpr':
            return ('m', n.name)
        if n.kind == 'UnaryOperator' and n.op == '*':
            return self.key(n.kids[0], tu, f)
        return None

    def flow(self, tgt, src, tu, f, n):
        if tgt is not None and src is not None:
            self.flows.append((tgt, src, tu, f, n))

    def collect(self, f, tu):
        for i in f.inits:
            a = i.d.get('anyInit')
            if a and i.kids:
                self.flow(('m', a.get('name')), i.kids[0], tu, f, i)
        for n in f.body.walk():
            k = n.kind
            if k == 'VarDecl':
                ini = [x for x in n.kids if is_expr(x)]
                if ini and self.numeric(n.desugared or n.type or ''):
                    self.flow(('v', f.key, n.id), ini[-1], tu, f, n)
            elif k == 'BinaryOperator' and n.op == '=' or \
                    k == 'CompoundAssignOperator' and n.op in ('*=',):
                if self.numeric(n.desugared or n.type or ''):
                    if n.op == '*=':
                        self.flow(self.key(n.kids[0], tu, f), n, tu, f, n)
                    else:
                        self.flow(self.key(n.kids[0], tu, f), n.kids[1],
                                  tu, f, n)
            elif k == 'ForStmt':
                cond = n.kids[2] if len(n.kids) > 2 else None
                if cond is not None and cond.kind == 'BinaryOperator' and \
                        cond.op in ('<', '<=', '!=', '>', '>='):
                    a, b = cond.kids
                    inc = {x.id for x in ()}
                    ka = self.key(a, tu, f)
                    kb = self.key(b, tu, f)
                    iv = self.loopvars(n, tu, f)
                    if ka in iv:
                        self.flow(ka, b, tu, f, cond)
                        self.loops.append((n, a, b, tu, f))
                    elif kb in iv:
                        self.flow(kb, a, tu, f, cond)
                        self.loops.append((n, b, a, tu, f))
            elif k == 'ReturnStmt' and n.kids:
                self.flow(('r', f.key), n.kids[0], tu, f, n)
            elif k in ('CallExpr', 'CXXMemberCallExpr',
                       'CXXConstructExpr', 'CXXTemporaryObjectExpr',
                       'CXXOperatorCallExpr'):
                g = self.target(n, tu)
                if g is None:
                    continue
                args = n.kids if 'Construct' in k or 'Temporary' in k \
                    else n.kids[1:]
                for p, a in zip(g.params, args):
                    self.flow(('v', g.key, p.id), a, tu, f, n)

    def loopvars(self, n, tu, f):
        out = set()
        inc = n.kids[3] if len(n.kids) > 3 else None
        if inc is None:
            return out
        for x in inc.walk():
            if x.kind in ('UnaryOperator', 'CompoundAssignOperator',
                          'BinaryOperator') and x.kids and (
                              x.op in ('++', '--', '+=', '-=', '=')):
                out.add(self.key(x.kids[0], tu, f))
        out.discard(None)
        return out

    def target(self, n, tu):
        if n.kind in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            from .callgraph import ctor_of
            g = ctor_of(tu, n)
        else:
            g, _ = tu.callee(n)
        d = self.prog.definition(g) if g is not None else None
        return d[0] if d is not None else None

    @staticmethod
    def numeric(t):
        t = clean(t).replace('const ', '')
        return t in WIDTH or t in ('double', 'float', 'long double') or \
            t.endswith((']', '*')) or t.startswith(('std::vector', 'vector'))

    # -- expressions
    def of(self, n, tu, f):
        k = (id(n), f.key)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = 0
        r = self.memo[k] = min(max(self._of(n, tu, f), -CAP), CAP)
        return r

    def _of(self, n, tu, f):
        k = n.kind
        if k in ('DeclRefExpr', 'MemberExpr'):
            if k == 'MemberExpr' and n.name in self.seeds:
                return self.seeds[n.name]
            ky = self.key(n, tu, f)
            return self.deg.get(ky, 0)
        if k == 'ArraySubscriptExpr':
            return self.of(n.kids[0], tu, f)
        if k == 'BinaryOperator' or k == 'CompoundAssignOperator':
            op = n.op.rstrip('=') if k[0] == 'C' else n.op
            a, b = self.of(n.kids[0], tu, f), self.of(n.kids[1], tu, f)
            if op == '*':
                return a + b
            if op == '/':
                return a - b
            if op == '%':
                return min(max(a, 0), max(b, 0)) if b else a
            if op in ('+', '-'):
                return max(a, b)
            if op == '=':
                return b
            if op == ',':
                return b
            return 0
        if k == 'ConditionalOperator':
            return max(self.of(n.kids[1], tu, f), self.of(n.kids[2], tu, f))
        if k == 'UnaryOperator':
            return self.of(n.kids[0], tu, f) if n.op in (
                '-', '+', '++', '--', '*') else 0
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            g = self.target(n, tu)
            if g is not None:
                return self.deg.get(('r', g.key), 0)
            nm = tu.callee(n)[1]
            if nm == 'operator[]':
                return self.of(n.kids[1], tu, f)
            if nm in ('abs', 'floor', 'ceil', 'round', 'fabs', 'min',
                      'max', 'fmin', 'fmax', 'rint', 'trunc'):
                return max([self.of(a, tu, f) for a in n.kids[1:]] or [0])
            if nm == 'pow' and len(n.kids) > 2:
                e = n.kids[2].strip().const_value()
                if isinstance(e, (int, float)):
                    return int(self.of(n.kids[1], tu, f) * e)
            if nm == 'sqrt':
                return self.of(n.kids[1], tu, f) // 2
            return 0
        if k in ('UnaryExprOrTypeTraitExpr', 'StringLiteral',
                 'LambdaExpr'):
            return 0
        kids = [x for x in n.kids if is_expr(x)]
        if len(kids) == 1:
            return self.of(kids[0], tu, f)
        if k == 'InitListExpr' and kids:
            return max(self.of(x, tu, f) for x in kids)
        return 0
