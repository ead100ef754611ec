"""Canonical text of C++ expressions, for comparing conditions.

Commutative operands are sorted, comparisons are oriented to < and <=, and
negation is pushed in, so `!(a >= b)`, `a < b` and `b > a` agree.
"""

NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}


def canon(n, subst=None, neg=False):
    subst = subst or {}
    n = n.strip()
    k = n.kind
    if k == 'UnaryOperator' and n.op == '!':
        return canon(n.kids[0], subst, not neg)
    if k == 'BinaryOperator' and n.op in ('&&', '||'):
        op = n.op
        if neg:
            op = '||' if op == '&&' else '&&'
        parts = []
        for c in n.kids:
            parts.append(canon(c, subst, neg))
        return '(' + f' {op} '.join(sorted(parts)) + ')'
    if k == 'BinaryOperator' and n.op in NEG:
        op = NEG[n.op] if neg else n.op
        a, b = canon(n.kids[0], subst), canon(n.kids[1], subst)
        return compare(op, a, b)
    if k == 'CXXOperatorCallExpr' and len(n.kids) == 3:
        nm = n.kids[0].strip()
        r = (nm.ref or {}).get('name', '')
        if r.startswith('operator') and r[8:] in NEG:
            op = NEG[r[8:]] if neg else r[8:]
            return compare(op, canon(n.kids[1], subst),
                           canon(n.kids[2], subst))
    if neg:
        return '!' + canon(n, subst)
    if k == 'DeclRefExpr':
        r = n.ref or {}
        if r.get('id') in subst:
            return subst[r['id']]
        return r.get('name') or '?'
    if k == 'CXXThisExpr':
        return 'this'
    if k == 'MemberExpr':
        base = canon(n.kids[0], subst) if n.kids else 'this'
        return f'{base}.{n.name}'
    if k in ('IntegerLiteral', 'FloatingLiteral'):
        v = n.const_value()
        return repr(int(v)) if float(v).is_integer() else repr(v)
    if k == 'CXXBoolLiteralExpr':
        return str(bool(n.d['value'])).lower()
    if k == 'StringLiteral':
        return n.d['value']
    if k in ('CXXConstructExpr', 'CXXFunctionalCastExpr',
             'CStyleCastExpr', 'CXXStaticCastExpr') and len(n.kids) == 1:
        return canon(n.kids[0], subst)
    if k == 'BinaryOperator' and n.op in ('+', '*'):
        parts = []

        def flat(x):
            y = x.strip()
            if y.kind == 'BinaryOperator' and y.op == n.op:
                flat(y.kids[0])
                flat(y.kids[1])
            else:
                parts.append(canon(y, subst))
        flat(n)
        return '(' + n.op.join(sorted(parts)) + ')'
    if k == 'BinaryOperator':
        return (f'({canon(n.kids[0], subst)}{n.op}'
                f'{canon(n.kids[1], subst)})')
    if k == 'UnaryOperator':
        return f'{n.op}({canon(n.kids[0], subst)})'
    if k in ('CallExpr', 'CXXMemberCallExpr'):
        return (canon(n.kids[0], subst) + '('
                + ','.join(canon(c, subst) for c in n.kids[1:]) + ')')
    if k == 'CXXOperatorCallExpr':
        nm = n.kids[0].strip()
        r = (nm.ref or {}).get('name', 'op')
        return r + '(' + ','.join(canon(c, subst) for c in n.kids[1:]) + ')'
    if k == 'ArraySubscriptExpr':
        return f'{canon(n.kids[0], subst)}[{canon(n.kids[1], subst)}]'
    return k + '(' + ','.join(canon(c, subst) for c in n.kids) + ')'


def compare(op, a, b):
    if op == '>':
        op, a, b = '<', b, a
    elif op == '>=':
        op, a, b = '<=', b, a
    elif op in ('==', '!='):
        a, b = sorted((a, b))
    return f'({a} {op} {b})'
