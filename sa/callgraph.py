"""Call graph and may-throw analysis over the resolved C++ program."""
from .cxx import FUNC_KINDS

# Standard-library calls that raise on bad run-time values.
STD_THROWERS = {'at', 'stoi', 'stol', 'stoll', 'stod', 'stof', 'stoul',
                'stoull', 'substr'}
_CONV = {'invalid_argument', 'out_of_range'}
NEEDED = {k: _CONV for k in STD_THROWERS if k.startswith('sto')}
TERMINATORS = {'exit', '_exit', '_Exit', 'quick_exit', 'abort', 'terminate',
               'raise', 'kill', '__assert_fail'}
THROW_SKIP = {'LambdaExpr', 'CXXRecordDecl'}


def ctor_of(tu, expr):
    """Func declared for a constructor expression (repository classes)."""
    cls = (expr.desugared or expr.type or '')
    cls = cls.replace('const ', '').strip()
    # arrays of objects
    cls = cls.split('[')[0].strip()
    ct = expr.d.get('ctorType', {}).get('qualType')
    best = None
    for f in tu.decls.values():
        if f.node.kind == 'CXXConstructorDecl' and f.cls and (
                f.cls == cls or f.cls.endswith('::' + cls)):
            if f.type == ct:
                return f
            best = best or None
    return best


def calls(tu, root):
    """Yield (call node, declared Func or None, bare name)."""
    for n in root.walk():
        if n.kind in ('CallExpr', 'CXXMemberCallExpr',
                      'CXXOperatorCallExpr'):
            f, name = tu.callee(n)
            yield n, f, name
        elif n.kind in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            yield n, ctor_of(tu, n), None
        elif n.kind == 'CXXDeleteExpr':
            yield n, dtor_of(tu, n.kids[0]), None


def dtor_of(tu, expr):
    t = (expr.desugared or '').replace('*', '').replace('const', '').strip()
    for f in tu.decls.values():
        if f.node.kind == 'CXXDestructorDecl' and f.cls and (
                f.cls == t or f.cls.endswith('::' + t)):
            return f
    return None


class CallGraph:
    def __init__(self, prog):
        self.prog = prog
        self._ctors = {}
        self.edges = {}      # key -> [(node, Func decl or None, name)]
        for key, (f, tu) in prog.funcs.items():
            es = []
            roots = [f.body] + list(f.inits)
            for r in roots:
                if r is not None:
                    es.extend(calls(tu, r))
            # locals of class type run their destructor
            for n in f.body.walk():
                if n.kind == 'VarDecl' and n.type and n.type.endswith(
                        ('&', '*')) is False:
                    d = dtor_of(tu, n)
                    if d is not None:
                        es.append((n, d, d.name))
            self.edges[key] = es

    def reach(self, keys):
        """Keys of definitions reachable from the given definitions, with a
        parent map for paths."""
        seen = {}
        todo = [(k, None) for k in keys]
        while todo:
            k, par = todo.pop()
            if k in seen or k not in self.edges:
                continue
            seen[k] = par
            for n, f, name in self.edges[k]:
                if f is not None and f.key in self.edges:
                    todo.append((f.key, k))
        return seen

    def path(self, seen, k):
        out = []
        while k is not None:
            out.append(self.prog.funcs[k][0].qual)
            k = seen[k]
        return ' <- '.join(out)

    # -- throwing ---------------------------------------------------------
    def direct_throws(self, key):
        """[(node, what)] exceptions raised in the body itself and not
        caught within it."""
        f, tu = self.prog.funcs[key]
        out = []
        for n in f.body.walk():
            w = None
            if n.kind == 'CXXThrowExpr':
                w = 'throw'
            elif n.kind in ('CallExpr', 'CXXMemberCallExpr'):
                g, name = tu.callee(n)
                if name in STD_THROWERS and (g is None) and not (
                        name == 'substr' and (
                            len(n.kids) < 2
                            or n.kids[1].const_value() is not None)):
                    w = f'{name}()'
            if w and not self.caught(n, f.body, w):
                out.append((n, w))
        return out

    def caught(self, n, stop, what=None):
        """Is the exception raised at n handled by an enclosing try whose
        handlers cannot let it out again?"""
        cur, child = n.parent, n
        while cur is not None:
            if cur.kind == 'CXXTryStmt' and cur.kids and \
                    cur.kids[0] is child:
                got = set()
                hs = [h for h in cur.kids if h.kind == 'CXXCatchStmt']
                for h in hs:
                    decl = next((k for k in h.kids
                                 if k.kind == 'VarDecl'), None)
                    if decl is None:
                        return True
                    t = (decl.desugared or decl.type or '')
                    if 'std::exception' in t:
                        return True
                    if what and what.endswith('()'):
                        got.add(t.split('::')[-1].split()[0].strip('& '))
                        if 'logic_error' in got or \
                                NEEDED.get(what[:-2],
                                           {'out_of_range'}) <= got:
                            return True
                    if what == 'throw':
                        tt = thrown_type(n)
                        if tt and tt.split('::')[-1] in t:
                            return True
            if cur is stop:
                return False
            child, cur = cur, cur.parent
        return False

    def may_throw(self):
        """key -> (node, reason, next key or None) for functions out of
        which a repository-raised error can propagate."""
        out = {}
        for k in self.edges:
            d = self.direct_throws(k)
            if d:
                out[k] = (d[0][0], d[0][1], None)
        changed = True
        while changed:
            changed = False
            for k, es in self.edges.items():
                if k in out:
                    continue
                f, tu = self.prog.funcs[k]
                for n, g, name in es:
                    if g is not None and g.key in out and not self.caught(
                            n, f.body):
                        out[k] = (n, f'calls {g.qual}', g.key)
                        changed = True
                        break
        return out


def thrown_type(n):
    for k in n.walk():
        if k.kind in ('CXXConstructExpr', 'CXXTemporaryObjectExpr',
                      'CXXFunctionalCastExpr'):
            return (k.type or '').replace('const ', '').strip()
    return None


# -- guarded throws ---------------------------------------------------------
def leaves(stmt):
    """Does every path through the statement leave the function?"""
    if stmt is None:
        return False
    if stmt.kind in ('ReturnStmt', 'CXXThrowExpr'):
        return True
    if stmt.kind == 'ExprWithCleanups':
        return leaves(stmt.kids[0]) if stmt.kids else False
    if stmt.kind == 'CompoundStmt':
        return any(leaves(k) for k in stmt.kids)
    if stmt.kind == 'IfStmt' and len(stmt.kids) == 3:
        return leaves(stmt.kids[1]) and leaves(stmt.kids[2])
    return False


def guards(node, stop):
    """[(condition node, negated)] of the ifs enclosing node in stop."""
    out = []
    child, cur = node, node.parent
    while cur is not None and child is not stop:
        if cur.kind == 'IfStmt' and cur.kids and child is not cur.kids[0]:
            neg = len(cur.kids) > 2 and child is cur.kids[2]
            out.append((cur.kids[0], neg))
        child, cur = cur, cur.parent
    return out


class ThrowConds:
    """Conditions under which a function raises, over its parameters."""

    def __init__(self, graph, mt):
        self.g, self.mt = graph, mt
        self.memo = {}

    def of(self, key, depth=0):
        """Set of canonical conditions ($i for parameters); '?' when a
        raise is not described by conditions on parameters and members."""
        from .canon import canon
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {'?'}
        f, tu = self.g.prog.funcs[key]
        sub = {p.id: f'${i}' for i, p in enumerate(f.params)}
        out = set()
        locs = {n.name for n in f.body.walk() if n.kind == 'VarDecl'}

        def cond(node):
            gs = [canon(c, sub, neg) for c, neg in guards(node, f.body)]
            if not gs:
                return '?'
            best = gs[0]
            if any(l and l in best for l in locs):
                return '?'
            return best
        for n, w in self.g.direct_throws(key):
            out.add(cond(n))
        for n, g, name in self.g.edges[key]:
            if g is not None and g.key in self.mt and g.key in \
                    self.g.edges and not self.g.caught(n, f.body):
                inner = self.of(g.key, depth + 1)
                outer = [canon(c, sub, neg)
                         for c, neg in guards(n, f.body)]
                args = n.kids[1:] if n.kind != 'CXXConstructExpr' else \
                    n.kids
                for c in inner:
                    if c == '?':
                        out.add(outer[0] if outer else '?')
                    else:
                        out.add(instantiate(c, [canon(a, sub)
                                                for a in args]))
        self.memo[key] = out
        return out

    def established(self, f, tu, node):
        """Conditions known false at node: an earlier statement of an
        enclosing block leaves the function (or raises) when they hold, or
        an enclosing if excludes them."""
        from .canon import canon
        out = set()
        child, cur = node, node.parent
        while cur is not None:
            if cur.kind == 'CompoundStmt':
                for s in cur.kids:
                    if s is child:
                        break
                    if s.kind == 'IfStmt' and leaves(s.kids[1]):
                        out.add(canon(s.kids[0]))
                    for n in s.walk():
                        if n.kind in ('IfStmt', 'ForStmt', 'WhileStmt',
                                      'LambdaExpr'):
                            break
                        if n.kind in ('CallExpr', 'CXXMemberCallExpr'):
                            g, name = tu.callee(n)
                            if g is not None and g.key in self.g.edges:
                                for c in self.of(g.key) if g.key in \
                                        self.mt else ():
                                    if c != '?':
                                        out.add(instantiate(c, [
                                            canon(a)
                                            for a in n.kids[1:]]))
            elif cur.kind == 'IfStmt' and child is not cur.kids[0]:
                neg = len(cur.kids) > 2 and child is cur.kids[2]
                out.add(canon(cur.kids[0], None, not neg))
            if cur is f.body:
                break
            child, cur = cur, cur.parent
        return out


def instantiate(cond, args):
    import re
    return re.sub(r'\$(\d+)', lambda m: args[int(m.group(1))]
                  if int(m.group(1)) < len(args) else '?', cond)
