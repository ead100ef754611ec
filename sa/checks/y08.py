"""Y08: multipole indices form a strict total order."""
import ast
import itertools
import os

from ..cxx import AnalysisBroken, REPO

EXPLANATION = (
    'Abstract interpretation of the comparison methods of the multipole '
    'class over the finite domain of sign vectors (for each component '
    'whether the left index is below, equal to or above the right one), '
    'for index lengths 1 to 4.  Trichotomy, agreement of the six '
    'comparison operators and of hashing, and transitivity are decided '
    'on the resulting relation; no multipole is constructed.')

SIGNS = (-1, 0, 1)


class Unknown(Exception):
    pass


class Raised(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Comp:
    """Component i of one side's index."""
    def __init__(self, side, i):
        self.side, self.i = side, i


class Obj:
    def __init__(self, side):
        self.side = side


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Cls:
    pass


class Interp:
    """Mini interpreter of method bodies on abstract multipoles."""

    def __init__(self, methods, n, signs, choice, total=False):
        self.m, self.n, self.s = methods, n, signs
        self.choice = choice        # decisions on unrelated comparisons
        self.asked = []
        self.total = total
        self.steps = 0
        self.depth = 0

    # -- relation between components
    def rel(self, a, b):
        if isinstance(a, Comp) and isinstance(b, Comp):
            if a.side == b.side:
                if a.i == b.i:
                    return 0
            elif a.i == b.i:
                r = self.s[a.i]
                return r if a.side == 's' else -r
            key = (a.side, a.i, b.side, b.i)
            if key not in self.choice:
                self.asked.append(key)
                raise Unknown('component')
            return self.choice[key]
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return (a > b) - (a < b)
        raise Unknown('comparison')

    def compare(self, op, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            r = 0
            for x, y in zip(a, b):
                r = self.order(x, y)
                if r:
                    break
            if not r:
                r = (len(a) > len(b)) - (len(a) < len(b))
        elif isinstance(a, Obj) and isinstance(b, Obj):
            nm = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.Lt: '__lt__',
                  ast.Gt: '__gt__', ast.LtE: '__le__',
                  ast.GtE: '__ge__'}.get(type(op))
            if nm is None:
                return a is b if isinstance(op, ast.Is) else a is not b
            return self.operator(nm, a, b)
        elif a is None or b is None:
            e = a is b
            if isinstance(op, (ast.Is, ast.Eq)):
                return e
            if isinstance(op, (ast.IsNot, ast.NotEq)):
                return not e
            raise Unknown('none')
        else:
            r = self.rel(a, b)
        t = type(op)
        if t is ast.Eq:
            return r == 0
        if t is ast.NotEq:
            return r != 0
        if t is ast.Lt:
            return r < 0
        if t is ast.Gt:
            return r > 0
        if t is ast.LtE:
            return r <= 0
        if t is ast.GtE:
            return r >= 0
        raise Unknown('operator')

    def order(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            for p, q in zip(x, y):
                r = self.order(p, q)
                if r:
                    return r
            return (len(x) > len(y)) - (len(x) < len(y))
        return self.rel(x, y)

    def operator(self, nm, a, b):
        """a <op> b with Python's fallbacks."""
        if nm in self.m:
            return self.call(nm, [a, b])
        if nm == '__ne__':
            return not self.operator('__eq__', a, b)
        refl = {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__',
                '__ge__': '__le__'}
        if self.total and nm in refl:
            have = next((x for x in ('__lt__', '__le__', '__gt__', '__ge__')
                         if x in self.m), None)
            if have:
                e = self.operator('__eq__', a, b)
                h = self.call(have, [a, b])
                lt = h if have == '__lt__' else (h and not e) \
                    if have == '__le__' else (not h and not e) \
                    if have == '__gt__' else not h
                return {'__lt__': lt, '__le__': lt or e,
                        '__gt__': not lt and not e,
                        '__ge__': not lt}[nm]
        if nm in refl and refl[nm] in self.m:
            return self.call(refl[nm], [b, a])
        raise Unknown(f'{nm} is not defined')

    def call(self, name, args):
        fn = self.m.get(name)
        if fn is None:
            raise Unknown(f'method {name}')
        self.depth += 1
        if self.depth > 30:
            raise Unknown('recursion')
        deco = {getattr(d, 'id', getattr(d, 'attr', '')) for d in
                fn.decorator_list}
        if 'staticmethod' in deco:
            args = args[1:]
        env = dict(zip([a.arg for a in fn.args.args], args))
        try:
            self.block(fn.body, env)
            r = None
        except Ret as e:
            r = e.v
        self.depth -= 1
        return r

    # -- statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > 5000:
            raise Unknown('too long')
        if isinstance(st, ast.Return):
            raise Ret(self.ev(st.value, env) if st.value else None)
        if isinstance(st, ast.If):
            self.block(st.body if self.truth(self.ev(st.test, env))
                       else st.orelse, env)
        elif isinstance(st, ast.Expr):
            if not isinstance(st.value, ast.Constant):
                self.ev(st.value, env)
        elif isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets:
                self.bind(t, v, env)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            self.bind(st.target, self.ev(st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            self.bind(st.target, self.bin(st.op, self.ev(
                st.target, env), self.ev(st.value, env)), env)
        elif isinstance(st, ast.For):
            it = self.ev(st.iter, env)
            if not isinstance(it, tuple):
                raise Unknown('iteration')
            for x in it:
                self.bind(st.target, x, env)
                try:
                    self.block(st.body, env)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.block(st.orelse, env)
        elif isinstance(st, ast.While):
            while self.truth(self.ev(st.test, env)):
                self.steps += 1
                if self.steps > 5000:
                    raise Unknown('too long')
                try:
                    self.block(st.body, env)
                except Brk:
                    break
                except Cont:
                    continue
        elif isinstance(st, ast.Break):
            raise Brk()
        elif isinstance(st, ast.Continue):
            raise Cont()
        elif isinstance(st, ast.Raise):
            raise Raised()
        elif isinstance(st, ast.Assert):
            if not self.truth(self.ev(st.test, env)):
                raise Raised()
        elif isinstance(st, ast.Pass):
            pass
        else:
            raise Unknown(type(st).__name__)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Tuple) and isinstance(v, tuple):
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                rest = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], v):
                    self.bind(e, x, env)
                self.bind(t.elts[k].value, v[k:len(v) - rest], env)
                for e, x in zip(t.elts[k + 1:], v[len(v) - rest:]):
                    self.bind(e, x, env)
                return
            if len(t.elts) != len(v):
                raise Raised()
            for e, x in zip(t.elts, v):
                self.bind(e, x, env)
        else:
            raise Unknown('assignment')

    def truth(self, v):
        if isinstance(v, (bool, int)) or v is None:
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        raise Unknown('truth value')

    # -- expressions
    def ev(self, e, env):
        k = type(e)
        if k is ast.Constant:
            return e.value
        if k is ast.Name:
            if e.id in env:
                return env[e.id]
            if e.id in ('True', 'False', 'None'):
                return {'True': True, 'False': False, 'None': None}[e.id]
            if e.id == 'NotImplemented':
                raise Unknown('NotImplemented')
            return e.id
        if k is ast.Attribute:
            o = self.ev(e.value, env)
            if isinstance(o, Obj):
                if e.attr == 'index':
                    return tuple(Comp(o.side, i) for i in range(self.n))
                if e.attr == '__class__':
                    return 'class'
                if e.attr in self.m:
                    fn = self.m[e.attr]
                    if any(getattr(d, 'id', '') == 'property'
                           for d in fn.decorator_list):
                        return self.call(e.attr, [o])
                    return Bound(o, e.attr)
            raise Unknown(f'attribute {e.attr}')
        if k is ast.Tuple or k is ast.List:
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, env)
                    if not isinstance(v, tuple):
                        raise Unknown('star')
                    out.extend(v)
                else:
                    out.append(self.ev(x, env))
            return tuple(out)
        if k is ast.Compare:
            left = self.ev(e.left, env)
            for op, c in zip(e.ops, e.comparators):
                right = self.ev(c, env)
                if not self.compare(op, left, right):
                    return False
                left = right
            return True
        if k is ast.BoolOp:
            v = None
            for x in e.values:
                v = self.ev(x, env)
                if self.truth(v) == isinstance(e.op, ast.Or):
                    return v
            return v
        if k is ast.UnaryOp:
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(e.op, ast.USub) and isinstance(v, int):
                return -v
            raise Unknown('unary')
        if k is ast.IfExp:
            return self.ev(e.body if self.truth(self.ev(e.test, env))
                           else e.orelse, env)
        if k is ast.Subscript:
            o = self.ev(e.value, env)
            if isinstance(o, Obj):
                if '__getitem__' in self.m:
                    return self.call('__getitem__', [
                        o, self.ev(e.slice, env)])
                raise Unknown('subscript')
            if not isinstance(o, tuple):
                raise Unknown('subscript')
            if isinstance(e.slice, ast.Slice):
                p = [None if x is None else self.ev(x, env) for x in (
                    e.slice.lower, e.slice.upper, e.slice.step)]
                if any(isinstance(x, Comp) for x in p):
                    raise Unknown('slice')
                return o[slice(*p)]
            i = self.ev(e.slice, env)
            if isinstance(i, slice):
                return o[i]
            if not isinstance(i, int):
                raise Unknown('index')
            try:
                return o[i]
            except IndexError:
                raise Raised()
        if k is ast.BinOp:
            return self.bin(e.op, self.ev(e.left, env),
                            self.ev(e.right, env))
        if k is ast.Call:
            return self.docall(e, env)
        if k in (ast.GeneratorExp, ast.ListComp):
            out = []

            def gen(i, env):
                if i == len(e.generators):
                    out.append(self.ev(e.elt, env))
                    return
                g = e.generators[i]
                it = self.ev(g.iter, env)
                if not isinstance(it, tuple):
                    raise Unknown('iteration')
                for x in it:
                    en = dict(env)
                    self.bind(g.target, x, en)
                    if all(self.truth(self.ev(c, en)) for c in g.ifs):
                        gen(i + 1, en)
            gen(0, env)
            return tuple(out)
        if k is ast.JoinedStr:
            return 'text'
        raise Unknown(k.__name__)

    def bin(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, tuple) and \
                isinstance(b, tuple):
            return a + b
        if isinstance(a, int) and isinstance(b, int):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
        raise Unknown('arithmetic')

    def docall(self, e, env):
        args = [self.ev(a, env) for a in e.args]
        if isinstance(e.func, ast.Name):
            nm = e.func.id
            if nm in env:
                raise Unknown('call')
            if nm == 'len' and isinstance(args[0], tuple):
                return len(args[0])
            if nm == 'zip':
                return tuple(zip(*args))
            if nm == 'reversed' and isinstance(args[0], tuple):
                return tuple(reversed(args[0]))
            if nm in ('tuple', 'list') and isinstance(args[0], tuple):
                return args[0]
            if nm == 'range' and all(isinstance(a, int) for a in args):
                return tuple(range(*args))
            if nm == 'enumerate':
                return tuple(enumerate(args[0]))
            if nm == 'isinstance':
                return True
            if nm == 'type':
                return 'class'
            if nm in ('all', 'any') and isinstance(args[0], tuple):
                vs = [self.truth(x) for x in args[0]]
                return all(vs) if nm == 'all' else any(vs)
            if nm == 'bool':
                return self.truth(args[0])
            if nm == 'hash':
                return ('hash', args[0])
            if nm == 'slice':
                return slice(*args)
            raise Unknown(f'call of {nm}')
        f = self.ev(e.func, env)
        if isinstance(f, Bound):
            return self.call(f.name, [f.obj] + args)
        raise Unknown('call')


def relation(methods, n, total, nm, signs):
    """Possible outcomes of s <nm> o: a set of True/False/'raise'."""
    out = set()
    todo = [{}]
    while todo:
        ch = todo.pop()
        it = Interp(methods, n, signs, ch, total)
        try:
            out.add(bool(it.operator(nm, Obj('s'), Obj('o'))))
        except Raised:
            out.add('raise')
        except Unknown:
            if not it.asked:
                raise
            if len(ch) > 6:
                raise
            for v in SIGNS:
                todo.append({**ch, it.asked[-1]: v})
    return out


def find_class():
    d = os.path.join(REPO, 'src/triumvirate')
    out = []
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.py'):
            continue
        with open(os.path.join(d, fn), encoding='utf-8') as f:
            tree = ast.parse(f.read())
        classes = {c.name: c for c in ast.walk(tree)
                   if isinstance(c, ast.ClassDef)}
        for c in classes.values():
            m = gather(c, classes)
            if any(x in m for x in ('__lt__', '__gt__', '__le__',
                                    '__ge__')):
                out.append((fn, c, m))
    return out


def gather(c, classes):
    m = {}
    for b in c.bases:
        if isinstance(b, ast.Name) and b.id in classes:
            m.update(gather(classes[b.id], classes))
    for x in c.body:
        if isinstance(x, ast.FunctionDef):
            m[x.name] = x
        elif isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) \
                and x.value.id in m:
            for t in x.targets:
                if isinstance(t, ast.Name):
                    m[t.id] = m[x.value.id]
    return m


def check(rep, tier):
    rep.rule('trichotomy', 'For distinct indices exactly one of < and > '
             'holds, for equal ones neither.')
    rep.rule('operators', '<, >, <=, >=, ==, != agree with each other.')
    rep.rule('transitivity', 'a < b and b < c imply a < c.')
    rep.rule('hash', 'Equality compares the whole index and hashing uses '
             'only the index.')
    rep.rule('index', 'Every construction path stores the index as a tuple '
             'of int.')
    found = find_class()
    if not found:
        raise AnalysisBroken('no class with ordering methods found')
    for fn, c, m in found:
        one(rep, fn, c, m)
    rep.need('trichotomy', 3)
    rep.need('transitivity', 3)


def one(rep, fn, c, m):
    deco = {getattr(d, 'id', getattr(d, 'attr', '')) for d in
            c.decorator_list}
    total = 'total_ordering' in deco
    name = c.name
    at = {k: f'src/triumvirate/{fn}:{m[k].lineno}' for k in m}
    cls = f'src/triumvirate/{fn}:{c.lineno}'

    def w(k):
        return at.get(k, cls)
    for n in (1, 2, 3, 4):
        vecs = list(itertools.product(SIGNS, repeat=n))
        R = {}
        unknown = None
        for nm in ('__lt__', '__gt__', '__le__', '__ge__', '__eq__',
                   '__ne__'):
            for v in vecs:
                try:
                    R[nm, v] = relation(m, n, total, nm, v)
                except Unknown as e:
                    unknown = (nm, str(e))
                    R[nm, v] = None
        bad = False

        def val(nm, v):
            r = R[nm, v]
            return next(iter(r)) if r is not None and len(r) == 1 else None
        for nm in ('__lt__', '__gt__', '__le__', '__ge__', '__eq__'):
            amb = [v for v in vecs if R[nm, v] is not None and
                   len(R[nm, v]) > 1]
            if amb:
                rep.bad('trichotomy', f'{name}.{nm}', w(nm),
                        f'the outcome for indices of length {n} depends on '
                        'comparing different components')
                bad = True
            rs = [v for v in vecs if R[nm, v] is not None and
                  'raise' in R[nm, v]]
            if rs:
                rep.bad('operators', f'{name}.{nm}', w(nm),
                        f'raises for indices of equal length {n}')
                bad = True
        if bad:
            continue
        if unknown:
            rep.undecided('trichotomy', f'{name} length {n}', cls,
                          f'{unknown[0]}: {unknown[1]}')
            rep.undecided('transitivity', f'{name} length {n}', cls,
                          'order not followed')
            continue
        tri = ops = None
        for v in vecs:
            neg = tuple(-x for x in v)
            zero = not any(v)
            lt, gt = val('__lt__', v), val('__gt__', v)
            if zero and (lt or gt):
                tri = tri or ('__lt__' if lt else '__gt__', v,
                              'an index precedes or follows itself')
            if not zero and lt == val('__lt__', neg):
                tri = tri or ('__lt__', v, 'two distinct indices are ' + (
                    'each below the other' if lt else 'unordered by <'))
            if not zero and gt == val('__gt__', neg):
                tri = tri or ('__gt__', v, 'two distinct indices are ' + (
                    'each above the other' if gt else 'unordered by >'))
            if val('__eq__', v) != zero:
                ops = ops or ('__eq__', v, 'equality does not compare the '
                              'whole index')
            if val('__ne__', v) == zero:
                ops = ops or ('__ne__', v, '!= is not the negation of ==')
            if gt != val('__lt__', neg):
                ops = ops or ('__gt__', v, 'a > b differs from b < a')
            if val('__le__', v) != (lt or zero):
                ops = ops or ('__le__', v, '<= differs from < or ==')
            if val('__ge__', v) != (gt or zero):
                ops = ops or ('__ge__', v, '>= differs from > or ==')
        for rule, b in (('trichotomy', tri), ('operators', ops)):
            if b:
                rep.bad(rule, f'{name}.{b[0]}', w(b[0]),
                        f'length {n}, component relations {b[1]}: {b[2]}')
            else:
                rep.ok(rule, f'{name} length {n}', cls,
                       f'{len(vecs)} relation vectors')
        if n > 3:
            rep.ok('transitivity', f'{name} length {n}', cls,
                   'decided for lengths up to 3') if False else None
            continue
        tr = None
        lts = [v for v in vecs if val('__lt__', v)]
        for u in lts:
            for x in lts:
                opts = [SIGNS if a * b < 0 else ((a or b),)
                        for a, b in zip(u, x)]
                for s in itertools.product(*opts):
                    if not val('__lt__', s):
                        tr = tr or (u, x, s)
        if tr:
            rep.bad('transitivity', f'{name}.__lt__', w('__lt__'),
                    f'length {n}: relations {tr[0]} and {tr[1]} compose to '
                    f'{tr[2]}, which is not below')
        else:
            rep.ok('transitivity', f'{name} length {n}', cls,
                   f'{len(lts)}^2 compositions')
    # hashing
    h = m.get('__hash__')
    if h is None:
        if 'dataclass' in deco and '__eq__' in m:
            rep.bad('hash', f'{name}.__hash__', cls, 'defining __eq__ '
                    'without __hash__ makes the class unhashable')
        else:
            rep.undecided('hash', name, cls, 'no __hash__')
    else:
        attrs = {x.attr for x in ast.walk(h) if isinstance(
            x, ast.Attribute) and isinstance(x.value, ast.Name) and
            x.value.id == 'self'}
        stray = [x.id for x in ast.walk(h) if isinstance(x, ast.Name) and
                 x.id in ('id', 'super', 'random')]
        fine = attrs <= set(m) | {'index'} and not stray
        if fine:
            rep.ok('hash', f'{name}.__hash__', w('__hash__'),
                   ', '.join(sorted(attrs)))
        elif stray:
            rep.bad('hash', f'{name}.__hash__', w('__hash__'),
                    f'equal indices hash differently ({stray[0]})')
        elif 'abstr' in attrs and attrs <= {'index', 'abstr'}:
            rep.ok('hash', f'{name}.__hash__', w('__hash__'))
        else:
            rep.undecided('hash', f'{name}.__hash__', w('__hash__'),
                          ', '.join(sorted(attrs)))
    init = m.get('__init__')
    if init is not None:
        for x in ast.walk(init):
            if isinstance(x, ast.Assign) and any(
                    isinstance(t, ast.Attribute) and t.attr == 'index'
                    for t in x.targets):
                where = f'src/triumvirate/{fn}:{x.lineno}'
                v = x.value
                nm = f'{name}.__init__: index = {ast.unparse(v)}'
                if int_tuple(v):
                    rep.ok('index', nm, where)
                elif isinstance(v, (ast.List, ast.ListComp)) or (
                        isinstance(v, ast.Call) and isinstance(
                            v.func, ast.Name) and v.func.id == 'list'):
                    rep.bad('index', nm, where,
                            'a list is not hashable')
                elif isinstance(v, ast.Call) and isinstance(
                        v.func, ast.Name) and v.func.id == 'tuple':
                    rep.bad('index', nm, where, 'components are not '
                            'converted to int, so equal indices given as '
                            'text and number differ')
                else:
                    rep.undecided('index', nm, where)


def int_tuple(v):
    if isinstance(v, ast.Attribute) and v.attr == 'index':
        return True
    if isinstance(v, ast.Tuple):
        return all(isinstance(e, ast.Call) and isinstance(
            e.func, ast.Name) and e.func.id == 'int' for e in v.elts)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
            v.func.id == 'tuple' and len(v.args) == 1:
        a = v.args[0]
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and \
                a.func.id == 'map':
            return isinstance(a.args[0], ast.Name) and \
                a.args[0].id == 'int'
        if isinstance(a, (ast.GeneratorExp, ast.ListComp)):
            return isinstance(a.elt, ast.Call) and isinstance(
                a.elt.func, ast.Name) and a.elt.func.id == 'int'
    return False
