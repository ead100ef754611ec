"""Points-to and in-place-mutation analysis of the Python layer.

Values are sets of abstract objects.  Objects are caller-supplied inputs,
things reachable from them, or fresh allocations; views share the object of
the array they look into.  Calls inside the package are followed in the
calling context; other calls go by the tables below.
"""
import ast
import re

VIEWF = {'squeeze', 'asarray', 'asanyarray', 'ascontiguousarray',
         'asfortranarray', 'ravel', 'reshape', 'transpose', 'swapaxes',
         'moveaxis', 'rollaxis', 'expand_dims', 'atleast_1d', 'atleast_2d',
         'atleast_3d', 'broadcast_to', 'flip', 'fliplr', 'flipud', 'rot90',
         'real', 'imag', 'real_if_close', 'require', 'asarray_chkfinite',
         'asmatrix', 'frombuffer', 'nditer'}
SPLITF = {'split', 'array_split', 'hsplit', 'vsplit', 'dsplit',
          'broadcast_arrays'}
VIEWM = {'reshape', 'ravel', 'squeeze', 'view', 'transpose', 'swapaxes',
         '__array__'}
VIEWA = {'T', 'real', 'imag', 'flat', 'data', 'mT'}
MUTM = {'sort', 'fill', 'resize', 'itemset', 'put', 'partition', 'setfield',
        'append', 'extend', 'insert', 'remove', 'clear', 'reverse',
        'update', 'setdefault', 'pop', 'popitem', 'add', 'discard',
        'difference_update', 'intersection_update', 'setflags',
        'symmetric_difference_update', '__setitem__', '__delitem__',
        '__iadd__', '__imul__', '__isub__', '__itruediv__'}
MUTF = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0,
        'shuffle': 0, 'put_along_axis': 0, 'heapify': 0, 'heappush': 0,
        'insort': 0, 'setitem': 0, 'delitem': 0, 'setattr': 0,
        'iadd': 0, 'imul': 0, 'isub': 0, 'itruediv': 0}
ELEMM = {'get', 'pop', 'values', 'items', 'setdefault', 'popitem', 'copy',
         '__getitem__', 'item', 'keys'}
SHALLOW = {'list', 'tuple', 'dict', 'set', 'frozenset', 'sorted',
           'reversed', 'iter', 'zip', 'enumerate', 'chain', 'tqdm',
           'filter', 'OrderedDict', 'defaultdict', 'islice', 'product'}
ELEMF = {'next', 'min', 'max', 'getattr'}
IMMUT = ('int', 'float', 'str', 'bool', 'complex', 'None')


class Obj:
    __slots__ = ('key', 'kind', 'root', 'doc', 'cls', 'node', 'depth',
                 'sum', 'extra')

    def __init__(self, key, kind, root=None, doc='', cls=None, node=None):
        self.key, self.kind, self.root = key, kind, root
        self.doc, self.cls, self.node = doc, cls, node
        self.depth, self.sum, self.extra = 0, False, None

    def __repr__(self):
        return f'<{self.kind} {self.root or self.key}>'


class St:
    __slots__ = ('env', 'heap')

    def __init__(self, env=None, heap=None):
        self.env, self.heap = env or {}, heap or {}

    def copy(self):
        return St(dict(self.env), dict(self.heap))


def merge(x, y):
    if x is y:
        return x
    r = dict(x)
    get = r.get
    for k, v in y.items():
        w = get(k)
        if w is v:
            continue
        r[k] = v if w is None else w | v
    return r


def join(a, b):
    if a is None:
        return b
    if b is None or a is b:
        return a
    return St(merge(a.env, b.env), merge(a.heap, b.heap))


def full_doc_types(f):
    """Parameter name -> documented type text (numpydoc)."""
    d = ast.get_docstring(f, clean=True) if f is not None else None
    out, sec = {}, None
    lines = (d or '').splitlines()
    i = 0
    while i < len(lines):
        ln = lines[i]
        if i + 1 < len(lines) and re.match(r'^-{3,}$', lines[i + 1].strip()):
            sec = ln.strip()
            i += 2
            continue
        if sec in ('Parameters', 'Other Parameters') and ln and \
                not ln.startswith(' '):
            m = re.match(r'^\s*(\*{0,2}\w+(?:\s*,\s*\*{0,2}\w+)*)\s*:\s*(.*)$',
                         ln)
            if m:
                t = m.group(2)
                while t.endswith('\\') and i + 1 < len(lines):
                    i += 1
                    t = t[:-1] + ' ' + lines[i].strip()
                for n in re.split(r'\s*,\s*', m.group(1)):
                    out[n.lstrip('*')] = t
        i += 1
    return out


def is_scalar(doc):
    if not doc:
        return False
    t = re.sub(r'\b(optional|default)\b.*', '', doc)
    t = re.sub(r'[`|]|:py:const:|:class:', '', t)
    if re.search(r'array|farr|dict|list|sequence|Sequence|mapping|mat',
                 t):
        return False
    if t.strip().startswith('{'):
        return True
    t = re.sub(r'[()\[\]]', ' ', t)
    w = re.findall(r'[A-Za-z_~.]+', t)
    return bool(w) and all(x in IMMUT or x in (
        'or', 'of', 'tuple', 'callable', 'slice', 'Number', 'and', 'pair')
        for x in w)


def nested(doc):
    return bool(re.search(r'dict|2-d|2d|sequence of|list of|tuple of arr',
                          doc or ''))


class Ret(Exception):
    pass


class Alias:
    """events: [(Obj, ast node, module, how)]"""
    MAXDEPTH = 14

    def __init__(self, pkg, cxx_written=None, pair=None):
        self.pkg = pkg
        self.events = []
        self.objs = {}
        self.stack = []
        self.calls = 0
        self.unknown_calls = 0
        self.cxx_written = cxx_written or (lambda cls, m, i: False)
        self.seen = set()

    # ---- objects
    def obj(self, key, kind, **k):
        o = self.objs.get(key)
        if o is None:
            o = self.objs[key] = Obj(key, kind, **k)
        return o

    def fresh(self, node, kind='fresh', cls=None, tag=''):
        key = (tuple(id(x) for x in self.stack[-4:]), id(node), tag)
        return self.obj(key, kind, cls=cls, node=node)

    def new(self, st, node, kind='fresh', elems=frozenset(), cls=None,
            tag=''):
        o = self.fresh(node, kind, cls, tag)
        if elems:
            k = (o, '*')
            st.heap[k] = st.heap.get(k, frozenset()) | elems
        return frozenset([o])

    def elem(self, o):
        if o.kind in ('param', 'elem'):
            if o.kind == 'elem' and o.depth >= 2:
                return o
            e = self.obj(('e', o.key), 'elem', root=o.root, doc=o.doc)
            e.depth = o.depth + 1
            return e
        return None

    def scalar(self, o):
        """May an augmented assignment to o be assumed a rebinding?"""
        if o.kind == 'imm':
            return True
        if o.kind == 'param':
            return not o.doc or is_scalar(o.doc)
        if o.kind == 'elem':
            return is_scalar(o.doc) or not nested(o.doc)
        return False

    def contents(self, st, v):
        r = frozenset()
        for o in v:
            r |= st.heap.get((o, '*'), frozenset())
            e = self.elem(o)
            if e is not None:
                r |= frozenset([e])
            elif o.kind == 'arr':
                r |= frozenset([o])
        return r

    def field(self, st, v, name, node):
        r = frozenset()
        for o in v:
            got = st.heap.get((o, name))
            if got is not None:
                r |= got
                continue
            if o.kind in ('param', 'elem'):
                r |= frozenset([o if name in VIEWA else self.elem(o)])
            elif o.kind in ('arr', 'fresh') and name in VIEWA:
                r |= frozenset([o])
            elif o.kind == 'inst' and o.cls is not None:
                r |= self.method_value(st, o, name, node)
        return r

    def method_value(self, st, o, name, node):
        m = self.pkg.method(o.cls, name)
        if m is None:
            for c in self.pkg.bases(o.cls)[0]:
                for s in c.node.body:
                    if isinstance(s, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id == name
                            for t in s.targets):
                        return self.ev(s.value, st)
            return frozenset()
        c, f = m
        if name in c.property:
            return self.call_fn(st, f, c.mod, [frozenset([o])], {}, node, c)
        return frozenset([self.bound(o, f, c)])

    def bound(self, o, f, c):
        b = self.obj(('bm', o.key if o else None, id(f)), 'bound', node=f,
                     cls=c)
        b.extra = o
        return b

    # ---- mutation
    def mutate(self, v, node, how):
        for o in v:
            k = (o.key, id(node), how)
            if k in self.seen:
                continue
            self.seen.add(k)
            self.events.append((o, node, self.mod, how,
                                tuple(getattr(x, 'name', '?')
                                      for x in self.stack)))

    # ---- functions
    def call_fn(self, st, f, mod, args, kw, node, cls=None, closure=None,
                star=frozenset(), self_is_cls=False):
        if len(self.stack) >= self.MAXDEPTH or self.stack.count(f) >= 2:
            return self.new(st, node, tag='deep')
        self.calls += 1
        a = f.args
        env = {}
        pos = a.posonlyargs + a.args
        names = [p.arg for p in pos]
        for i, p in enumerate(names):
            if i < len(args):
                env[p] = args[i]
            elif p in kw:
                env[p] = kw[p]
            elif star:
                env[p] = star
        extra = frozenset().union(*args[len(names):]) if len(args) > \
            len(names) else frozenset()
        save = self.mod, getattr(self, 'cls', None)
        self.mod, self.cls = mod, cls
        self.stack.append(f)
        try:
            defaults = dict(zip(names[len(names) - len(a.defaults):],
                                a.defaults))
            for k, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    defaults[k.arg] = d
            for n in names + [k.arg for k in a.kwonlyargs]:
                if n not in env and n in kw:
                    env[n] = kw[n]
                if n not in env:
                    d = defaults.get(n)
                    env[n] = self.ev(d, st) if d is not None else \
                        frozenset()
            if a.vararg:
                env[a.vararg.arg] = self.new(st, a, 'cont', extra | star,
                                             tag='va')
            if a.kwarg:
                rest = frozenset().union(*[v for k, v in kw.items()
                                           if k not in env], frozenset())
                env[a.kwarg.arg] = self.new(st, a, 'cont', rest | star,
                                            tag='kw')
            full = dict(closure or {})
            full.update(env)
            s2 = St(full, st.heap)
            self.rets = getattr(self, 'rets', [])
            frame = {'ret': frozenset(), 'end': None, 'brk': [],
                     'yield': frozenset()}
            self.rets.append(frame)
            try:
                end = self.block(f.body, s2)
            finally:
                self.rets.pop()
            out = join(frame['end'], end)
            if out is not None:
                st.heap = out.heap
            if frame['yield']:
                return self.new(st, node, 'cont', frame['yield'], tag='gen')
            return frame['ret']
        finally:
            self.stack.pop()
            self.mod, self.cls = save

    def construct(self, st, c, args, kw, node, star=frozenset()):
        o = self.fresh(node, 'inst', c, tag='inst:' + c.name)
        me = frozenset([o])
        if c.dataclass and self.pkg.method(c, '__init__') is None:
            for (n, d), v in zip(c.fields, args):
                st.heap[(o, n)] = v
            for k, v in kw.items():
                st.heap[(o, k)] = v
            return me
        for nm in ('__cinit__', '__init__'):
            m = self.pkg.method(c, nm)
            if m:
                self.call_fn(st, m[1], m[0].mod, [me] + args, kw, node,
                             m[0], star=star)
        return me

    # ---- statements
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is not None:
            return m(s, st)
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.ev(x, st)
        return st

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else frozenset()
        fr = self.rets[-1]
        fr['ret'] |= v
        fr['end'] = join(fr['end'], st)
        return None

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        return None

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def assign(self, t, v, st, s):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = self.contents(st, v)
            tup = [o for o in v if o.kind == 'tuple' and o.extra is not None
                   and len(o.extra) == len(t.elts)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.new(st, e, 'cont', c), st, s)
                elif tup and len(tup) == len(v):
                    self.assign(e, frozenset().union(
                        *[st.heap.get((o, i), frozenset()) for o in tup]),
                        st, s)
                else:
                    self.assign(e, c, st, s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.mutate(frozenset(o for o in b
                                  if o.kind in ('param', 'elem')), s,
                        f'sets .{t.attr}')
            for o in b:
                if o.kind == 'inst' and o.cls is not None:
                    self.mutate(frozenset([o]), s, f'sets .{t.attr}')
                k = (o, t.attr)
                if len(b) == 1 and not o.sum:
                    st.heap[k] = v
                else:
                    st.heap[k] = st.heap.get(k, frozenset()) | v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.mutate(b, s, 'stores an item')
            for o in b:
                k = (o, '*')
                st.heap[k] = st.heap.get(k, frozenset()) | v
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, s)

    def s_AugAssign(self, s, st):
        r = self.ev(s.value, st)
        t = s.target
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.mutate(b, s, 'updates an item')
            inner = frozenset(o for o in self.contents(st, b) - b
                              if not self.scalar(o))
            self.mutate(inner, s, 'updates an item in place')
            return st
        load = ast.copy_location(
            ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else
            ast.Attribute(t.value, t.attr, ast.Load()), t)
        v = self.ev(load, st)
        self.mutate(frozenset(o for o in v if not self.scalar(o)), s,
                    'updates in place')
        res = v | self.new(st, s, 'fresh', tag='aug')
        if isinstance(s.op, ast.Add):
            c = self.contents(st, r)
            for o in v:
                if c and o.kind in ('cont', 'tuple', 'fresh'):
                    st.heap[(o, '*')] = st.heap.get((o, '*'),
                                                    frozenset()) | c
        if isinstance(t, ast.Name):
            st.env[t.id] = res
        else:
            b = self.ev(t.value, st)
            self.mutate(frozenset(o for o in b
                                  if o.kind in ('param', 'elem', 'inst')),
                        s, f'sets .{t.attr}')
            for o in b:
                st.heap[(o, t.attr)] = res
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.mutate(self.ev(t.value, st), s, 'deletes an item')
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_If(self, s, st):
        self.ev(s.test, st)
        a, b = st.copy(), st
        self.refine(s.test, True, a)
        self.refine(s.test, False, b)
        a = self.block(s.body, a)
        b = self.block(s.orelse, b)
        return join(a, b)

    def refine(self, t, truth, st):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(t.operand, not truth, st)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and truth:
            for x in t.values:
                self.refine(x, True, st)
            return
        if not truth:
            return
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.left, ast.Name) and isinstance(
                t.ops[0], ast.Is) and isinstance(
                t.comparators[0], ast.Constant):
            st.env[t.left.id] = frozenset()
        imm = None
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and \
                t.func.id == 'isinstance' and len(t.args) == 2 and \
                isinstance(t.args[0], ast.Name):
            ts = t.args[1].elts if isinstance(t.args[1], ast.Tuple) \
                else [t.args[1]]
            if all(isinstance(x, ast.Name) and x.id in IMMUT for x in ts):
                imm = t.args[0].id
        if isinstance(t, ast.Call) and ast.unparse(t.func) in (
                'np.isscalar', 'numpy.isscalar') and isinstance(
                t.args[0], ast.Name):
            imm = t.args[0].id
        if imm:
            st.env[imm] = frozenset([self.obj('imm', 'imm')])

    def loop(self, s, st, head):
        fr = self.rets[-1]
        out = None
        cur = st
        for _ in range(3):
            cur = cur.copy()
            fr['brk'].append([None, None])
            head(cur)
            end = self.block(s.body, cur.copy())
            b, c = fr['brk'].pop()
            out = join(out, b)
            nxt = join(join(cur, end), c)
            if nxt.env == cur.env and nxt.heap == cur.heap:
                break
            cur = nxt
        e = self.block(s.orelse, cur.copy())
        return join(out, e)

    def s_For(self, s, st):
        def head(c):
            it = self.ev(s.iter, c)
            self.assign(s.target, self.iterate(it, c, s.iter), c, s)
        return self.loop(s, st, head)

    s_AsyncFor = s_For

    def iterate(self, it, st, node):
        """Values an iteration yields."""
        r = frozenset()
        for o in it:
            if o.kind in ('param', 'elem') and re.search(
                    r'\bdict\b|mapping', o.doc or '') and not re.search(
                    r'array|farr', re.sub(r'dict of\s*\{.*?\}', '',
                                          o.doc or '')):
                r |= frozenset([self.obj('imm', 'imm')])
            else:
                r |= self.contents(st, frozenset([o]))
        return r

    def s_While(self, s, st):
        return self.loop(s, st, lambda c: self.ev(s.test, c))

    def s_Break(self, s, st):
        b = self.rets[-1]['brk']
        if b:
            b[-1][0] = join(b[-1][0], st)
        return None

    def s_Continue(self, s, st):
        b = self.rets[-1]['brk']
        if b:
            b[-1][1] = join(b[-1][1], st)
        return None

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        return self.block(s.body, st)

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        pre = st.copy()
        cur, mid = st, pre
        for x in s.body:
            if cur is None:
                break
            cur = self.stmt(x, cur)
            if cur is not None:
                mid = join(mid, cur.copy())
        if cur is not None:
            cur = self.block(s.orelse, cur)
        for h in s.handlers:
            hs = mid.copy()
            if h.name:
                hs.env[h.name] = frozenset()
            cur = join(cur, self.block(h.body, hs))
        if s.finalbody:
            if cur is None:
                self.block(s.finalbody, mid.copy())
                return None
            cur = self.block(s.finalbody, cur)
        return cur

    s_TryStar = s_Try

    def s_FunctionDef(self, s, st):
        o = self.obj(('fn', id(s), tuple(id(x) for x in self.stack)), 'fn',
                     node=s, cls=getattr(self, 'cls', None))
        o.extra = (self.mod, st)
        st.env[s.name] = frozenset([o])
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        return st

    def s_Import(self, s, st):
        return st

    s_ImportFrom = s_Global = s_Nonlocal = s_Pass = s_Import

    # ---- expressions
    def ev(self, n, st):
        if n is None:
            return frozenset()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is not None:
            return m(n, st)
        r = frozenset()
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.ev(x, st)
        return self.new(st, n, 'fresh')

    def e_Constant(self, n, st):
        return frozenset([self.obj('imm', 'imm')])

    def e_JoinedStr(self, n, st):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, st)
        return self.e_Constant(n, st)

    def e_Compare(self, n, st):
        for x in [n.left] + n.comparators:
            self.ev(x, st)
        return self.new(st, n, 'arr')

    def e_Name(self, n, st):
        if n.id in st.env:
            return st.env[n.id]
        r = self.pkg.lookup(self.mod, n.id)
        if r and r[0] == 'func':
            o = self.obj(('fn', id(r[2])), 'fn', node=r[2])
            o.extra = (r[1], None)
            return frozenset([o])
        if r and r[0] == 'class':
            o = self.obj(('cls', id(r[2])), 'class', cls=r[2])
            return frozenset([o])
        for s in self.mod.tree.body:
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == n.id
                    for t in s.targets):
                return frozenset([self.obj(('glob', self.mod.file, n.id),
                                           'glob', root=n.id)])
        return frozenset()

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        if n.attr == '__class__':
            return frozenset(self.obj(('cls', id(o.cls)), 'class',
                                      cls=o.cls)
                             for o in b if o.kind == 'inst' and o.cls)
        r = frozenset()
        for o in b:
            if o.kind == 'class':
                m = self.pkg.method(o.cls, n.attr)
                if m:
                    deco = [ast.unparse(d) for d in m[1].decorator_list]
                    x = self.obj(('cm', id(o.cls), id(m[1])), 'fn',
                                 node=m[1], cls=m[0])
                    x.extra = (m[0].mod, None)
                    if 'classmethod' in deco:
                        x.kind, x.extra = 'bound', o
                    r |= frozenset([x])
        return r | self.field(st, b, n.attr, n)

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        self.ev(n.slice, st)
        r = frozenset()
        fancy = isinstance(n.slice, (ast.List, ast.ListComp, ast.Compare))
        for o in b:
            if o.kind in ('arr', 'fresh', 'param', 'elem') and \
                    self.slicing(n.slice):
                r |= frozenset([o])
            elif o.kind == 'tuple' and isinstance(
                    n.slice, ast.Constant) and isinstance(
                    n.slice.value, int) and o.extra:
                i = n.slice.value % len(o.extra)
                r |= st.heap.get((o, i), frozenset())
            elif o.kind == 'inst' and o.cls is not None:
                m = self.pkg.method(o.cls, '__getitem__')
                if m:
                    r |= self.call_fn(st, m[1], m[0].mod, [
                        frozenset([o]), frozenset()], {}, n, m[0])
            else:
                r |= self.contents(st, frozenset([o]))
        if fancy:
            return self.new(st, n, 'arr')
        return r or self.new(st, n, 'imm')

    def slicing(self, sl):
        if isinstance(sl, ast.Slice):
            return True
        if isinstance(sl, ast.Constant) and sl.value is Ellipsis:
            return True
        return isinstance(sl, ast.Tuple) and any(
            self.slicing(x) for x in sl.elts) and not any(
            isinstance(x, (ast.List, ast.ListComp)) for x in sl.elts)

    def seq(self, n, st, kind):
        vs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                vs.append(self.contents(st, self.ev(e.value, st)))
            else:
                vs.append(self.ev(e, st))
        o = self.fresh(n, kind)
        o.extra = vs if not any(isinstance(e, ast.Starred)
                                for e in n.elts) else None
        k = (o, '*')
        st.heap[k] = st.heap.get(k, frozenset()).union(*vs)
        for i, v in enumerate(vs):
            st.heap[(o, i)] = v
        return frozenset([o])

    def e_Tuple(self, n, st):
        return self.seq(n, st, 'tuple')

    def e_List(self, n, st):
        return self.seq(n, st, 'cont')

    e_Set = e_List

    def e_Dict(self, n, st):
        vs = frozenset()
        for k, v in zip(n.keys, n.values):
            x = self.ev(v, st)
            if k is None:
                x = self.contents(st, x)
            else:
                self.ev(k, st)
            vs |= x
        return self.new(st, n, 'cont', vs)

    def comp(self, n, st, elts):
        s2 = St(dict(st.env), st.heap)
        for g in n.generators:
            it = self.ev(g.iter, s2)
            self.assign(g.target, self.iterate(it, s2, g.iter), s2, n)
            for c in g.ifs:
                self.ev(c, s2)
        r = frozenset()
        for e in elts:
            r = self.ev(e, s2)
        st.heap = s2.heap
        return self.new(st, n, 'cont', r)

    def e_ListComp(self, n, st):
        return self.comp(n, st, [n.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, st):
        return self.comp(n, st, [n.key, n.value])

    def e_IfExp(self, n, st):
        self.ev(n.test, st)
        a, b = St(dict(st.env), st.heap), St(dict(st.env), st.heap)
        self.refine(n.test, True, a)
        self.refine(n.test, False, b)
        r = self.ev(n.body, a)
        b.heap = a.heap
        r |= self.ev(n.orelse, b)
        st.heap = b.heap
        return r

    def e_BoolOp(self, n, st):
        r = frozenset()
        for x in n.values:
            r |= self.ev(x, st)
        return r

    def e_BinOp(self, n, st):
        a, b = self.ev(n.left, st), self.ev(n.right, st)
        if isinstance(n.op, (ast.Add, ast.BitOr)):
            c = frozenset()
            for v in (a, b):
                if v and all(o.kind in ('cont', 'tuple') for o in v):
                    c |= self.contents(st, v)
            if c:
                return self.new(st, n, 'cont', c)
        return self.new(st, n, 'arr')

    def e_UnaryOp(self, n, st):
        self.ev(n.operand, st)
        return self.new(st, n, 'arr')

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Lambda(self, n, st):
        o = self.obj(('lam', id(n)), 'lam', node=n)
        o.extra = (self.mod, st)
        return frozenset([o])

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Starred(self, n, st):
        return self.contents(st, self.ev(n.value, st))

    def e_Yield(self, n, st):
        self.rets[-1]['yield'] |= self.ev(n.value, st) or self.new(
            st, n, 'imm')
        return frozenset()

    # ---- calls
    def e_Call(self, n, st):
        args, star = [], frozenset()
        for a in n.args:
            if isinstance(a, ast.Starred):
                star |= self.contents(st, self.ev(a.value, st))
            elif not star:
                args.append(self.ev(a, st))
            else:
                star |= self.ev(a, st)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                star |= self.contents(st, v)
            else:
                kw[k.arg] = v
        if 'out' in kw:
            o = kw['out']
            self.mutate(o | frozenset(
                x for v in o if v.kind == 'tuple'
                for x in st.heap.get((v, '*'), ())), n, 'is an out argument')
        f = n.func
        if isinstance(f, ast.Attribute):
            return self.attr_call(n, f, args, kw, star, st)
        if isinstance(f, ast.Name):
            nm = f.id
            if nm == 'super':
                return frozenset()
            if nm not in st.env and not self.pkg.lookup(self.mod, nm):
                return self.lib(n, nm, args, kw, star, st)
            if nm in ('deepcopy',):
                return self.new(st, n, 'fresh')
        v = self.ev(f, st)
        return self.apply(n, v, args, kw, star, st, ast.unparse(f))

    def apply(self, n, v, args, kw, star, st, name=''):
        if not v:
            return self.lib(n, name.split('.')[-1], args, kw, star, st)
        r, hit = frozenset(), False
        for o in v:
            if o.kind == 'fn':
                hit = True
                mod, clo = o.extra
                r |= self.call_fn(st, o.node, mod, list(args), kw, n, o.cls,
                                  closure=clo.env if clo else None,
                                  star=star)
            elif o.kind == 'lam':
                hit = True
                mod, clo = o.extra
                s2 = St(dict(clo.env), st.heap)
                for p, a in zip(o.node.args.args, args):
                    s2.env[p.arg] = a
                r |= self.ev(o.node.body, s2)
                st.heap = s2.heap
            elif o.kind == 'bound':
                hit = True
                r |= self.call_fn(st, o.node, o.cls.mod,
                                  [frozenset([o.extra])] + list(args), kw,
                                  n, o.cls, star=star)
            elif o.kind == 'class':
                hit = True
                r |= self.construct(st, o.cls, list(args), kw, n, star)
            elif o.kind == 'inst' and o.cls is not None:
                m = self.pkg.method(o.cls, '__call__')
                if m:
                    hit = True
                    r |= self.call_fn(st, m[1], m[0].mod,
                                      [frozenset([o])] + list(args), kw, n,
                                      m[0], star=star)
        if not hit:
            return self.lib(n, name.split('.')[-1], args, kw, star, st)
        return r

    def attr_call(self, n, f, args, kw, star, st):
        name = f.attr
        # super().m(...)
        if isinstance(f.value, ast.Call) and isinstance(
                f.value.func, ast.Name) and f.value.func.id == 'super' and \
                getattr(self, 'cls', None) is not None:
            for b in self.pkg.bases(self.cls)[0][1:]:
                if name in b.methods:
                    me = st.env.get(self.stack[-1].args.args[0].arg,
                                    frozenset())
                    return self.call_fn(st, b.methods[name], b.mod,
                                        [me] + args, kw, n, b, star=star)
            return frozenset()
        base = self.ev(f.value, st)
        if name == '__new__':
            cs = [o.cls for o in base if o.kind == 'class']
            return frozenset(self.fresh(n, 'inst', c, tag=c.name)
                             for c in cs)
        # a module's function
        if not base and isinstance(f.value, (ast.Name, ast.Attribute)):
            root = f.value
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in st.env:
                r = self.pkg.lookup(self.mod, root.id)
                if r and r[0] == 'module' and r[1] is not None:
                    q = self.pkg.lookup(r[1], name)
                    if q and q[0] == 'func':
                        return self.call_fn(st, q[2], q[1], args, kw, n,
                                            star=star)
                    if q and q[0] == 'class':
                        return self.construct(st, q[2], args, kw, n, star)
                return self.lib(n, name, args, kw, star, st)
        # a package method
        v = frozenset()
        rest = frozenset()
        for o in base:
            if o.kind in ('inst', 'class') and o.cls is not None:
                got = self.e_Attribute(f, St(st.env, st.heap)) if \
                    o.kind == 'class' else (
                    st.heap.get((o, name)) or
                    self.method_value(st, o, name, n))
                v |= frozenset(x for x in got)
            else:
                rest |= frozenset([o])
        r = frozenset()
        if v:
            r |= self.apply(n, v, args, kw, star, st, name)
            if not rest:
                return r
        # C++ methods reached through a pointer attribute
        self.cxx_call(n, f, args, st)
        if not rest:
            return r | (self.new(st, n, 'fresh') if not v else frozenset())
        if name in MUTM and not (name == 'pop' and False):
            self.mutate(rest, n, f'calls .{name}()')
            if name in ('append', 'add', 'insert', 'setdefault'):
                for o in rest:
                    for a in args:
                        st.heap[(o, '*')] = st.heap.get(
                            (o, '*'), frozenset()) | a
            if name in ('extend', 'update'):
                for o in rest:
                    for a in args:
                        st.heap[(o, '*')] = st.heap.get(
                            (o, '*'), frozenset()) | self.contents(st, a)
        if name == 'at' and args:
            self.mutate(args[0], n, 'is updated by ufunc.at')
        if name in VIEWM:
            return r | rest
        if name == 'astype':
            cp = [k.value for k in n.keywords if k.arg == 'copy']
            if cp and not (isinstance(cp[0], ast.Constant) and
                           cp[0].value is True):
                return r | rest
            return r | self.new(st, n, 'arr')
        if name == 'copy':
            return r | self.new(st, n, 'fresh', self.deepish(st, rest))
        if name == 'items':
            c = self.contents(st, rest)
            o = self.fresh(n, 'tuple', tag='item')
            o.extra = [0, 1]
            st.heap[(o, 0)] = frozenset([self.obj('imm', 'imm')])
            st.heap[(o, 1)] = c
            st.heap[(o, '*')] = c
            return r | self.new(st, n, 'cont', frozenset([o]))
        if name == 'keys':
            return r | self.new(st, n, 'cont', frozenset(
                [self.obj('imm', 'imm')]))
        if name == 'values':
            return r | self.new(st, n, 'cont', self.contents(st, rest))
        if name in ('get', 'pop', 'setdefault', 'popitem', '__getitem__'):
            x = self.contents(st, rest)
            if name in ('get', 'setdefault', 'pop') and len(args) > 1:
                x |= args[1]
            return r | x
        return r | self.new(st, n, 'fresh')

    def deepish(self, st, v):
        """Elements shared after a shallow copy: nothing for arrays."""
        r = frozenset()
        for o in v:
            if o.kind in ('cont', 'fresh', 'tuple'):
                r |= st.heap.get((o, '*'), frozenset())
            elif o.kind in ('param', 'elem') and re.search(
                    r'dict|list|sequence', o.doc or ''):
                r |= frozenset([self.elem(o)])
        return r

    def cxx_call(self, n, f, args, st):
        for i, a in enumerate(n.args):
            if isinstance(a, ast.Call) and isinstance(
                    a.func, ast.Name) and a.func.id == '__addr__' and \
                    isinstance(a.args[0], ast.Subscript):
                if self.cxx_written(f.attr, i):
                    self.mutate(self.ev(a.args[0].value, st), n,
                                f'is written by the backend ({f.attr})')

    def lib(self, n, name, args, kw, star, st):
        self.unknown_calls += 1
        a0 = args[0] if args else frozenset()
        copykw = [k.value for k in n.keywords if k.arg == 'copy']
        copied = not copykw or (isinstance(copykw[0], ast.Constant) and
                                copykw[0].value is True)
        if name in MUTF and isinstance(n.func, ast.Attribute) or \
                name == 'setattr':
            self.mutate(a0, n, f'is modified by {name}()')
            return frozenset()
        if name == 'at' and isinstance(n.func, ast.Attribute):
            self.mutate(a0, n, 'is modified by ufunc.at()')
            return frozenset()
        if name in ('__cast__', '__addr__'):
            return args[-1] if args else frozenset()
        if isinstance(n.func, ast.Attribute):
            if name in VIEWF:
                return frozenset(
                    o for o in a0 if o.kind not in ('cont', 'tuple')
                ) or self.new(st, n, 'arr')
            if name in SPLITF:
                return self.new(st, n, 'cont', a0)
            if name == 'nan_to_num' and not copied:
                self.mutate(a0, n, 'is modified by nan_to_num(copy=False)')
            if name in ('array', 'nan_to_num', 'asfarray') and not copied:
                return a0
            if name == 'nan_to_num':
                return self.new(st, n, 'arr')
            if name == 'copy' and a0:
                return self.new(st, n, 'fresh', self.deepish(st, a0))
        if name in ('map',):
            c = frozenset()
            for a in args[1:]:
                c |= self.iterate(a, st, n)
            if args:
                c = self.apply(n, args[0], [c], {}, frozenset(), st, 'map') \
                    if any(o.kind in ('fn', 'lam', 'bound')
                           for o in args[0]) else frozenset()
            return self.new(st, n, 'cont', c)
        if name in ('zip', 'product'):
            o = self.fresh(n, 'tuple', tag='zip')
            o.extra = args
            al = frozenset()
            for i, a in enumerate(args):
                st.heap[(o, i)] = self.iterate(a, st, n)
                al |= st.heap[(o, i)]
            st.heap[(o, '*')] = al
            return self.new(st, n, 'cont', frozenset([o]))
        if name == 'enumerate':
            o = self.fresh(n, 'tuple', tag='enum')
            o.extra = [0, 1]
            st.heap[(o, 0)] = frozenset([self.obj('imm', 'imm')])
            st.heap[(o, 1)] = self.iterate(a0, st, n)
            st.heap[(o, '*')] = st.heap[(o, 1)]
            return self.new(st, n, 'cont', frozenset([o]))
        if name in SHALLOW:
            c = frozenset()
            for a in args + list(kw.values()):
                c |= self.contents(st, a) if name != 'tqdm' or a is a0 \
                    else frozenset()
            if name == 'dict':
                for v in kw.values():
                    c |= v
            return self.new(st, n, 'cont', c | star)
        if name in ELEMF:
            return self.contents(st, a0)
        if name in ('array', 'zeros', 'ones', 'empty', 'full', 'arange'):
            return self.new(st, n, 'arr')
        return self.new(st, n, 'fresh')
