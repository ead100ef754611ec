"""R01: every resource is released exactly once on every path."""
import sys

from .. import cxx, pyx
from ..lifetimes import COUNTERS, Lifetimes, Frame, St, TooMany, dedupe

EXPLANATION = (
    'Path-sensitive lifetime analysis.  Every function of the back end that '
    'acquires or releases a raw resource (new, fftw buffers and plans, gsl '
    'objects, files) or changes a memory or grid counter is walked along '
    'all its paths with equal conditions having equal truth; at every '
    'normal return and every explicit throw, resources held by locals must '
    'be released once, by the matching routine, and the counters must be '
    'back where they were.  Classes that own resources are followed from '
    'each constructor through sequences of public methods to the '
    'destructor: nothing may stay alive, be released twice or be '
    'overwritten while alive, and each counter must end where it began.  '
    'The Cython modules are checked for the same: what a function obtains '
    'by new or malloc it releases in a finally clause (C++ calls raise), '
    'and what an extension type obtains its __dealloc__ deletes.')

RULES = {
    'function': 'Resources acquired in a function are released once on '
                'every path and its accounting balances.',
    'object': 'Resources of an object are released once by the end of its '
              'life, with the accounting undone, for every constructor and '
              'sequence of methods.',
    'copy': 'No object that owns resources is copied member by member.',
    'binding': 'What the Cython modules allocate is released on every path '
               'and once.',
}


def showcnt(cnt):
    return ', '.join(f'{c} {"+" if x > 0 else ""}{x} x {u}'
                     for (c, u), x in sorted(cnt.items()))


def public(rec):
    """ids/names of public member functions."""
    acc = 'public' if rec.node.d.get('tagUsed') == 'struct' else 'private'
    out = set()
    for k in rec.node.kids:
        if k.kind == 'AccessSpecDecl':
            acc = k.d.get('access', acc)
        elif k.kind in cxx.FUNC_KINDS and acc == 'public':
            out.add(k.d.get('mangledName') or k.name)
    return out


def sources(lt, prog):
    return [(f, tu) for f, tu in prog.funcs.values() if f.body is not None]


def summarise(lt, prog):
    """Functions whose net effect is not nil, and all their results."""
    lt.quiet = True
    funcs = sources(lt, prog)
    results = {}
    todo = [(f, tu) for f, tu in funcs if lt.core(f.body, tu)]
    rounds = 0
    while todo and rounds < 8:
        rounds += 1
        grown = set()
        for f, tu in todo:
            try:
                ext = []
                orig = lt.release

                def rel(n, fam, a, v, st, fr):
                    if v is None or v[0] != 'res':
                        ext.append(n)
                    return orig(n, fam, a, v, st, fr)
                lt.release = rel
                fr, outs = lt.function(f, tu)
            except TooMany:
                results[f.key] = None
                continue
            finally:
                lt.release = orig
            results[f.key] = outs
            net = bool(ext)
            for o, s, v in outs:
                if o == 'throw':
                    continue
                if s.cnt or any(k[0] == 'f' for k in s.env) or \
                        v is not None and v[0] == 'res' or lt.live(s, v):
                    net = True
            if net and f.key not in lt.expand and not f.node.kind in (
                    'CXXConstructorDecl', 'CXXDestructorDecl') and \
                    f.name != 'main':
                grown.add(f.key)
        if not grown:
            break
        lt.expand |= grown
        lt.memo = {k: v for k, v in lt.memo.items()
                   if isinstance(k[0], str) and k[0] in ('x', 'w', 'ra',
                                                         'as', 'sets', 't')}
        lt.idents.clear()
        todo = [(f, tu) for f, tu in funcs
                if calls_any(lt, f, tu, grown)]
    lt.quiet = False
    return results


def calls_any(lt, f, tu, keys):
    for n in f.body.walk():
        if n.kind in ('CallExpr', 'CXXMemberCallExpr'):
            d, _ = tu.callee(n)
            if d is not None and d.key in keys and lt.inlinable(n, d):
                return True
    return False


def owners(lt, prog, results):
    """Classes whose methods acquire or release for the object."""
    out = {}
    for f, tu in sources(lt, prog):
        if not f.cls or f.node.d.get('storageClass') == 'static':
            continue
        if not lt.core(f.body, tu):
            continue
        for n in f.body.walk():
            if n.kind == 'BinaryOperator' and n.op == '=':
                a, b = n.kids[0].strip(), n.kids[1].strip()
                if a.kind == 'MemberExpr' and lt.lkey(
                        a, St(), Frame(f, tu)) and lt.core(b, tu):
                    out.setdefault(f.cls, set()).add(a.name)
        for i in f.inits:
            nm = (i.d.get('anyInit') or {}).get('name')
            if nm and any(lt.core(k, tu) for k in i.kids):
                out.setdefault(f.cls, set()).add(nm)
        outs = results.get(f.key)
        if outs and any(s.cnt for o, s, v in outs if o != 'throw'):
            out.setdefault(f.cls, set())
    return out


def verdict(rep, lt, f, *a):
    """A violation, unless the function releases what the analysis cannot
    identify."""
    if f.key in lt.blur:
        rep.undecided(*a)
    else:
        rep.bad(*a)


def check_functions(rep, lt, prog, results, own):
    roots = set()
    for m in pyx.modules():
        try:
            for e in pyx.externs(m):
                roots.add(getattr(e, 'cname', None) or getattr(e, 'name', ''))
        except Exception:
            continue
    roots = {str(r).split('::')[-1] for r in roots}
    called = set()
    for f, tu in sources(lt, prog):
        for n in f.body.walk():
            if n.kind in ('CallExpr', 'CXXMemberCallExpr'):
                d, _ = tu.callee(n)
                if d is not None and d.key != f.key:
                    called.add(d.key)
    n = 0
    for f, tu in sources(lt, prog):
        if not lt.core(f.body, tu):
            continue
        n += 1
        member = f.cls in own and f.node.d.get('storageClass') != 'static'
        helper = f.key in lt.expand and f.key in called and \
            f.name not in roots
        before = set(lt.found)
        try:
            try:
                fr, outs = lt.function(f, tu)
            except TooMany:
                lt.terse, lt.CAP = True, 6000
                fr, outs = lt.function(f, tu)
        except TooMany:
            rep.undecided('function', f.qual, f.loc(), 'too many paths')
            continue
        finally:
            lt.terse, lt.CAP = False, 600
        bad = [(k, lt.found[k]) for k in lt.found if k not in before]
        for (rule, cons), (node, detail) in bad:
            verdict(rep, lt, f, 'function', cons, node.loc(), detail)
        ok = not bad
        for o, s, v in outs:
            how = 'throws' if o == 'throw' else 'returns'
            byref = set()
            for p in f.params:
                x = s.env.get(('l', tu.path, p.id))
                if x is not None and x[0] == 'res' and \
                        (p.type or '').rstrip().endswith('&'):
                    byref.add(x[1])
            for rid, r in lt.live(s, v):
                if o == 'throw' and f.name == 'main':
                    continue
                if rid in byref or helper and not r[3] == f.qual:
                    continue
                ok = False
                verdict(rep, lt, f, 'function', f'{f.qual}: {r[1]}',
                        r[2].loc(),
                        f'{r[1]} acquired at {rid[0]} is still held when '
                        f'{f.qual} {how}')
            if v is not None and v[0] == 'res' and o == 'return' and \
                    f.name == 'main':
                ok = False
            if s.cnt and not member and not helper and o != 'throw':
                ok = False
                for c in sorted({k[0] for k in s.cnt}):
                    rep.bad('function', f'{f.qual}: {c}', f.loc(),
                            f'{f.qual} {how} with a net change: '
                            + showcnt({k: x for k, x in s.cnt.items()
                                       if k[0] == c}))
        if ok:
            rep.ok('function', f.qual, f.loc())
    rep.analysed['functions'] = n


def defaults(lt, prog, own):
    for c in own:
        if c not in prog.records:
            continue
        rec, tu = prog.records[c]
        for f in rec.fields:
            init = next((k for k in f.kids
                         if not k.kind.endswith(('Comment', 'Attr'))), None)
            v = None
            if init is not None:
                v = lt.val(init, St(), Frame(
                    type('F', (), {'qual': c, 'cls': c, 'key': c,
                                   'params': []})(), tu))
            elif (f.type or '').rstrip().endswith('*') or \
                    (f.desugared or '').rstrip().endswith('*'):
                v = ('uninit',)
            if v is not None:
                lt.defaults[(c, f.name)] = v


def settle(lt, s, tu):
    """State of the object between two calls of its methods."""
    r = St()
    rename = []
    for p, k in s.ver.items():
        if p.startswith('this.'):
            rename.append((p, k))

    def norm(t):
        if not isinstance(t, str):
            return t
        for p, e in s.eq.items():
            base = p.split("'")[0]
            cur = base if base not in s.ver else f"{base}'{s.ver[base]}"
            if p == cur and re_id(e):
                t = t.replace(e, p)
        import re
        for p, k in sorted(rename, key=lambda x: -len(x[0])):
            t = re.sub(re.escape(p) + r"(?![\w'~])", p + '~', t)
            t = t.replace(f"{p}'{k}", p)
            t = re.sub(re.escape(p) + r"'\d+", p + '~', t)
        return t
    for k, v in s.env.items():
        if k[0] == 'f':
            r.env[k] = v
    for t, b in s.facts.items():
        if not isinstance(t, str):
            r.facts[t] = b
            continue
        t = norm(t)
        if '#' not in t and '~' not in t:
            r.facts[t] = b
    for (c, u), x in s.cnt.items():
        k = (c, norm(u))
        r.cnt[k] = r.cnt.get(k, 0) + x
    r.cnt = {k: x for k, x in r.cnt.items() if x}
    for rid, q in s.res.items():
        if q[0] in ('live', 'freed') and any(
                v == ('res', rid) for v in r.env.values()):
            r.res[rid] = q
    return r


def re_id(e):
    import re
    return bool(re.fullmatch(r"\w+#\w+('\d+)?", e))


def check_objects(rep, lt, prog, own):
    defaults(lt, prog, own)
    nstate = 0
    for c in sorted(own):
        rec = prog.records.get(c)
        if rec is None:
            continue
        pub = public(rec[0])
        ms = [(f, tu) for f, tu in sources(lt, prog) if f.cls == c]
        ctors = [x for x in ms if x[0].node.kind == 'CXXConstructorDecl']
        dtor = next((x for x in ms
                     if x[0].node.kind == 'CXXDestructorDecl'), None)
        steps = [x for x in ms if x not in ctors and x is not dtor
                 and (x[0].mangled in pub or x[0].name in pub)
                 and x[0].node.d.get('storageClass') != 'static'
                 and lt.core(x[0].body, x[1])]
        if any(f.key in lt.blur for f, tu in ms):
            # a member releases what the analysis cannot identify
            rep.undecided('object', c, rec[0].node.loc(),
                          'a release is not understood')
            continue
        for f, tu in ctors:
            base = lt.start(f, tu)
            for (k, fld), v in lt.defaults.items():
                if k == c:
                    base.env[('f', fld)] = v
            fr = Frame(f, tu)
            lt.interesting(f, tu)
            for i in f.inits:
                nm = (i.d.get('anyInit') or {}).get('name')
                if not nm or not i.kids or i.kids[0].strip().kind == \
                        'CXXDefaultInitExpr':
                    continue
                for o, s, v in lt.ev(i.kids[0], base, fr)[:1]:
                    base = s
                    if v is not None:
                        base.env[('f', nm)] = v
            before = set(lt.found)
            try:
                nstate += life(rep, lt, c, f, tu, base, steps, dtor)
            except TooMany:
                rep.undecided('object', f'{c}: {f.type}', f.loc(),
                              'too many paths')
            for k in lt.found:
                if k not in before:
                    node, detail = lt.found[k]
                    rep.bad('object', f'{c}: {k[1]}', node.loc(), detail)
    rep.analysed['object states'] = nstate
    rep.analysed['classes'] = sorted(own)


def life(rep, lt, c, f, tu, base, steps, dtor):
    seen, work = {}, []
    nm = c.split('::')[-1]
    bad = False
    _, outs = lt.function(f, tu, base)
    for o, s, v in outs:
        if o == 'throw':
            held = [r for rid, r in s.res.items() if r[0] == 'live']
            for r in held:
                bad = True
                rep.bad('object', f'{c}: constructor throws', r[2].loc(),
                        f'{r[1]} acquired at {r[2].loc()} stays alive when '
                        'the constructor throws')
            continue
        q = settle(lt, s, tu)
        work.append((q, (nm,), True))
    n = 0
    while work:
        s, hist, acc = work.pop(0)
        if not acc:
            s.cnt = {}
        k = (s.key(), acc)
        if k in seen:
            continue
        seen[k] = hist
        n += 1
        if n > 300:
            raise TooMany(c)
        # end of life
        ends = [('fall', s.copy(), None)]
        if dtor is not None:
            g, gtu = dtor
            ends = lt.function(g, gtu, s.copy())[1]
        where = (dtor[0] if dtor else f).loc()
        for o, e, v in ends:
            for rid, r in e.res.items():
                if r[0] == 'live':
                    bad = True
                    flds = [x[1] for x, y in s.env.items()
                            if y == ('res', rid)]
                    rep.bad('object', f'{c}: {", ".join(flds) or r[1]} '
                            'never released', where,
                            f'{r[1]} acquired at {rid[0]} outlives the '
                            f'object ({" > ".join(hist)} > end)')
            e = settle(lt, e, tu)
            for cn in sorted({x[0] for x in e.cnt}) if acc else ():
                bad = True
                rep.bad('object', f'{c}: {cn}', where,
                        f'net change over {" > ".join(hist)} > end: '
                        + showcnt({x: y for x, y in e.cnt.items()
                                   if x[0] == cn}))
        if len(hist) >= 4 or bad:
            continue
        for g, gtu in steps:
            st = lt.start(g, gtu)
            s2 = s.copy()
            s2.names.update(st.names)
            for o, e, v in lt.function(g, gtu, s2)[1]:
                # the object survives an error in its method; accounting is
                # not claimed for paths that end in an error
                work.append((settle(lt, e, gtu), hist + (g.name,),
                             acc and o != 'throw'))
    if not bad:
        rep.ok('object', f'{c} from {f.type}', f.loc(),
               f'{n} states')
    return n


def check_copies(rep, lt, prog, own):
    n = 0
    for c in sorted(own):
        rec = prog.records.get(c)
        if rec is None:
            continue
        bare = c.split('::')[-1]
        user = any(f.cls == c and f.node.kind == 'CXXConstructorDecl' and
                   len(f.params) == 1 and bare in (f.params[0].type or '')
                   for f, tu in sources(lt, prog))
        ptr = [x for x in rec[0].fields if x.name in own[c]]
        if not ptr:
            continue
        bad = None
        for f, tu in sources(lt, prog):
            for x in f.body.walk():
                if x.kind == 'CXXConstructExpr' and not user:
                    t = (x.d.get('ctorType') or {}).get('qualType', '')
                    if t.startswith('void (const ') and t.rstrip(
                            ')').rstrip().endswith('&') and \
                            t[len('void (const '):].rstrip(')').replace(
                                '&', '').strip().split('::')[-1] == bare \
                            and not x.d.get('elidable'):
                        bad = bad or (f, x)
                if x.kind == 'CXXOperatorCallExpr' and len(x.kids) == 3 and \
                        (x.kids[0].strip().ref or {}).get('name') == \
                        'operator=' and cxx.base_class(
                            x.kids[1]).split('::')[-1] == bare and \
                        not any(g.cls == c and g.name == 'operator='
                                for g, _ in sources(lt, prog)):
                    bad = bad or (f, x)
        n += 1
        if bad:
            rep.bad('copy', f'{bad[0].qual}: {c}', bad[1].loc(),
                    'the object is copied member by member: both copies '
                    'release the same resources')
        else:
            rep.ok('copy', c, rec[0].node.loc())
    return n


# -- Cython -----------------------------------------------------------------

def py_alloc(n):
    """The node is a new expression or a malloc call."""
    k = pyx.kind(n)
    if k == 'SimpleCallNode':
        fn = n.function
        if pyx.kind(fn) == 'NewExprNode':
            return 'new'
        if pyx.kind(fn) == 'NameNode' and str(fn.name) in (
                'malloc', 'calloc', 'PyMem_Malloc'):
            return 'malloc'
    if k == 'TypecastNode':
        return py_alloc(n.operand)
    return None


def py_target(n):
    k = pyx.kind(n)
    if k == 'NameNode':
        return str(n.name)
    if k == 'AttributeNode':
        return f'{py_target(n.obj)}.{n.attribute}'
    return '?'


class PyPaths:
    """Held allocations along the paths of a Cython function."""

    FREE = {'free', 'PyMem_Free'}

    def __init__(self, fn):
        self.bad = []
        self.n = 0

    def may_raise(self, n):
        for x in pyx.walk(n):
            k = pyx.kind(x)
            if k in ('SimpleCallNode', 'GeneralCallNode'):
                if py_alloc(x) == 'malloc':
                    continue
                fn = x.function
                if pyx.kind(fn) == 'NameNode' and str(fn.name) in \
                        self.FREE | {'sizeof', 'deref', 'len'}:
                    continue
                return True
            if k in ('RaiseStatNode', 'IndexNode', 'ForInStatNode',
                     'ReraiseStatNode'):
                return True
        return False

    def frees(self, n):
        out = set()
        for x in pyx.walk(n):
            if pyx.kind(x) == 'SimpleCallNode' and \
                    pyx.kind(x.function) == 'NameNode' and \
                    str(x.function.name) in self.FREE:
                out.add((py_target(x.args[0]), 'malloc'))
            if pyx.kind(x) == 'DelStatNode':
                for a in x.args:
                    out.add((py_target(a), 'new'))
        return out

    def stat(self, n, held, prot):
        """-> held after, or None when the path ends."""
        k = pyx.kind(n)
        if k == 'StatListNode':
            for x in n.stats:
                held = self.stat(x, held, prot)
                if held is None:
                    return None
            return held
        if k in ('SingleAssignmentNode', 'CVarDefNode'):
            if k == 'CVarDefNode':
                pairs = []
                for d in n.declarators:
                    x = d
                    while getattr(x, 'default', None) is None and \
                            hasattr(x, 'base'):
                        x = x.base
                    df = getattr(x, 'default', None) or \
                        getattr(d, 'default', None)
                    pairs.append((str(pyx.decl_name(d)[0]), df))
            else:
                pairs = [(py_target(n.lhs), n.rhs)]
            for t, r in pairs:
                if r is None:
                    continue
                a = py_alloc(r)
                if a and not t.startswith('self.'):
                    self.n += 1
                    self.risk(n, held - {(t, a)}, prot, r)
                    if (t, a) in held:
                        self.bad.append((n, t, 'overwritten while held'))
                    held = held | {(t, a)}
                    continue
                if a:
                    continue
                self.risk(n, held, prot, r)
            return held
        if k == 'TryFinallyStatNode':
            fr = self.frees(n.finally_clause)
            out = self.stat(n.body, held, prot | fr)
            for x in fr:
                pass
            after = self.stat(n.finally_clause,
                              out if out is not None else held, prot)
            return None if out is None else after
        if k == 'TryExceptStatNode':
            caught = prot
            for c in n.except_clauses:
                if c.pattern is None or any(
                        py_target(p) in ('Exception', 'BaseException')
                        for p in (c.pattern or [])):
                    caught = prot | held | {('*', '*')}
            out = self.stat(n.body, held, caught)
            outs = [out] + [self.stat(c.body, held, prot)
                            for c in n.except_clauses]
            outs = [o for o in outs if o is not None]
            return frozenset().union(*outs) if outs else None
        if k == 'ReturnStatNode':
            t = py_target(n.value) if n.value is not None else None
            if n.value is not None:
                self.risk(n, held, prot, n.value)
            for x in held - prot:
                if x[0] != t:
                    self.bad.append((n, x[0], 'still held at return'))
            return None
        if k == 'RaiseStatNode':
            for x in held - prot:
                if ('*', '*') not in prot:
                    self.bad.append((n, x[0], 'still held when an error is '
                                     'raised'))
            return None
        if k == 'IfStatNode':
            outs = []
            for c in n.if_clauses:
                self.risk(c.condition, held, prot, c.condition)
                outs.append(self.stat(c.body, self.null(c, held), prot))
            outs.append(self.stat(n.else_clause, held, prot)
                        if n.else_clause is not None else held)
            outs = [o for o in outs if o is not None]
            return frozenset().union(*outs) if outs else None
        if k in ('ForInStatNode', 'WhileStatNode', 'ForFromStatNode',
                 'WithStatNode', 'GILStatNode'):
            b = n.body
            it = getattr(n, 'iterator', None)
            if it is not None:
                self.risk(n, held, prot, it)
            out = self.stat(b, held, prot)
            return held if out is None else out
        # any other statement
        fr = self.frees(n)
        if fr:
            for x in fr:
                if x in held:
                    held = held - {x}
                elif x[0] in self.mine and not x[0].startswith('self.'):
                    self.bad.append((n, x[0], 'released twice or by the '
                                     'wrong routine'))
            return held
        self.risk(n, held, prot, n)
        return held

    @staticmethod
    def null(c, held):
        """`if p is NULL' / `if not p': nothing is held."""
        names = {str(x.name) for x in pyx.walk(c.condition)
                 if pyx.kind(x) == 'NameNode'}
        nul = any(pyx.kind(x) == 'NullNode' for x in pyx.walk(c.condition))
        neg = pyx.kind(c.condition) == 'NotNode'
        eq = getattr(c.condition, 'operator', '') in ('is', '==')
        if neg or nul and eq:
            return frozenset(x for x in held if x[0] not in names)
        return held

    def risk(self, n, held, prot, expr):
        left = held - prot
        if ('*', '*') in prot or not left or not self.may_raise(expr):
            return
        for x in left:
            self.bad.append((n, x[0], 'still held when this raises'))

    def run(self, body):
        self.mine = set()
        for x in pyx.walk(body):
            if pyx.kind(x) == 'SingleAssignmentNode' and py_alloc(x.rhs):
                self.mine.add(py_target(x.lhs))
            if pyx.kind(x) == 'CVarDefNode':
                for d in x.declarators:
                    self.mine.add(pyx.decl_name(d)[0])
        out = self.stat(body, frozenset(), frozenset())
        if out:
            for x in out:
                self.bad.append((body, x[0], 'still held at the end'))
        return self.bad


def check_binding(rep):
    n = 0
    for m in pyx.modules():
        if not m.endswith('.pyx'):
            continue
        tree = pyx.parse(m)
        for fn in pyx.walk(tree):
            if pyx.kind(fn) not in ('DefNode', 'CFuncDefNode'):
                continue
            name = str(getattr(fn, 'name', None) or
                       pyx.decl_name(fn.declarator))
            allocs = [x for x in pyx.walk(fn.body) if py_alloc(x) and
                      pyx.kind(x) == 'SimpleCallNode']
            rel = PyPaths(fn).frees(fn.body)
            if not allocs and not rel:
                continue
            own = [t for t, _ in rel if t.startswith('self.')]
            if name == '__dealloc__' or name in ('__cinit__', '__init__') \
                    and all(t.startswith('self.') for t in targets(fn)):
                continue
            n += 1
            p = PyPaths(fn)
            try:
                bad = p.run(fn.body)
            except (AttributeError, TypeError) as e:
                rep.undecided('binding', f'{m}:{name}', m, repr(e))
                continue
            if not bad:
                rep.ok('binding', f'{m}:{name}', f'{m}:{pyx.line(fn)}')
            for node, t, why in bad:
                rep.bad('binding', f'{m}:{name}: {t}',
                        f'src/triumvirate/{m}:{pyx.line(node)}', why)
        for cl in pyx.walk(tree):
            if pyx.kind(cl) != 'CClassDefNode' or cl.body is None:
                continue
            get, put = {}, {}
            for fn in pyx.walk(cl.body):
                if pyx.kind(fn) != 'DefNode':
                    continue
                for x in pyx.walk(fn.body):
                    if pyx.kind(x) == 'SingleAssignmentNode' and \
                            py_alloc(x.rhs) and py_target(
                                x.lhs).startswith('self.'):
                        get.setdefault(py_target(x.lhs), []).append(
                            (str(fn.name), x, py_alloc(x.rhs)))
                for t, how in PyPaths(fn).frees(fn.body):
                    put.setdefault(t, []).append((str(fn.name), how))
            for t, ss in get.items():
                n += 1
                c = f'{m}:{cl.class_name}.{t[5:]}'
                w = f'src/triumvirate/{m}:{pyx.line(ss[0][1])}'
                outside = [s for s in ss if s[0] != '__cinit__']
                d = [x for x in put.get(t, ()) if x[0] == '__dealloc__']
                if not d:
                    rep.bad('binding', c, w, 'never deleted by __dealloc__')
                elif d[0][1] != ss[0][2]:
                    rep.bad('binding', c, w, 'released by the wrong routine')
                elif outside and not any(
                        x[0] == outside[0][0] for x in put.get(t, ())):
                    rep.bad('binding', c, w,
                            f'{outside[0][0]} may run again and overwrite '
                            'the live object')
                elif len(ss) > 1 and not outside:
                    rep.bad('binding', c, w, 'allocated more than once')
                else:
                    rep.ok('binding', c, w)
    rep.need('binding', 5)
    return n


def targets(fn):
    for x in pyx.walk(fn.body):
        if pyx.kind(x) == 'SingleAssignmentNode' and py_alloc(x.rhs):
            yield py_target(x.lhs)
        if pyx.kind(x) == 'CVarDefNode':
            for d in x.declarators:
                y = d
                while y is not None:
                    df = getattr(y, 'default', None)
                    if df is not None and py_alloc(df):
                        yield str(pyx.decl_name(d)[0])
                        break
                    y = getattr(y, 'base', None)
    for t, _ in PyPaths(fn).frees(fn.body):
        yield t


def check(rep, tier):
    sys.setrecursionlimit(20000)
    for r, t in RULES.items():
        rep.rule(r, t)
    prog = cxx.Program()
    lt = Lifetimes(prog)
    results = summarise(lt, prog)
    own = owners(lt, prog, results)
    check_functions(rep, lt, prog, results, own)
    lt.found.clear()
    check_objects(rep, lt, prog, own)
    check_copies(rep, lt, prog, own)
    for c, node in lt.undecided.items():
        rep.undecided('function', c, node.loc(), 'accounting not understood')
    check_binding(rep)
    rep.analysed['expanded helpers'] = sorted(
        prog.funcs[k][0].qual for k in lt.expand)
    rep.analysed['acquisition sites'] = len(lt.sites['acquire'])
    rep.analysed['release sites'] = len(lt.sites['release'])
    rep.analysed['accounting sites'] = len(lt.sites['count'])
    rep.need('function', 10)
    rep.need('object', 4)
