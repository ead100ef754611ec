"""P01: copies keep every member and own their resources."""
from .. import cxx, callgraph
from ..absint import NOC, L, P, V, clean, field_init, is_expr
from ..sym import Poly, SymDomain, SymInterp

EXPLANATION = (
    'Every user-written copy constructor and copy assignment of the back '
    'end is interpreted on an original whose members are distinct symbols; '
    'afterwards each member of the copy must be the symbol of the same '
    'member, and each pointer member must be null or a resource of its own '
    'set up like the ordinary constructor does.  Every implicit copy in the '
    'program is located from the typed syntax tree and must not be of a '
    'class that releases resources in its destructor.')

RELEASE = ('free', 'destroy', 'close', 'delete')


class CopyDomain(SymDomain):
    def initial(self, ai, loc, node):
        t = (node.desugared or node.type or '') if node is not None else ''
        if ai.cat(t) == 'ptr':
            return P(('held:' + '.'.join(map(str, loc)),),
                     V(0, Poly.num(0)))
        return super().initial(ai, loc, node)


class CopyInterp(SymInterp):
    def __init__(self, prog):
        super().__init__(prog, CopyDomain())
        self.extcalls = []     # (name, [arg values], node, result)

    def ext_call(self, n, name, vals):
        r = super().ext_call(n, name, vals)
        if self.cat(self.ntype(n)) == 'ptr' and not (
                isinstance(r, P) and r.loc is not None and
                not r.loc[0].startswith(('unk:', 'alloc'))):
            loc = self.new('res:' + (name or '?'), n)
            r = P(loc, V(0, Poly.num(0)))
        self.extcalls.append((name, vals, n, r))
        return r


def is_copier(f):
    if not f.cls or len(f.params) != 1 or f.body is None:
        return None
    t = (f.params[0].desugared or f.params[0].type or '')
    if not t.rstrip().endswith('&'):
        return None
    b = t.replace('const ', '').rstrip(' &').strip()
    if b.split('::')[-1] != f.cls.split('::')[-1]:
        return None
    if f.node.kind == 'CXXConstructorDecl':
        return 'copy constructor'
    if f.name == 'operator=':
        return 'copy assignment'
    return None


def written_members(prog):
    """(class field names) written anywhere outside default initialisers."""
    out = set()
    for fs in prog.by_qual.values():
        for f, tu in fs:
            for i in f.inits:
                a = i.d.get('anyInit')
                if a and i.kids and i.kids[0].kind != 'CXXDefaultInitExpr':
                    out.add((f.cls, a.get('name'), f.key))
            if f.body is None:
                continue
            for n in f.body.walk():
                tgt = None
                if n.kind in ('BinaryOperator', 'CompoundAssignOperator') \
                        and (n.op == '=' or n.kind[0] == 'C'):
                    tgt = n.kids[0].strip()
                elif n.kind == 'UnaryOperator' and n.op in ('++', '--', '&'):
                    tgt = n.kids[0].strip()
                elif n.kind == 'CXXOperatorCallExpr' and len(n.kids) > 1:
                    tgt = n.kids[1].strip()
                while tgt is not None and tgt.kind == 'ArraySubscriptExpr':
                    tgt = tgt.kids[0].strip()
                if tgt is not None and tgt.kind == 'MemberExpr':
                    out.add((None, tgt.name, f.key))
    return out


def elements(t):
    """Index paths of a member of type t."""
    t = clean(t)
    if t.endswith(']'):
        try:
            n = int(t[t.rindex('[') + 1:-1])
        except ValueError:
            return [('*',)]
        return [(i,) for i in range(min(n, 64))]
    return [()]


def touched(ai, res):
    """Names of external calls that receive the resource."""
    out = []
    for name, vals, n, r in ai.extcalls:
        if any(isinstance(v, P) and v.loc is not None and
               v.loc[0] == res.loc[0] for v in vals):
            out.append(name)
    return out


def ordinary_setup(prog, rec, fld, depth=3):
    """Names of external functions the ordinary constructors apply to a
    pointer member, e.g. to initialise it after allocation."""
    names = set()
    for fs in prog.by_qual.values():
        for f, tu in fs:
            if f.cls != rec.qual or f.node.kind != 'CXXConstructorDecl' or \
                    is_copier(f) or f.body is None:
                continue
            for c in f.body.walk():
                if c.kind != 'CallExpr':
                    continue
                g, nm = tu.callee(c)
                if prog.definition(g) is not None or not nm:
                    continue
                for a in c.kids[1:]:
                    s = a.strip()
                    if s.kind == 'MemberExpr' and s.name == fld.name:
                        names.add(nm)
    return names


def check_copier(rep, prog, f, tu, kind, writes):
    rec = prog.records.get(f.cls)
    if rec is None:
        return
    rec = rec[0]
    ai = CopyInterp(prog)
    this = ai.new('copy')
    other = ai.new('other')
    ai.invoke(f, tu, [L(other)], this, f.node)
    where = f.node.loc()
    if ai.st is None:
        rep.undecided('members', f'{f.cls} {kind}', where,
                      'no path reaches the end')
        return
    for fld in rec.fields:
        t = fld.desugared or fld.type or ''
        name = f'{f.cls}::{fld.name} in the {kind}'
        if ai.cat(t) == 'ptr':
            pointer_member(rep, ai, prog, rec, fld, this, other, name, where)
            continue
        leaves = elements(t)
        if ai.cat(t) == 'rec':
            sub = ai.record(t)[0]
            leaves = [(x.name,) for x in sub.fields]
        bad = None
        und = None
        for path in leaves:
            loc = (fld.name,) + path
            got = ai.read(this + loc, fld)
            want = ai.read(other + loc, fld)
            if isinstance(got, V) and isinstance(want, V):
                if got.d is not None and got.d == want.d:
                    continue
                if got.c is not NOC or (got.d is not None and
                                        got.d.const() is not None):
                    if constant_member(writes, fld, f):
                        continue
                    bad = 'is set to a constant'
                elif got.d is None:
                    und = 'value not followed'
                else:
                    at = got.d.atoms()
                    own = ('in',) + tuple(other + loc)
                    mine = got.d.only_atom()
                    if mine is not None and mine[0] == 'in' and \
                            mine[1] == this[0]:
                        if constant_member(writes, fld, f) and \
                                field_init(fld) is not None:
                            continue
                        bad = 'is not copied'
                    elif mine is not None:
                        bad = 'receives ' + repr(got.d)
                    elif own in at:
                        bad = f'receives {got.d!r} instead of the original'
                    else:
                        und = f'is recomputed as {got.d!r}'
            elif isinstance(got, P) and isinstance(want, P):
                if got.loc != want.loc:
                    und = 'pointer element'
        if bad:
            rep.bad('members', name, where, f'the member {bad}')
        elif und:
            rep.undecided('members', name, where, und)
        else:
            rep.ok('members', name, where)


def constant_member(writes, fld, f):
    """Never written outside copiers: it keeps its default initialiser."""
    return field_init(fld) is not None and not any(
        n == fld.name and k != f.key for c, n, k in writes)


def pointer_member(rep, ai, prog, rec, fld, this, other, name, where):
    got = ai.st.get(this + (fld.name,))
    if got is None:
        if field_init(fld) is not None:
            rep.undecided('resources', name, where,
                          'keeps its default initialiser')
            return
        rep.bad('resources', name, where,
                'the pointer member is not set by the copy')
        return
    if not isinstance(got, P):
        rep.undecided('resources', name, where, 'value not followed')
        return
    if got.loc is None:
        rep.undecided('resources', name, where, 'null in the copy')
        return
    if got.loc[0].startswith('held:') or got.loc[0] in (this[0], other[0]):
        rep.bad('resources', name, where,
                'the copy shares the resource of the original')
        return
    want = ordinary_setup(prog, rec, fld)
    have = touched(ai, got)
    missing = sorted(w for w in want if w not in have)
    if missing:
        rep.bad('resources', name, where, 'the resource of the copy is not '
                f'set up: {", ".join(missing)} never applied to it')
        return
    # whatever the resource is built from belongs to the original's
    # resource of the same member, or to its plain members
    alien = None
    for cn, vals, n, r in ai.extcalls:
        mine = isinstance(r, P) and r.loc == got.loc or any(
            isinstance(v, P) and v.loc == got.loc for v in vals)
        if not mine:
            continue
        for v in vals:
            if isinstance(v, P) and v.loc is not None and \
                    v.loc[0].startswith('held:other') and \
                    f'.{fld.name}' not in v.loc[0] and \
                    fld.name not in v.loc[0]:
                alien = (cn, v.loc[0])
    if alien:
        rep.bad('resources', name, where, f'{alien[0]} builds it from '
                f'{alien[1][5:]}')
        return
    rep.ok('resources', name, where, 'own resource: ' + ', '.join(have))


# -- implicit copies ----------------------------------------------------------

def owners(prog):
    """qual -> destructor, for classes whose destructor releases a member."""
    out = {}
    for fs in prog.by_qual.values():
        for f, tu in fs:
            if f.node.kind != 'CXXDestructorDecl' or f.body is None:
                continue
            if releases(prog, f, tu, set()):
                out[f.cls] = f
    changed = True
    while changed:
        changed = False
        for q, (r, tu) in prog.records.items():
            if q in out or q.startswith('std'):
                continue
            for fld in r.fields:
                t = clean(fld.desugared or fld.type or '')
                for o in list(out):
                    if t == o or t.split('::')[-1] == o.split('::')[-1]:
                        out[q] = out[o]
                        changed = True
    return out


def releases(prog, f, tu, seen):
    if f.key in seen:
        return False
    seen.add(f.key)
    for n in f.body.walk():
        if n.kind == 'CXXDeleteExpr':
            return True
        if n.kind in ('CallExpr', 'CXXMemberCallExpr'):
            g, nm = tu.callee(n)
            d = prog.definition(g)
            if d is None:
                if nm and any(x in nm for x in RELEASE) and n.kids[1:]:
                    return True
            elif d[0].body is not None and releases(prog, d[0], d[1], seen):
                return True
    return False


def user_copier(prog, q, kind):
    """A copier written by the user (or deleted) for class q."""
    r = prog.records.get(q)
    if r is None:
        return None
    for k in r[0].node.kids:
        if k.kind == ('CXXConstructorDecl' if kind == 'copy constructor'
                      else 'CXXMethodDecl') and not k.d.get('isImplicit'):
            if kind != 'copy constructor' and k.name != 'operator=':
                continue
            ps = [x for x in k.kids if x.kind == 'ParmVarDecl']
            if len(ps) != 1:
                continue
            t = (ps[0].desugared or ps[0].type or '')
            if '&' in t and t.replace('const ', '').rstrip(' &').split(
                    '::')[-1].strip() == q.split('::')[-1]:
                return k
    return None


def canon_cls(prog, t):
    t = clean(t).replace('const ', '').strip(' &')
    if t in prog.records:
        return t
    for p in ('trv::', 'trv::maths::', 'trv::sys::'):
        if p + t in prog.records:
            return p + t
    return None


def implicit(rep, prog):
    own = owners(prog)
    rep.analysed['classes_releasing_resources'] = sorted(own)
    sites = 0
    for q, fs in prog.by_qual.items():
        for f, tu in fs:
            if f.body is None:
                continue
            for n in f.body.walk():
                hit = None
                if n.kind == 'CXXConstructExpr' and len(n.kids) == 1:
                    c = canon_cls(prog, n.desugared or n.type or '')
                    a = n.kids[0]
                    if c and canon_cls(prog, a.desugared or a.type or '') \
                            == c and not is_temp(a):
                        hit = (c, 'copy constructor')
                elif n.kind == 'CXXOperatorCallExpr' and len(n.kids) == 3:
                    g, nm = tu.callee(n)
                    c = canon_cls(prog, n.kids[1].desugared or
                                  n.kids[1].type or '')
                    if nm == 'operator=' and c and canon_cls(
                            prog, n.kids[2].desugared or n.kids[2].type or
                            '') == c:
                        hit = (c, 'copy assignment')
                elif n.kind == 'VarDecl':
                    t = clean(n.desugared or n.type or '')
                    if t.startswith(('std::vector<', 'vector<')):
                        e = canon_cls(prog, t[t.index('<') + 1:].split(
                            ',')[0].rstrip('> '))
                        if e in own:
                            hit = (e, 'copy constructor')
                if hit is None:
                    continue
                sites += 1
                c, kind = hit
                name = f'{kind} of {c} in {f.qual}'
                if c in own and user_copier(prog, c, kind) is None:
                    rep.bad('implicit-copy', name, n.loc(),
                            'the implicit copy shares resources that both '
                            'destructors release')
                else:
                    rep.ok('implicit-copy', name, n.loc())
    rep.analysed['copy_sites'] = sites


def is_temp(a):
    s = a
    while s.kind in ('ImplicitCastExpr', 'ExprWithCleanups', 'ParenExpr',
                     'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr',
                     'ConstantExpr') and s.kids:
        if s.kind == 'MaterializeTemporaryExpr':
            return True
        s = s.kids[0]
    return s.kind in ('CallExpr', 'CXXConstructExpr', 'CXXMemberCallExpr',
                      'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr') \
        and not (s.type or '').rstrip().endswith('&') and (
            s.d.get('valueCategory') in (None, 'prvalue'))


def check(rep, tier):
    prog = cxx.Program()
    rep.rule('members', 'After copying, each member of the copy is the '
             'original\'s member.')
    rep.rule('resources', 'A pointer member of a copy is a resource of its '
             'own, set up as by the ordinary constructor.')
    rep.rule('implicit-copy', 'No class that releases resources in its '
             'destructor is copied member by member.')
    writes = written_members(prog)
    seen = set()
    for fs in list(prog.by_qual.values()):
        for f, tu in fs:
            kind = is_copier(f)
            if kind is None or f.node.d.get('isImplicit') or \
                    f.key in seen or '/usr/' in (f.node.loc() or ''):
                continue
            if f.node.d.get('explicitlyDefaulted'):
                continue
            seen.add(f.key)
            check_copier(rep, prog, f, tu, kind, writes)
    for q, (r, tu) in prog.records.items():
        loc = r.node.loc() or ''
        if q.startswith('std') or '/usr' in loc or not loc.startswith('src'):
            continue
        if user_copier(prog, q, 'copy constructor') is None and \
                q not in owners_cache(prog):
            rep.ok('members', f'{q}: implicit member-by-member copy', loc,
                   f'{len(r.fields)} members')
    implicit(rep, prog)
    rep.analysed['copiers'] = sorted(seen)
    rep.need('members', 20)
    rep.need('implicit-copy', 3)


_OWN = {}


def owners_cache(prog):
    if id(prog) not in _OWN:
        _OWN[id(prog)] = owners(prog)
    return _OWN[id(prog)]
