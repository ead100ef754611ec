"""Which coordinate axis a symbolic value belongs to.

A value carries the axes of the per-axis quantities it is computed from
(elements of arrays of extent three, mesh numbers, loop variables that run
over the mesh numbers of one axis, coordinates named x, y and z).  Terms that
involve all three axes alike (volumes, lengths of vectors) belong to none."""
import os
import re

from .absint import NOC, L, P, V, clean
from .cxx import REPO
from .races import RaceDomain, RaceInterp, every
from .sym import INTS, Poly

XYZ = re.compile(r'^(?:p:|h:|g:)?(?:\w+\.)?(?:v|vec|pos_|n|dim_)?([xyz])'
                 r'(?:_\w+)?$')
MAXNODES = 500


def tables(prog):
    """Names declared with extent three, and those declared otherwise."""
    three, other = set(), set()
    for f, tu in prog.funcs.values():
        for n in ([f.body] if f.body is not None else []):
            for k in n.walk():
                if k.kind == 'VarDecl' and k.name:
                    (three if (k.type or '').endswith('[3]')
                     else other).add((f.key, k.name))
        for p in f.params:
            if p.name and ((p.type or '').endswith('[3]') or
                           '[3]' in (p.d.get('type') or {}).get(
                               'qualType', '')):
                three.add((f.key, p.name))
    fields = set()
    for rec, tu in prog.records.values():
        for fl in rec.fields:
            if (fl.type or '').endswith('[3]') or re.search(
                    r'array<\w+, 3>', fl.type or ''):
                fields.add(fl.name)
    return fields, three


class AxisDomain(RaceDomain):
    def loopvar(self, ai, loop, var, init):
        ctx = '/'.join(f.node.loc() for f in ai.frames[1:]
                       if f.node is not None)
        a = ('lv', f'{loop.loc()}@{ctx}', var)
        if not (var or '').endswith('#end'):
            ai.enter_var(loop, var, init, a)
        return Poly.atom(a)

    def compare(self, op, a, b, node):
        self.ai.on_compare(op, a, b, node)
        return super().compare(op, a, b, node)

    def binop(self, op, a, b, node):
        if op in ('*', '/', '+', '-'):
            self.ai.on_scale(op, a, b, node)
        return super().binop(op, a, b, node)


class AxisInterp(RaceInterp):
    def __init__(self, prog, fields):
        super().__init__(prog)
        self.dom = AxisDomain()
        self.dom.ai = self
        self.fields = fields
        self.rows = []
        self.arrays = set()
        self.lvtag = {}
        self.ijk = {}           # cell coordinates of the routine analysed
        self.root = None

    # -- tags --------------------------------------------------------------
    def atag(self, a):
        """Axes of an atom (opaque terms over all three axes: none)."""
        k = a[0]
        if k == 'lv':
            t = self.lvtag.get(a)
            return {t} if t is not None else set()
        if k == 'in':
            last = a[-1]
            if isinstance(last, int) and not isinstance(last, bool) and \
                    0 <= last < 3 and len(a) > 2 and self.extent3(a[1:-1]):
                return {last}
            t = set()
            if isinstance(last, int):
                return t
            if a in self.ijk:
                return {self.ijk[a]}
            nm = next((x for x in reversed(a[1:]) if isinstance(x, str)),
                      '')
            m = XYZ.match(re.sub(r'#\d+$', '', nm).split('.')[-1])
            if m:
                t.add('xyz'.index(m.group(1)))
            return t
        if k == 'join':
            return self.ptags(a[1]) | self.ptags(a[2])
        out = set()
        for x in a[1:]:
            if isinstance(x, Poly):
                out |= self.ptags(x)
        return out if len(out) < 3 else set()

    def extent3(self, path):
        if 'ngrid' in path:
            return True
        if path in self.arrays:
            return True
        nm = next((x for x in reversed(path) if isinstance(x, str)), '')
        return nm in self.fields or nm.split('.')[-1] in self.fields

    def ptags(self, p):
        out = set()
        for m in p.t:
            names, t = {}, set()
            for a, e in m:
                g = self.atag(a)
                if len(g) == 1 and a[0] == 'in':
                    names.setdefault((a[1:-1], e), []).append(g)
                elif len(g) < 3:
                    t |= g
            for gs in names.values():
                u = set().union(*gs)
                if len(u) < 3:
                    t |= u
            if len(t) < 3:
                out |= t
            else:
                out |= {-1}         # a product over all axes, not alike
        if out >= {0, 1, 2} and self.alike(p):
            return set()
        return out

    def alike(self, p):
        """Terms of the three axes occur the same number of times."""
        c = {0: 0, 1: 0, 2: 0}
        for m in p.t:
            t = set()
            for a, e in m:
                t |= self.atag(a)
            for x in t:
                if x in c:
                    c[x] += 1
        return c[0] == c[1] == c[2]

    # -- hooks -------------------------------------------------------------
    def enter_var(self, loop, var, init, atom):
        super().enter_var(loop, var, init, atom)
        s = self.vars.get(atom)
        cond = loop.kids[2] if len(loop.kids) > 2 else None
        if s is None and cond is not None and cond.kids:
            c = cond.strip()
            if c.kind == 'BinaryOperator' and len(c.kids) == 2:
                s = self.dom.p(self.ev(c.kids[1]))
        t = self.ptags(s) if s is not None else set()
        self.lvtag[atom] = next(iter(t)) if len(t) == 1 else None

    def vardecl(self, k):
        super().vardecl(k)
        if (k.type or '').endswith('[3]') or re.search(
                r'array<\w+, 3>', k.type or ''):
            loc = self.fr.env.get(k.id)
            if loc is not None:
                self.arrays.add(loc)

    def row(self, rule, ok, what, node, detail):
        fn = next((f.func.qual for f in reversed(self.frames)
                   if f.func is not None and f.func.qual != 'lambda'),
                  self.root)
        self.rows.append((rule, ok, f'{fn}: {what}', node.loc()
                          if node is not None and hasattr(node, 'loc')
                          else '?', detail))

    def write(self, loc, v, node=None):
        super().write(loc, v, node)
        if isinstance(v, V) and len(loc) > 1 and isinstance(
                loc[-1], int) and 0 <= loc[-1] < 3 and self.is3(loc[:-1]):
            p = self.dom.p(v)
            if p is None:
                return
            t = self.ptags(p)
            bad = t - {loc[-1]}
            nm = next((x for x in reversed(loc[:-1]) if isinstance(x, str)),
                      '?')
            nm = re.sub(r'#\d+$', '', nm)
            self.row('axis', not bad, f'{nm}', node,
                     f'element {loc[-1]} is computed from axes '
                     f'{sorted(t)}: {p!r}'[:200])

    def is3(self, path):
        if path in self.arrays or len(path) > 1 and path[:1] in self.arrays:
            return True
        nm = path[-1] if isinstance(path[-1], str) else next(
            (x for x in reversed(path) if isinstance(x, str)), '')
        return nm in self.fields

    def on_compare(self, op, a, b, node):
        x, y = self.dom.p(a), self.dom.p(b)
        if x is None or y is None:
            return
        s, t = self.ptags(x), self.ptags(y)
        if len(s) == 1 and len(t) == 1 and self.coord(x) | self.coord(y):
            self.row('compare', s == t, 'comparison', node,
                     f'{x!r} of axis {sorted(s)} is compared with {y!r} of '
                     f'axis {sorted(t)}'[:200])

    def on_scale(self, op, a, b, node):
        """A coordinate is scaled by a length or mesh number."""
        if node is None or self.dom.isint(node) and op in '*/':
            return
        x, y = self.dom.p(a), self.dom.p(b)
        if x is None or y is None:
            return
        for u, v in ((x, y), (y, x)):
            if not self.coord(u) or not self.sizeonly(v):
                continue
            s, t = self.ptags(u), self.ptags(v)
            if len(s) == 1 and len(t) == 1:
                how = 'scaled' if op in '*/' else 'shifted'
                self.row('axis', s == t, f'{how} coordinate', node,
                         f'{u!r} of axis {sorted(s)} is {how} by {v!r} of '
                         f'axis {sorted(t)}'[:240])

    def sizeonly(self, p):
        at = [a for a in every(p) if a[0] == 'in']
        return bool(at) and not self.coord(p) and all(
            any(x in ('ngrid', 'boxsize', 'dr', 'dk') or isinstance(x, str)
                and x.endswith(('boxsize', 'ngrid')) for x in a)
            for a in at)

    def coord(self, p):
        """Loop variables and positions, not box or mesh sizes."""
        return {a for a in every(p) if a[0] in ('lv', 'int') or
                a in self.ijk or
                a[0] == 'in' and 'pos' in a}

    def on_index(self, node, p, i):
        super().on_index(node, p, i)
        t = (node.kids[0].strip().type or '') if node.kids else ''
        if t.endswith('[3]') and isinstance(p, P) and p.loc is not None:
            self.arrays.add(p.loc)
            return
        q = self.dom.p(i) if isinstance(i, V) else None
        if q is None or len(self.coords_tags(q)) < 2:
            return
        bad = None
        for m in q.t:
            mesh, co = [], set()
            for a, e in m:
                if a[:2] == ('in', 'ngrid'):
                    mesh += [a[-1]] * e
                else:
                    co |= self.atag(a)
            if len(co) != 1 or -1 in co:
                if len(co) > 1:
                    bad = f'term of axes {sorted(co)}'
                continue
            ax, = co
            want = [1, 2][ax:] if ax < 2 else []
            if abs(q.t[m]) != 1 and False:
                continue
            if sorted(mesh) != want:
                bad = (f'axis {ax} steps by the mesh numbers of axes '
                       f'{sorted(mesh)}, not {want}')
        self.row('index', bad is None, 'flattened index', node,
                 f'{bad}: {q!r}'[:260])

    def coords_tags(self, q):
        out = set()
        for m in q.t:
            for a, e in m:
                if a[:2] != ('in', 'ngrid'):
                    out |= self.atag(a)
        return out

    # -- calls -------------------------------------------------------------
    def ext_call(self, n, name, vals):
        if name in ('max_element', 'min_element'):
            return P(self.new('extreme', n), V(0, Poly()))
        return super().ext_call(n, name, vals)

    def obj_method(self, n, name, this, vals):
        if name in ('push_back', 'emplace_back') and vals and isinstance(
                vals[0], V):
            m = XYZ.match(str(this[-1]))
            p = self.dom.p(vals[0])
            if m and p is not None:
                ax = 'xyz'.index(m.group(1))
                t = self.ptags(p)
                self.row('axis', not t - {ax}, str(this[-1]), n,
                         f'the {m.group(1)} component is computed from axes '
                         f'{sorted(t)}: {p!r}'[:200])
        return super().obj_method(n, name, this, vals)

    def docall(self, n, f, name, args, this):
        if f is not None:
            d = self.prog.definition(f)
            if d is not None:
                rt = self.ret_type(f)
                if 'Logger' in f.qual or 'ProgressBar' in f.qual:
                    return V(NOC, None)
                if len(self.frames) < 7 and (
                        size(d[0]) < MAXNODES or rt.endswith(('&', '*'))):
                    return super(RaceInterp, self).docall(n, f, name, args,
                                                          this)
                self.skip(f, args, this)
                c = self.cat(rt)
                if c in ('rec', 'vec', 'arr'):
                    return L(self.new('ret:' + (f.name or ''), n))
                return V(NOC, Poly.atom(('in', 'ret', f.qual, n.loc())))
        return super().docall(n, f, name, args, this)


_TEXT = {}


def declared3(p):
    """The parameter is written as an array of three elements."""
    r = p.d.get('range') or {}
    b, e = (r.get(k) or {} for k in ('begin', 'end'))
    if 'offset' not in b or 'offset' not in e:
        return False
    path = os.path.join(REPO, p.loc().rsplit(':', 1)[0])
    if path not in _TEXT:
        try:
            with open(path, 'rb') as fh:
                _TEXT[path] = fh.read()
        except OSError:
            _TEXT[path] = b''
    t = _TEXT[path][b['offset']:e['offset'] + e.get('tokLen', 0)]
    return re.search(rb'\[\s*3\s*\]$', t) is not None


_SZ = {}


def size(f):
    if f.key not in _SZ:
        _SZ[f.key] = sum(1 for _ in f.body.walk()) if f.body is not None \
            else 0
    return _SZ[f.key]


def analyse(prog, key, fields):
    f, tu = prog.funcs[key]
    ai = AxisInterp(prog, fields)
    ai.root = f.qual
    for p in f.params:
        if p.name and declared3(p):
            ai.arrays.add((f'h:{p.name}',))
    ints = [p.name for p in f.params
            if clean(p.desugared or p.type or '').rstrip('& ') in INTS]
    if {'i', 'j', 'k'} <= set(ints):
        for n, x in enumerate('ijk'):
            ai.ijk['in', x] = ai.ijk['in', f'p:{x}'] = n
    ai.run_entry(f, tu)
    return ai.rows
