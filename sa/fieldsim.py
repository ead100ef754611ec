"""Symbolic interpretation of the mesh-field classes.

Every complex mesh is summarised by one generic cell (component 0 and 1), whose
content is a polynomial over atoms that stand for the mesh contents when the
outermost field method was entered, assigned particles, Fourier transforms,
loop variables and parameters.  Assignment of particles is an atom; a
transform is a linear renaming.  Transform plans and buffers carry their
state.  Whole measurement routines are followed with every field method
inlined."""
import math
from fractions import Fraction

from .absint import NOC, L, P, V, is_expr
from .sym import OPS, Poly, SymDomain, SymInterp

OPS |= {'alt', 'FT', 'M'}

MESH = ('M', 'A', 'FT')
CLASSES = ('trv::MeshField::', 'trv::FieldStats::')
FFTW = {'fftw_plan_dft_3d', 'fftw_execute', 'fftw_execute_dft',
        'fftw_destroy_plan', 'fftw_free', 'fftw_import_wisdom_from_filename',
        'fftw_export_wisdom_to_filename'}


def subpolys(x):
    if isinstance(x, Poly):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from subpolys(y)


_fl = {}


def fieldlike(a, mesh=False):
    """Does the atom vary over mesh cells (or hold mesh content)?"""
    k = (a, mesh)
    r = _fl.get(k)
    if r is None:
        r = False
        if isinstance(a, tuple) and a:
            if a[0] in MESH:
                r = True
            elif not mesh and (a[0] in ('lv', 'fresh') or
                               a[0] == 'in' and '*' in a):
                r = True
            else:
                r = any(fieldlike(b, mesh) for p in subpolys(a)
                        for m in p.t for b, _ in m)
        _fl[k] = r
    return r


def hasmesh(p):
    return p is not None and any(fieldlike(a, True) for m in p.t
                                 for a, _ in m)


def split(m):
    """(scalar part, field part) of a monomial."""
    return (tuple(x for x in m if not fieldlike(x[0])),
            tuple(x for x in m if fieldlike(x[0])))


def linear(p, wrap):
    """Apply a linear operation: the scalar factors stay outside."""
    if p is None:
        return None
    out = Poly()
    by = {}
    for m, c in p.t.items():
        s, f = split(m)
        by.setdefault(s, {})[f] = by.setdefault(s, {}).get(f, 0) + c
    for s, fs in by.items():
        for f, c in fs.items():
            out = out + Poly({s: c}) * wrap(Poly({f: Fraction(1)}))
    return out


class FDomain(SymDomain):
    def __init__(self):
        super().__init__()
        self.cmps = {}
        self.negs = {}

    def unknown(self, node):
        return Poly.atom(('fresh', '?', node.loc() if node is not None
                          else ''))

    def small(self, p, node):
        """Keep what is not mesh content small."""
        if p is not None and p.size() > 150:
            if not hasmesh(p):
                return self.unknown(node)
            if p.size() > 400:
                return None
        return p

    def binop(self, op, a, b, node):
        return self.small(super().binop(op, a, b, node), node)

    def index_key(self, v):
        k = super().index_key(v)
        return k if isinstance(k, int) else '*'

    def compare(self, op, a, b, node):
        x, y = self.p(a), self.p(b)
        if node is not None:
            if x is None or y is None:
                self.cmps.pop(node.id, None)
            else:
                self.cmps[node.id] = (op, x, y)
        return None

    def cond(self, node):
        if node is None or node.kind not in ('IfStmt',
                                             'ConditionalOperator'):
            return None
        c = node.kids[1 if node.d.get('hasInit') else 0].strip()
        return self.cmps.get(c.id)

    def join(self, a, b, node=None):
        if a is None or b is None:
            return None
        if a == b:
            return a
        c = self.cond(node)
        if not a.t and hasmesh(b):
            return b
        if not b.t and hasmesh(a):
            return a
        if c is not None:
            return self.small(Poly.atom(('sel', c, a, b)), node)
        return self.small(Poly.atom(('alt', a, b)), node)

    def call(self, name, args, node):
        if name in ('real', 'imag', 'conj') and len(args) == 1:
            x = self.p(args[0])
            if x is None:
                return None
            return linear(x, lambda q: Poly.atom(('call', name, q)))
        return self.small(super().call(name, args, node), node)


class Event:
    """One executed transform."""

    def __init__(self, node, buf, sign, obj, key, stack):
        self.node, self.buf, self.sign = node, buf, sign
        self.obj, self.key, self.stack = obj, key, stack


class FieldInterp(SymInterp):
    max_unroll = 4
    max_depth = 60

    def __init__(self, prog, consts, report):
        super().__init__(prog, FDomain())
        self.dom.initial = self.initial
        self.consts = consts       # parameter member -> constant
        self.report = report       # fn(rule, ok, construct, node, detail)
        self.meshes = []           # locations of MeshField objects
        self.ids = {}
        self.snap = None
        self.events = []
        self.outer = 0
        self.nassign = 0
        self.executed = 0
        self.par = self.new('in:params')
        self.writes = {}           # (func, buffer kind) -> coverage
        M = self.models
        for q in prog.by_qual:
            if q.startswith('trv::MeshField::assign_weighted_field_to_mesh'):
                M[q] = self.m_assign
            elif q.startswith('trv::maths::SphericalHarmonicCalculator'):
                M[q] = self.m_store
            elif q.startswith(('trv::maths::SphericalBesselCalculator',
                               'trv::maths::calc_', 'trv::calc_')):
                M[q] = self.m_opaque
            elif q.startswith('trv::ParticleCatalogue::') and \
                    'operator' not in q:
                M[q] = self.m_opaque
        M['trv::sys::is_gpu_enabled'] = self.m_false
        M['trv::sys::get_gpu_ids'] = self.m_opaque
        M['trv::FieldStats::ret_calc_shotnoise_aliasing'] = self.m_opaque
        self.scope = set()

    # -- bookkeeping ----------------------------------------------------
    def new(self, what='', node=None):
        loc = super().new(what, node)
        self.__dict__.setdefault('blocks', []).append(loc[0])
        return loc

    def drop_locals(self, fr, val):
        """Forget the scalar locals of a finished call."""
        if self.st is None or isinstance(val, (L, P)):
            return
        mem = self.st.mem
        keep = []
        for b in self.blocks[fr.start:]:
            m = mem.get(b)
            if m is None or len(m) == 1 and isinstance(m.get(()), V):
                mem.pop(b, None)
            else:
                keep.append(b)
        self.blocks[fr.start:] = keep

    # -- inputs ---------------------------------------------------------
    def initial(self, ai, loc, node):
        last = loc[-1]
        if loc[0] == self.par[0] or len(loc) > 1 and 'params' in loc:
            v = self.param(loc)
            if v is not None:
                return v
        if loc[0].startswith('g:'):
            nm = loc[0].split('::')[-1].split(':')[-1]
            if nm == 'currTask':
                return V(0, Poly())
        t = self.cat(self.ntype(node)) if node is not None else 'num'
        if t == 'ptr':
            return P(('heap:' + '.'.join(map(str, loc)),),
                     V(0, self.dom.const(0, node)), True)
        if isinstance(last, str) and last.startswith('#'):
            return V(NOC, None)
        return V(NOC, Poly.atom(('in',) + tuple(loc)))

    def param(self, loc):
        last = loc[-1]
        if last in self.consts:
            c = self.consts[last]
            if c is NOC:
                return V(NOC, None)
            return V(c, self.dom.const(c, None))
        N = [Poly.atom(('N', a)) for a in range(3)]
        Ls = [Poly.atom(('L', a)) for a in range(3)]
        if last == 'nmesh':
            return V(NOC, N[0] * N[1] * N[2])
        if last == 'volume':
            return V(NOC, Ls[0] * Ls[1] * Ls[2])
        if len(loc) > 1 and loc[-2] in ('ngrid', 'boxsize'):
            if isinstance(last, int) and 0 <= last < 3:
                return V(NOC, (N if loc[-2] == 'ngrid' else Ls)[last])
            return V(NOC, Poly.atom(('in', loc[-2], '*')))
        return None

    # -- models ---------------------------------------------------------
    @staticmethod
    def m_false(ai, n, args, this, decl):
        return V(False, Poly())

    @staticmethod
    def m_opaque(ai, n, args, this, decl):
        ai.dom.nfresh += 1
        return V(NOC, Poly.atom(('in', 'opaque', n.loc() or '?')))

    @staticmethod
    def m_store(ai, n, args, this, decl):
        for a in args:
            if isinstance(a, (L, P)) and a.loc and a.loc[0] != ai.par[0]:
                ai.write(a.loc + ('*',), V(NOC, Poly.atom(
                    ('in', 'ylm', n.loc() or '?', '*'))), n)
        return V(NOC, Poly.atom(('in', 'ylm0', n.loc() or '?', '*')))

    @staticmethod
    def m_assign(ai, n, args, this, decl):
        if this is None:
            return V(NOC, None)
        ai.nassign += 1
        for kind, b in zip('ps', ai.bufs(this)):
            if b is None:
                continue
            for c in (0, 1):
                ai.write(b + ('*', c), V(NOC, Poly.atom(
                    ('A', kind, ai.nassign, c))), n)
        return V(NOC, None)

    # -- buffers --------------------------------------------------------
    def bufs(self, obj):
        out = []
        for m in ('field', 'field_s'):
            v = self.st.get(obj + (m,))
            if isinstance(v, P) and v.loc is not None and \
                    'alloc' in v.loc[0]:
                out.append(v.loc)
            else:
                out.append(None)
        return out

    def content(self, buf):
        out = []
        for c in (0, 1):
            v = self.st.get(buf + ('*', c))
            out.append(self.dom.p(v) if v is not None else
                       Poly.atom(('in', buf[0], '*', c)))
        return out

    def kind(self, buf):
        for o in self.meshes:
            b = self.bufs(o)
            if buf in b:
                return o, 'ps'[b.index(buf)]
        return None, None

    # -- transforms -----------------------------------------------------
    def ext_call(self, n, name, vals):
        if name == 'fftw_plan_dft_3d':
            return self.plan(n, vals)
        if name in ('fftw_execute', 'fftw_execute_dft'):
            return self.execute(n, name, vals)
        if name in ('fftw_destroy_plan', 'fftw_free', 'free'):
            self.release(n, name, vals)
            return V(NOC, None)
        if 'wisdom_' in name:
            return self.wisdom(n, name, vals)
        if name in ('fopen', 'system_clock::now'):
            return self.fopen(n, vals)
        return super().ext_call(n, name, vals)

    def fopen(self, n, vals):
        return V(NOC, None)

    def wisdom(self, n, name, vals):
        return V(NOC, None)

    def here(self):
        for fr in reversed(self.frames):
            if fr.func is not None and fr.func.qual != 'lambda':
                return fr.func.qual.replace('trv::', '')
        return '?'

    def plan(self, n, vals):
        loc = self.new('plan', n)
        st = self.st
        sign = vals[5].c if len(vals) > 5 and isinstance(vals[5], V) else NOC
        st.set(loc + ('#sign',), V(sign, None))
        st.set(loc + ('#in',), vals[3] if len(vals) > 3 else V(NOC, None))
        st.set(loc + ('#out',), vals[4] if len(vals) > 4 else V(NOC, None))
        st.set(loc + ('#alive',), V(True, None))
        dims = [self.dom.p(v) for v in vals[:3]]
        want = [Poly.atom(('N', a)) for a in range(3)]
        unknown = any(d is None for d in dims)
        self.report('plan', None if unknown else dims == want,
                    f'{self.here()}: plan created', n,
                    'the plan is made for the mesh dimensions '
                    f'{dims} instead of ngrid[0], ngrid[1], ngrid[2]')
        prod = None if unknown else dims[0] * dims[1] * dims[2]
        st.set(loc + ('#prod',), V(NOC, prod))
        for w in ('#in', '#out'):
            self.buffer(n, st.get(loc + (w,)), prod, 'plan created')
        return P(loc, V(0, Poly()))

    def buffer(self, n, b, prod, what):
        """Is b an allocated buffer that is large enough?"""
        cons = f'{self.here()}: {what}'
        if isinstance(b, P) and b.loc is not None and 'alloc' in b.loc[0]:
            if self.st.get(b.loc + ('#freed',)) is not None:
                self.report('plan', False, cons, n,
                            'the buffer has been freed')
                return False
            if b.maybe_null:
                self.report('plan', False, cons, n, 'the buffer is not '
                            'allocated on every path that leads here')
                return False
            sz = self.st.get(b.loc + ('#size',))
            sz = self.dom.p(sz) if sz is not None else None
            if sz is not None and prod is not None and sz != prod:
                self.report('plan', False if not opaque(sz) else None, cons,
                            n, f'the buffer has {sz} cells, the plan '
                            f'{prod}')
                return False
            self.report('plan', True, cons, n, '')
            return True
        null = isinstance(b, P) and (b.loc is None or b.maybe_null) or \
            isinstance(b, V) and b.c is not NOC or b is None
        self.report('plan', False if null else None, cons, n,
                    'the buffer was never allocated')
        return False

    def execute(self, n, name, vals):
        cons = f'{self.here()}: {name}'
        p = vals[0] if vals else None
        self.executed += 1
        if not isinstance(p, P) or p.loc is None or \
                not p.loc[0].startswith('plan'):
            null = not isinstance(p, P) or p.loc is None or \
                p.loc[0].startswith('heap:') or p.maybe_null
            self.report('plan', False if null else None, cons, n,
                        'the plan executed was never created')
            return V(NOC, None)
        al = self.st.get(p.loc + ('#alive',))
        if p.maybe_null or al is None or al.c is not True:
            self.report('plan', False, cons, n, 'the plan executed is '
                        'not created, or already destroyed, on some path')
        else:
            self.report('plan', True, cons, n, '')
        sg = self.st.get(p.loc + ('#sign',))
        sg = sg.c if sg is not None else NOC
        if name == 'fftw_execute':
            i, o = (self.st.get(p.loc + (w,)) for w in ('#in', '#out'))
        else:
            i, o = vals[1], vals[2]
        pr = self.st.get(p.loc + ('#prod',))
        pr = pr.d if pr is not None else None
        ok = [self.buffer(n, b, pr, name) for b in (i, o)]
        if name != 'fftw_execute' and all(ok):
            # in-place plans only run in place
            pi, po = (self.st.get(p.loc + (w,)) for w in ('#in', '#out'))
            if isinstance(pi, P) and isinstance(po, P):
                same = (pi.loc == po.loc) == (i.loc == o.loc)
                self.report('plan', same, cons, n, 'the plan is made for an '
                            'in-place transform only or for an out-of-place '
                            'one only')
        if not all(ok):
            return V(NOC, None)
        cs = self.content(i.loc)
        key = self.executed
        for c in (0, 1):
            self.write(o.loc + ('*', c), V(NOC, linear(
                cs[c], lambda q, c=c: Poly.atom(('FT', sg, c, q)))), n)
        self.events.append(Event(n, o.loc, sg, None, key, self.stack()))
        return V(NOC, None)

    def release(self, n, name, vals):
        p = vals[0] if vals else None
        cons = f'{self.here()}: {name}'
        if not isinstance(p, P) or p.loc is None:
            self.report('release', None, cons, n, 'not understood')
            return
        w = '#alive' if p.loc[0].startswith('plan') else '#freed'
        cur = self.st.get(p.loc + (w,))
        if w == '#alive':
            self.report('release', cur is not None and cur.c is True, cons,
                        n, 'the plan is destroyed twice')
            self.st.set(p.loc + (w,), V(False, None))
        elif 'alloc' in p.loc[0]:
            self.report('release', cur is None, cons, n,
                        'the buffer is freed twice')
            self.st.set(p.loc + (w,), V(True, None))

    # -- loops ----------------------------------------------------------
    def abstract_loop(self, n, cond, inc, body, ctx):
        vs = self.accumulated(n)
        pre = {}
        for i in vs:
            loc = self.fr.env.get(i)
            if loc is None:
                continue
            v = self.st.get(loc)
            if isinstance(v, V) or v is None:
                pre[i] = v
                self.write(loc, V(NOC, Poly.atom(
                    ('acc', n.loc(), vs[i], 0))), n)
        passes = self.loop_passes
        self.loop_passes = 1 if self.outer or not self.touches(n) else 2
        bound = None
        if cond is not None and cond.kind == 'BinaryOperator':
            bound = cond
        try:
            super().abstract_loop(n, cond, inc, body, ctx)
        finally:
            self.loop_passes = passes
        if self.st is None:
            return
        for i in pre:
            loc = self.fr.env.get(i)
            v = self.st.get(loc)
            start = Poly.atom(('acc', n.loc(), vs[i], 0))
            if isinstance(v, V) and self.dom.p(v) == start and \
                    pre[i] is not None:
                self.write(loc, pre[i], n)
            else:
                self.write(loc, V(NOC, Poly.atom(
                    ('acc', n.loc(), vs[i], 1))), n)

    _acc = {}
    _tch = {}

    def touches(self, n):
        """Does the loop body use mesh fields declared before it?"""
        r = self._tch.get(n.id)
        if r is None:
            inner = {k.id for k in n.walk() if k.kind == 'VarDecl'}
            r = any(k.kind == 'DeclRefExpr' and k.ref and
                    k.ref.get('id') not in inner and
                    'MeshField' in (k.desugared or k.type or '') and
                    '(' not in (k.desugared or k.type or '')
                    for k in n.walk())
            self._tch[n.id] = r
        return r

    def accumulated(self, n):
        """Numbers declared outside a loop and changed in it."""
        r = self._acc.get(n.id)
        if r is not None:
            return r
        inner, out = set(), {}
        lv = self.loop_var(n) if n.kind == 'ForStmt' else None
        for k in n.walk():
            if k.kind in ('VarDecl', 'ParmVarDecl'):
                inner.add(k.id)
            t = None
            if k.kind in ('BinaryOperator', 'CompoundAssignOperator') and \
                    k.op and k.op.endswith('=') and k.op not in (
                        '==', '<=', '>=', '!='):
                t = k.kids[0].strip()
            elif k.kind == 'UnaryOperator' and k.op in ('++', '--'):
                t = k.kids[0].strip()
            if t is not None and t.kind == 'DeclRefExpr' and t.ref and \
                    self.cat(self.ntype(t)) == 'num':
                out[t.ref.get('id')] = t.ref.get('name')
        for i in inner:
            out.pop(i, None)
        if lv is not None:
            out.pop(lv[0], None)
        self._acc[n.id] = out
        return out

    # -- coverage of mesh writes ------------------------------------------
    def on_index(self, node, p, i):
        if not isinstance(p, P) or p.loc is None or \
                'alloc' not in p.loc[0] or not isinstance(i, V):
            return
        o, kd = self.kind(p.loc)
        if o is None:
            return
        self.indexed = (node, kd, self.covers(i), o)
        self.writes.setdefault((self.here(), kd), {})[node.loc()] = \
            self.indexed[2]

    def covers(self, i):
        """Does the index run over the whole mesh in the enclosing loops?
        True, (False, why) or None."""
        x = self.dom.p(i)
        if x is None:
            return None
        lvs = [a for a in x.atoms() if isinstance(a, tuple) and
               a[0] == 'lv']
        if not lvs:
            return None
        N = [Poly.atom(('N', a)) for a in range(3)]
        rng = {}
        for n, var, v0, cond in self.loopstack:
            a = ('lv', n.loc(), var)
            if a in lvs:
                rng[a] = self.extent(a, v0, cond, n)
        if any(a not in rng or rng[a] is None for a in lvs):
            return None
        if len(lvs) == 1:
            a = lvs[0]
            if x != Poly.atom(a):
                return None
            if rng[a] == N[0] * N[1] * N[2]:
                return True
            return False, f'runs over {rng[a]} cells only'
        if len(lvs) == 3:
            for a in lvs:
                for b in lvs:
                    for c in lvs:
                        if len({a, b, c}) < 3:
                            continue
                        if x == (Poly.atom(a) * N[1] + Poly.atom(b)
                                 ) * N[2] + Poly.atom(c):
                            got = [rng[a], rng[b], rng[c]]
                            if got == N:
                                return True
                            return False, f'runs over {got} cells only'
        return None

    def extent(self, a, v0, cond, n):
        start = self.dom.p(v0) if isinstance(v0, V) else None
        c = cond.strip() if cond is not None else None
        if start is None or start.t or c is None or \
                c.kind != 'BinaryOperator':
            return None
        inc = n.kids[3].strip() if len(n.kids) > 3 and n.kids[3] else None
        if inc is None or inc.kind != 'UnaryOperator' or inc.op != '++':
            return None
        op = c.op
        x = self.dom.cmps.get(c.id)
        if x is None:
            return None
        op, l, r = x
        if r == Poly.atom(a):
            l, r = r, l
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if l != Poly.atom(a):
            return None
        if op in ('<', '!='):
            return r
        if op == '<=':
            return r + Poly.num(1)
        return None

    # -- method boundaries ------------------------------------------------
    def on_enter(self, f, fr):
        q = f.qual
        fr.start = len(self.blocks)
        if q.startswith(CLASSES) and f.node.kind == 'CXXConstructorDecl':
            fr.ctor = True
        if not q.startswith(CLASSES) or f.node.kind in (
                'CXXConstructorDecl', 'CXXDestructorDecl') or \
                'operator' in q or q.split('::')[-1].startswith('ret_'):
            return
        self.outer += 1
        fr.field = True
        if self.outer == 1:
            self.opaque_meshes()
            self.events = []
            self.atentry = {o: self.state(o) for o in self.meshes}

    def state(self, o):
        p, s = self.bufs(o)
        return (self.content(p) if p else None,
                self.content(s) if s else None)

    def opaque_meshes(self):
        for o in self.meshes:
            p, s = self.bufs(o)
            if p is None:
                continue
            cp = self.content(p)
            cs = self.content(s) if s else None
            sync = None
            if cs is not None:
                sync = self.synced(cp, cs)
            key = (tuple(cp), tuple(cs) if cs else None)
            if sync is None and cs is not None:
                kp = ks = ('?', self.executed, len(self.ids))
            else:
                kp = self.ids.setdefault(key, len(self.ids))
                ks = kp if sync else ('stale', kp)
            self.sync_of = getattr(self, 'sync_of', {})
            self.sync_of[kp] = sync
            for c in (0, 1):
                self.st.set(p + ('*', c), V(NOC, Poly.atom(
                    ('M', kp, 'p', c))))
                if s:
                    self.st.set(s + ('*', c), V(NOC, Poly.atom(
                        ('M', ks, 's', c))))

    def synced(self, cp, cs):
        """Is the shadow the image of the primary mesh?  True, False or
        None."""
        if None in cp or None in cs:
            return None
        r = True
        for a, b in zip(cp, cs):
            a, b = shadow(a), shadow(b, False)
            if a != b:
                la, lb = loopnames(a), loopnames(b)
                if opaque(a) or opaque(b) or la and lb and la != lb:
                    r = None if r else r
                else:
                    r = False
        return r

    def on_leave(self, f, fr, val):
        self.drop_locals(fr, val)
        if getattr(fr, 'ctor', False) and fr.this is not None and \
                f.qual == 'trv::MeshField::MeshField':
            if fr.this not in self.meshes:
                self.meshes.append(fr.this)
            if self.st is not None:
                p, s = self.bufs(fr.this)
                if p and s:
                    ok = self.synced(self.content(p), self.content(s))
                    self.report('sync', ok, 'MeshField constructor',
                                f.node, 'the two meshes do not start from '
                                'the same state')
        if not getattr(fr, 'field', False):
            return
        self.outer -= 1
        if self.outer == 0 and self.st is not None:
            self.after(f, fr)
            self.events = []

    def after(self, f, fr):
        """Judge the transforms of an outermost method."""
        me = f.qual.replace('trv::', '')
        for e in self.events:
            for c in (0, 1):
                self.norm(me, e, self.content(e.buf)[c])
        for o in self.meshes:
            p, s = self.bufs(o)
            if p is None or s is None or o not in self.atentry:
                continue
            fwd = [e for e in self.events if e.sign == -1 and
                   e.buf in (p, s)]
            if not fwd:
                continue
            ep, es = self.atentry[o]
            k = ep[0].only_atom()
            k = k[1] if k else None
            sync = self.sync_of.get(k)
            who = self.name(o)
            # calls from measurement routines are reported at the call
            site = fr.node if fr.node is not None else f.node
            caller = next((x.func.qual for x in reversed(self.frames)
                           if x.func is not None), '?')
            self.report('sync', sync, f'{me} of {who} in '
                        f'{caller.replace("trv::", "")}', site,
                        'the shadow mesh has not gone through the same '
                        'operations as the primary mesh when the two are '
                        'combined')
            self.combine(me, f, fwd, p, s, ep, es)

    def name(self, o):
        b = self.blkinfo.get(o[0])
        nm = b[0] if b else o[0]
        return '.'.join([nm] + [str(x) for x in o[1:]])

    def norm(self, me, e, x):
        """Judge the volume factors of a transformed mesh."""
        if e.sign not in (-1, 1):
            self.report('norm', None, me, e.node, 'direction unknown')
            return
        way = 'forward' if e.sign == -1 else 'backward'
        if x is None:
            self.report('norm', None, f'{me}: {way}', e.node,
                        'content unknown')
            return
        alts = list(leaves(x))
        bad = None
        acc = False
        seen = False
        for q in alts:
            for m, c in q.t.items():
                ft = [a for a, k in m if fieldlike(a, True)]
                if not any(isinstance(a, tuple) and a[0] == 'FT' and
                           a[1] == e.sign for a in ft):
                    if any(isinstance(a, tuple) and a[0] == 'FT'
                           for a in ft):
                        bad = bad or ('the mesh holds a transform in the '
                                      'other direction')
                    continue
                seen = True
                ex = {}
                for a, k in m:
                    if isinstance(a, tuple) and a[0] in ('L', 'N'):
                        ex[a] = k
                    if isinstance(a, tuple) and a[0] == 'acc' and k == -1:
                        acc = True
                lx = [ex.get(('L', i), 0) for i in range(3)]
                nx = [ex.get(('N', i), 0) for i in range(3)]
                inside = any(isinstance(b, tuple) and b[0] in ('L', 'N')
                             for a in ft if a[0] == 'FT'
                             for p in subpolys(a) for mm in p.t
                             for b, _ in mm)
                if e.sign == -1:
                    if (lx, nx) != ([1] * 3, [-1] * 3):
                        bad = bad or (show(lx, nx) + ' instead of the cell '
                                      'volume')
                    elif abs(c) != 1 and self.consts.get(
                            'interlace') != 'true':
                        bad = bad or f'the transform has a factor {c}'
                elif (lx, nx) == ([-1] * 3, [0] * 3):
                    if acc:
                        bad = bad or 'both a volume and a count divide it'
                elif (lx, nx) == ([0] * 3, [0] * 3):
                    bad = bad or 'novol'
                else:
                    bad = bad or (show(lx, nx) + ' instead of one over the '
                                  'box volume')
                if inside:
                    bad = bad or 'unknown'
        if bad == 'novol':
            bad = None if acc else ('neither the box volume nor a number of '
                                    'modes divides it')
        if not seen and bad is None or bad == 'unknown':
            self.report('norm', None, f'{me}: {way}', e.node,
                        'content not understood')
            return
        self.report('norm', bad is None, f'{me}: {way}', e.node,
                    f'{way} transform: {bad}')

    def combine(self, me, f, fwd, p, s, ep, es):
        """Judge the combination: half the sum with the phase."""
        got = self.content(p)
        if any(g is None for g in got):
            self.report('combine', None, me, f.node, 'content unknown')
            return
        if not any(e.buf == s for e in fwd):
            self.report('combine', False, me, f.node, 'the shadow mesh is '
                        'not transformed')
            return
        why = None
        try:
            why = judge(got, ep, es)
        except Unknown as ex:
            self.report('combine', None, me, f.node, str(ex))
            return
        self.report('combine', why is None, me, f.node, why or '')


class Unknown(Exception):
    pass


def judge(got, ep, es):
    """Compare field = cellvol (FT p + exp(i arg) FT s) / 2 for every cell
    of some small meshes."""
    P_, S_ = {}, {}
    for c in (0, 1):
        for d in (0, 1):
            P_[c, d] = Poly()
            S_[c, d] = Poly()
    kp, ks = ep[0].only_atom(), es[0].only_atom()
    for c in (0, 1):
        for m, co in got[c].t.items():
            ft = [(a, k) for a, k in m if isinstance(a, tuple) and
                  a[0] == 'FT']
            if len(ft) != 1 or ft[0][1] != 1:
                raise Unknown('not a linear combination')
            a = ft[0][0]
            src = a[3].only_atom()
            rest = Poly({tuple(x for x in m if x[0] != a): co})
            if src is None or src[0] != 'M' or src[3] != a[2]:
                raise Unknown('transform of something else')
            if src[1:3] == kp[1:3]:
                P_[c, a[2]] = P_[c, a[2]] + rest
            elif src[1:3] == ks[1:3]:
                S_[c, a[2]] = S_[c, a[2]] + rest
            else:
                raise Unknown('another mesh is mixed in')
    axes = None
    for q in list(P_.values()) + list(S_.values()):
        lv = sorted({a for a in q.atoms() if isinstance(a, tuple) and
                     a[0] == 'lv'}, key=repr)
        for sel in sels(q):
            for r in subpolys(sel):
                lv = sorted(set(lv) | {a for a in r.atoms() if isinstance(
                    a, tuple) and a[0] == 'lv'}, key=repr)
        if lv:
            if axes is not None and axes != lv:
                raise Unknown('different loops')
            axes = lv
    if axes is None:
        return 'the shadow mesh is added without a phase that depends on ' \
               'the mode' if any(q.t for q in S_.values()) else \
            'the shadow mesh is not added'
    if len(axes) != 3:
        raise Unknown('loop variables')
    from itertools import permutations, product
    best = None
    for perm in permutations(axes):
        why = trial(P_, S_, perm, product)
        if why is None:
            return None
        best = best or why
    return best


def sels(p, seen=None):
    for m in p.t:
        for a, _ in m:
            if isinstance(a, tuple):
                if a[0] == 'sel':
                    yield a
                for q in subpolys(a):
                    yield from sels(q)


def trial(P_, S_, perm, product):
    for N in ((4, 6, 2), (5, 3, 4)):
        for ijk in product(*map(range, N)):
            env = {('N', a): N[a] for a in range(3)}
            env.update({('L', a): 1. + a for a in range(3)})
            env.update(zip(perm, ijk))
            vc = 6. / (N[0] * N[1] * N[2])
            m = [x / n if x < n // 2 else x / n - 1
                 for x, n in zip(ijk, N)]
            arg = math.pi * sum(m)
            cs, sn = math.cos(arg), math.sin(arg)
            for (c, d), q in P_.items():
                w = vc / 2 if c == d else 0
                if abs(value(q, env) - w) > 1e-9:
                    return (f'the primary mesh enters component {c} with '
                            f'a factor {value(q, env) / vc:.3g} of its '
                            f'component {d}, not {w / vc:.3g}')
            for (c, d), q in S_.items():
                w = cs if c == d else -sn if c == 0 else sn
                if abs(value(q, env) - w * vc / 2) > 1e-9:
                    return (f'cell {ijk} of a mesh {N}: the shadow mesh '
                            f'enters component {c} with a factor '
                            f'{value(q, env) / vc:.3g} of its component '
                            f'{d}, not {w / 2:.3g}')
    return None


def value(p, env):
    if not isinstance(p, Poly):
        return float(p)
    t = 0.
    for m, c in p.t.items():
        x = float(c)
        for a, k in m:
            x *= aval(a, env) ** k
        t += x
    return t


FN = {'cos': math.cos, 'sin': math.sin, 'floor': math.floor,
      'abs': abs, 'fabs': abs, 'sqrt': math.sqrt, 'exp': math.exp,
      'ceil': math.ceil, 'round': round, 'double': float}


def aval(a, env):
    if a in env:
        return env[a]
    if isinstance(a, tuple):
        if a[0] == 'sel':
            op, x, y = a[1]
            x, y = value(x, env), value(y, env)
            t = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y,
                 '==': x == y, '!=': x != y}[op]
            return value(a[2] if t else a[3], env)
        if a[0] == 'idiv':
            y = value(a[2], env)
            return float(int(value(a[1], env) / y))
        if a[0] == 'mod':
            return math.fmod(value(a[1], env), value(a[2], env))
        if a[0] == 'int':
            return float(int(value(a[1], env)))
        if a[0] == 'inv':
            return 1 / value(a[1], env)
        if a[0] == 'call' and a[1] in FN and len(a) == 3:
            return FN[a[1]](value(a[2], env))
    raise Unknown(f'cannot evaluate {str(a)[:80]}')


def leaves(p, depth=0):
    """Polynomials p may equal, with alternatives at the top resolved."""
    for m in p.t:
        for a, k in m:
            if isinstance(a, tuple) and a[0] in ('alt', 'sel') and \
                    fieldlike(a, True) and k == 1 and depth < 5:
                for b in (a[-2], a[-1]):
                    yield from leaves(p.subst(
                        lambda z: b if z == a else Poly.atom(z)), depth + 1)
                return
    yield p


def show(lx, nx):
    if not any(lx) and not any(nx):
        return 'no volume factor'
    return 'a factor ' + ' '.join(
        [f'L{i}^{e}' for i, e in enumerate(lx) if e] +
        [f'N{i}^{e}' for i, e in enumerate(nx) if e])


def opaque(p):
    return any(isinstance(a, tuple) and a and a[0] == 'fresh' or
               isinstance(a, tuple) and a and a[0] == 'M' and
               isinstance(a[1], tuple) and a[1][0] == '?'
               for a in p.atoms())


def shadow(p, swap=True):
    """Rename primary contents to those of the shadow mesh."""
    def fn(a):
        if not swap and isinstance(a, tuple) and a[0] in ('A', 'M'):
            return None
        if isinstance(a, tuple) and a[0] == 'A' and a[1] == 'p':
            return Poly.atom(('A', 's') + a[2:])
        if isinstance(a, tuple) and a[0] == 'M' and a[2] == 'p':
            return Poly.atom(('M', a[1], 's', a[3]))
        if isinstance(a, tuple) and a[0] == 'lv':
            # loops over the two meshes stand for the same cell
            return Poly.atom(('lv', '', a[-1]))
        return None
    return p.subst(fn)


def loopnames(p):
    return {a[2] for a in p.atoms() if isinstance(a, tuple) and
            a[0] == 'lv'}
