"""S02: empty bins never produce undefined numbers."""
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import cxx
from ..absint import NOC, Domain, Interp, L, P, V
from ..sym import Poly, SymDomain, SymInterp

EXPLANATION = (
    'Two abstract interpretations.  (1) Every back-end function is '
    'interpreted with its callees inlined in a domain that marks values '
    'which start at zero and are only raised by increments; conditions on '
    'such a value refine every copy of it, and no division may have a '
    'divisor that is still possibly zero.  (2) Every two- and three-point '
    'routine is interpreted under the assumption that no mode or pair falls '
    'into any bin (the branch that increments a count is not taken); the '
    'reported count must be zero, the effective coordinate the bin centre '
    'and every bin average zero.')

CMP = {'==', '!=', '<', '>', '<=', '>='}
FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
Z, N = ('Z',), ('N',)


def isnum(c):
    return isinstance(c, (int, float)) and not isinstance(c, bool)


class CountDomain(Domain):
    def __init__(self):
        self.n = 0

    def const(self, v, node):
        return Z if isnum(v) and v == 0 else None

    def kind(self, v):
        if not isinstance(v, V):
            return None
        if v.d is not None and v.d[0] in 'ZNM':
            return v.d
        if isnum(v.c):
            return Z if v.c == 0 else ('P',) if v.c > 0 else None
        return None

    def maybe(self):
        self.n += 1
        return ('M', self.n)

    def binop(self, op, a, b, node):
        x, y = self.kind(a), self.kind(b)
        if x is None and y is None:
            return None
        if op == '+':
            if x is None or y is None:
                return None
            if x[0] in 'PN' or y[0] in 'PN':
                return N if x[0] != 'P' or y[0] != 'P' else None
            if x == Z:
                return y
            if y == Z:
                return x
            return self.maybe()
        if op == '-':
            return x if y == Z else None
        if op == '*':
            if x == Z or y == Z:
                return Z
            for p, q in ((x, y), (y, x)):
                if p is not None and p[0] == 'M':
                    return p if q is not None and q[0] in 'PN' else \
                        self.maybe()
            return N if x and y else None
        if op == '/':
            if x == Z:
                return Z
            return x if y is not None and y[0] in 'PN' and x is not None \
                and x[0] == 'M' else None
        return None

    def cast(self, v, typ, node):
        return v.d

    def join(self, a, b, node=None):
        if a == b:
            return a
        if a is None or b is None or a[0] == 'B' or b[0] == 'B':
            return None
        return self.maybe()

    def call(self, name, args, node):
        ks = [self.kind(a) for a in args]
        if name in ('max', 'fmax'):
            if any(k is not None and k[0] in 'PN' for k in ks):
                return N
        if name in ('min', 'fmin', 'sqrt', 'abs', 'fabs', 'real', 'complex',
                    'norm', 'float', 'double'):
            for k in ks:
                if k is not None and k[0] in 'MZ':
                    return k
        if name == 'pow' and len(args) == 2 and isinstance(args[1], V) and \
                isnum(args[1].c) and args[1].c > 0:
            return ks[0] if ks[0] is not None and ks[0][0] in 'MZN' else None
        return None

    def initial(self, ai, loc, node):
        if loc[-1] == 'num_bins':
            return V(2, None)
        return V(NOC, None)


def facts(v, positive):
    """{uid: 'Z' or 'N'} implied by a condition's truth value."""
    if not isinstance(v, V) or v.d is None:
        return {}
    if v.d[0] == 'B':
        return dict(v.d[1] if positive else v.d[2])
    if v.d[0] == 'M':
        return {v.d[1]: 'N' if positive else 'Z'}
    return {}


def swap(v):
    if isinstance(v, V) and v.d is not None and v.d[0] in 'BM':
        f = tuple(sorted(facts(v, False).items()))
        t = tuple(sorted(facts(v, True).items()))
        return ('B', f, t)
    return None


class CountInterp(Interp):
    join_zero_trip = True
    max_unroll = 6

    def __init__(self, prog):
        super().__init__(prog, CountDomain())
        self.bad = {}
        self.divs = set()
        self.last = None
        self.conds = {}

        def quiet(ai, n, args, this, decl):
            return V(NOC, None)
        for q in prog.by_qual:
            if q.startswith(('trv::sys::Logger::', 'trv::sys::ProgressBar',
                             'trv::sys::update_', 'trv::sys::show_',
                             'trv::sys::set_nodes')):
                self.models[q] = quiet
        for nm in ('max', 'min'):
            self.models[nm] = self.m_minmax
            self.models['std::' + nm] = self.m_minmax

    @staticmethod
    def m_minmax(ai, n, args, this, decl):
        vs = [ai.scalar(a) for a in args]
        nm = ai.fr.tu.callee(n)[1]
        return V(NOC, ai.dom.call(nm, vs, n))

    def arith(self, op, a, b, node):
        if isinstance(a, V) and isinstance(b, V):
            if op in ('/', '%'):
                k = self.dom.kind(b)
                self.divs.add(node.loc())
                if k is not None and k[0] in 'ZM':
                    fr = next((f.func.qual for f in reversed(self.frames)
                               if f.func is not None and
                               f.func.qual != 'lambda'), '?')
                    self.bad.setdefault((fr, text(node)), node.loc())
            if op in CMP:
                r = super().arith(op, a, b, node)
                if r.c is NOC:
                    return V(NOC, self.relation(op, a, b))
                return r
        return super().arith(op, a, b, node)

    def relation(self, op, a, b):
        if isnum(a.c):
            a, b, op = b, a, FLIP[op]
        k = self.dom.kind(a)
        if k is None or k[0] != 'M' or not isnum(b.c):
            return None
        c, u = b.c, k[1]

        def holds(x):
            return self.fold(op, x, c)
        t = f = None
        if not holds(0):
            t = 'N'
        else:
            f = 'N'
        # outcomes for any positive count
        pos = {holds(x) for x in (1, 2, c, c + 1, c - 1, 1e9) if x >= 1}
        if pos == {False}:
            t = 'Z' if holds(0) else t
        if pos == {True}:
            f = 'Z' if not holds(0) else f
        return ('B', ((u, t),) if t else (), ((u, f),) if f else ())

    def e_UnaryOperator(self, n):
        if n.op == '!':
            v = self.ev(n.kids[0])
            t = self.truth(v)
            if t is None:
                return V(NOC, swap(v))
            return V(not t, None)
        return super().e_UnaryOperator(n)

    def e_BinaryOperator(self, n):
        if n.op not in ('&&', '||'):
            return super().e_BinaryOperator(n)
        isand = n.op == '&&'
        x = self.ev(n.kids[0])
        t = self.truth(x)
        if t is not None and t != isand:
            return V(t, None)
        if t is not None:
            y = self.ev(n.kids[1])
            ty = self.truth(y)
            if ty is not None:
                return V(ty, None)
            return V(NOC, y.d if isinstance(y, V) else None)
        s1, s2 = self.st.fork(), self.st.fork()
        self.refine(s1, facts(x, isand))
        self.refine(s2, facts(x, not isand))
        self.st = s1
        y = self.ev(n.kids[1])
        self.st = self.join_state(self.st, s2, n)
        both = {**facts(x, isand), **facts(y, isand)}
        fx, fy = facts(x, not isand), facts(y, not isand)
        one = {k: v for k, v in fx.items() if fy.get(k) == v}
        both, one = (tuple(sorted(d.items())) for d in (both, one))
        if not both and not one:
            return V(NOC, None)
        return V(NOC, ('B', both, one) if isand else ('B', one, both))

    def truth(self, v):
        self.last = v
        if isinstance(v, V) and v.c is NOC and v.d == N:
            return True
        return super().truth(v)

    def on_branch(self, n, cond, t):
        self.conds[id(cond)] = self.last

    def on_cond(self, node, state, positive):
        self.refine(state, facts(self.conds.get(id(node)), positive))

    @staticmethod
    def refine(state, fs):
        if not fs:
            return
        for b, m in list(state.mem.items()):
            hit = [k for k, v in m.items() if isinstance(v, V) and
                   v.d is not None and v.d[0] == 'M' and v.d[1] in fs]
            if hit:
                w = state.blk(b)
                for k in hit:
                    f = fs[w[k].d[1]]
                    w[k] = V(w[k].c, N) if f == 'N' else V(0, Z)

    # an element with an unknown index stands for several
    def weak(self, loc, old, new, n):
        if '*' in loc[1:]:
            return self.join_val(old, new, n)
        return new

    def incdec(self, n, loc):
        old = self.read(loc, n)
        one = V(1, None)
        new = self.arith('+' if n.op == '++' else '-', old, one, n)
        self.write(loc, self.weak(loc, old, new, n), n)
        return old if n.d.get('isPostfix') else new

    def e_CompoundAssignOperator(self, n):
        a, b = n.kids
        v = self.ev(b)
        loc = self.lv(a)
        old = self.read(loc, n)
        new = self.arith(n.op[:-1], old, v, n)
        self.write(loc, self.weak(loc, old, new, n) if n.op == '+=' else new,
                   n)
        return new

    def e_CXXOperatorCallExpr(self, n):
        f, name = self.fr.tu.callee(n)
        if name == 'operator+=' and (
                f is None or self.prog.definition(f) is None):
            args = n.kids[1:]
            v = self.ev(args[1])
            loc = self.lv(args[0])
            old = self.read(loc, n)
            new = self.arith('+', old, v, n)
            self.write(loc, self.weak(loc, old, new, n), n)
            return new
        return super().e_CXXOperatorCallExpr(n)


def text(node):
    """Stable description of an expression: names it mentions."""
    names = []
    for k in node.walk():
        nm = k.name if k.kind == 'MemberExpr' else \
            (k.ref or {}).get('name') if k.kind == 'DeclRefExpr' else None
        if nm and not nm.startswith('operator') and nm not in names:
            names.append(nm)
    return ' / '.join(names[:1]) + (
        ' by ' + ', '.join(names[1:]) if names[1:] else '')


# -- (2) the empty-bin scenario ------------------------------------------
class EmptyDomain(SymDomain):
    def binop(self, op, a, b, node):
        if op == '*':
            for v in (a, b):
                p = self.p(v)
                if p is not None and p.const() == 0:
                    return Poly.num(0)
        return super().binop(op, a, b, node)

    def call(self, name, args, node):
        if name in ('complex', 'conj', 'real', 'imag', 'abs', 'norm') and \
                args:
            ps = [self.p(a) for a in args]
            if all(p is not None and p.const() == 0 for p in ps):
                return Poly.num(0)
        return super().call(name, args, node)

    def initial(self, ai, loc, node):
        v = ai.initial(loc, node)
        return v if v is not None else V(NOC, None)

    def index_key(self, v):
        k = super().index_key(v)
        return '*' if isinstance(k, tuple) else k


class EmptyInterp(SymInterp):
    """No count is ever incremented from zero."""
    max_unroll = 6
    join_zero_trip = True

    def __init__(self, prog, shape, n=2):
        super().__init__(prog, EmptyDomain())
        self.counters = set()
        self.shape, self.n = shape, n
        self.par = self.new('in:params')
        self.bin = self.new('in:binning')
        self.models['trv::calc_coupling_coeff_3pt'] = self.m_coupling
        self.models['trv::calc_coupling_coeff_2pt'] = self.m_coupling
        for nm in ('abs', 'fabs', 'labs'):
            self.models[nm] = self.m_abs

    @staticmethod
    def m_abs(ai, n, args, this, decl):
        a = args[0]
        if isinstance(a, V) and isnum(a.c):
            return V(abs(a.c), ai.dom.const(abs(a.c), n))
        return NotImplemented

    def initial(self, loc, node):
        nm = loc[-1]
        if loc[0].startswith('g:'):
            if loc[0].split('::')[-1].split(':')[-1].startswith('eps'):
                return V(1e-10, Poly.num(1e-10))
            if loc[0].endswith('currTask'):
                return V(0, Poly.num(0))
        if nm == 'num_bins':
            return V(self.n, Poly.num(self.n))
        if loc[0] == self.par[0] and len(loc) == 2:
            k = {'shape': self.shape, 'form': self.shape, 'idx_bin': 0,
                 'ell1': 0, 'ell2': 0, 'ELL': 0, 'i_wa': 0, 'j_wa': 0,
                 'interlace': 'false', 'assignment': 'tsc'}.get(nm)
            if k is not None:
                return V(k, self.dom.const(k, node))
        if len(loc) >= 3 and loc[-2] in ('bin_centres', 'bin_edges') and \
                isinstance(nm, int):
            return V(NOC, Poly.atom((loc[-2], nm)))
        return None

    def obj_method(self, n, name, this, vals):
        if name in ('push_back', 'emplace_back') and vals and isinstance(
                vals[0], V) and not self.loopstack:
            k = self.st.get(this + ('#n',))
            k = k.c if k is not None else 0
            if isinstance(k, int):
                self.write(this + (k,), vals[0], n)
                self.st.set(this + ('#n',), V(k + 1, Poly.num(k + 1)))
                return V(NOC, None)
        return super().obj_method(n, name, this, vals)

    @staticmethod
    def m_coupling(ai, n, args, this, decl):
        return V(1.0, Poly.num(1))

    def run_body(self, body, ctx):
        # orders skipped as redundant or vanishing say nothing about bins
        self.exec(body)
        if not self.loopstack and self.st is not None:
            ctx['continue'] = []
        for x in ctx['continue']:
            self.st = self.join_state(self.st, x, body)
        ctx['continue'] = []

    def noted(self, loc, old, new):
        # modes and pairs are counted in loops over the mesh
        if self.loopstack and isinstance(old, V) and isinstance(new, V):
            o, w = self.dom.p(old), self.dom.p(new)
            if o is not None and o.const() == 0 and w is not None and \
                    w.const() is not None and w.const() > 0:
                self.counters.add(loc)

    def on_write(self, node, loc, v, old):
        if node.kind in ('UnaryOperator', 'CompoundAssignOperator') or \
                node.kind == 'CXXOperatorCallExpr':
            self.noted(loc, old, v)

    def zero(self, st, loc):
        v = st.get(loc)
        if isinstance(v, V):
            p = self.dom.p(v)
            return p is not None and p.const() == 0
        return None

    def join_state(self, s1, s2, node=None):
        if s1 is not None and s2 is not None:
            for loc in self.counters:
                a, b = self.zero(s1, loc), self.zero(s2, loc)
                if a and b is False:
                    return s1
                if b and a is False:
                    return s2
        return super().join_state(s1, s2, node)


_PROG = None


def entry_args(ai, f, par=None, bin_=None):
    args = []
    for p in f.params:
        t = p.desugared or p.type or ''
        c = ai.cat(t)
        if par is not None and 'ParameterSet' in t:
            args.append(L(par))
        elif bin_ is not None and 'Binning' in t:
            args.append(L(bin_))
        elif t.rstrip().endswith('*'):
            args.append(P(ai.new('in:' + (p.name or '')), V(0, None)))
        elif c in ('rec', 'vec', 'arr'):
            args.append(L(ai.new('in:' + (p.name or ''))))
        elif t.rstrip().endswith('&'):
            args.append(L(ai.new('in:' + (p.name or ''))))
        else:
            loc = ai.new('in:' + (p.name or ''))
            args.append(ai.dom.initial(ai, loc, None))
    return args


def count_work(key):
    sys.setrecursionlimit(20000)
    f, tu = _PROG.funcs[key]
    ai = CountInterp(_PROG)
    this = ai.new('in:this') if f.cls else None
    try:
        ai.invoke(f, tu, entry_args(ai, f), this, f.node)
    except cxx.AnalysisBroken:
        raise
    except RecursionError:
        return key, [], [], True
    return key, sorted(ai.bad.items()), sorted(ai.divs), False


RESULTS = {
    'compute_powspec': ('kbin keff nmodes', 'pk_raw pk_shot'),
    'compute_powspec_in_gpp_box': ('kbin keff nmodes', 'pk_raw pk_shot'),
    'compute_corrfunc': ('rbin reff npairs', 'xi'),
    'compute_corrfunc_in_gpp_box': ('rbin reff npairs', 'xi'),
    'compute_corrfunc_window': ('rbin reff npairs', 'xi'),
    'compute_bispec': ('k1_bin k1_eff nmodes_1', 'bk_raw'),
    'compute_bispec_in_gpp_box': ('k1_bin k1_eff nmodes_1', 'bk_raw'),
    'compute_3pcf': ('r1_bin r1_eff npairs_1', ''),
    'compute_3pcf_in_gpp_box': ('r1_bin r1_eff npairs_1', ''),
    'compute_3pcf_window': ('r1_bin r1_eff npairs_1', ''),
}


def empty_work(job):
    sys.setrecursionlimit(20000)
    name, shape = job
    f, tu = _PROG.by_qual['trv::' + name][0]
    ai = EmptyInterp(_PROG, shape)
    r = ai.invoke(f, tu, entry_args(ai, f, ai.par, ai.bin), None, f.node)
    rows = []
    where = f.loc()
    tag = f'{name} ({shape})' if '3p' in name or 'bi' in name else name
    if not isinstance(r, L) or ai.st is None:
        return [(None, tag, where, 'no result')]
    coord, zero = RESULTS[name]
    coord, zero = coord.split(), zero.split()
    if shape != 'full' or 'bi' not in name and '3p' not in name:
        pairs = [(i, i) for i in range(2)]
    else:
        pairs = [(i, j) for i in range(2) for j in range(2)]
    names = [(c, 0) for c in coord]
    if '1' in coord[1]:
        names += [(c.replace('1', '2'), 1) for c in coord]
    for fld, dim in names:
        kind = 'count' if fld.startswith('n') else 'coordinate'
        for p, pr in enumerate(pairs):
            i = pr[dim]
            v = ai.st.get(r.loc + (fld, p)) or ai.st.get(
                r.loc + (fld, '*'))
            x = ai.dom.p(v)
            cons = f'{tag} .{fld}[{p}]'
            if x is None:
                rows.append((None, cons, where, 'value not tracked'))
            elif kind == 'count':
                rows.append((x.const() == 0, cons, where,
                             f'the count of an empty bin is {x}'))
            else:
                mid = (Poly.atom(('bin_edges', i)) + Poly.atom(
                    ('bin_edges', i + 1))) * Poly.num(0.5)
                ok = x in (Poly.atom(('bin_centres', i)), mid)
                rows.append((ok, cons, where, 'an empty bin is reported at '
                             f'{x} instead of its centre'))
    for fld in zero:
        for p, _ in enumerate(pairs):
            v = ai.st.get(r.loc + (fld, p)) or ai.st.get(
                r.loc + (fld, '*'))
            x = ai.dom.p(v)
            cons = f'{tag} .{fld}[{p}]'
            if x is None or x.const() is None:
                rows.append((None, cons, where, 'value not tracked'))
            else:
                rows.append((x.const() == 0, cons, where,
                             f'an empty bin has the value {x}'))
    return rows


def check(rep, tier):
    global _PROG
    prog = _PROG = cxx.Program()
    rep.rule('guarded', 'No divisor is a count that may still be zero.')
    keys = [k for k, (f, tu) in prog.funcs.items() if f.qual.startswith('trv')
            and f.body is not None]
    ex = ProcessPoolExecutor(8)
    bad, divs = {}, set()
    for key, bs, ds, deep in ex.map(count_work, keys, chunksize=4):
        divs.update(ds)
        for k, where in bs:
            bad.setdefault(k, where)
    for d in sorted(divs):
        if d not in set(bad.values()):
            rep.ok('guarded', 'division', d, '')
    for (fn, txt), where in sorted(bad.items()):
        rep.bad('guarded', f'{fn}: {txt}', where,
                'divides by a count that is zero if nothing was counted')
    rep.rule('empty', 'With no mode or pair in any bin, counts and bin '
             'averages are zero and coordinates are the bin centres.')
    jobs = []
    for name in RESULTS:
        if 'trv::' + name not in prog.by_qual:
            raise cxx.AnalysisBroken(f'trv::{name} not found')
        three = 'bi' in name or '3p' in name
        jobs += [(name, sh) for sh in (('diag', 'full') if three else
                                       ('diag',))]
    for rows in ex.map(empty_work, jobs):
        for ok, cons, where, detail in rows:
            if ok is None:
                rep.undecided('empty', cons, where, detail)
            else:
                rep.check(ok, 'empty', cons, where, detail)
    rep.analysed.update(functions=len(keys), divisions=len(divs))
    rep.need('guarded', 20)
