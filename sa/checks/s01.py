"""S01: one layout of three-point data vectors."""
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import cxx
from ..absint import NOC, Domain, Interp, L, P, V, clean
from ..sym import INTS

EXPLANATION = (
    'Provenance analysis of each three-point routine by abstract '
    'interpretation with every helper inlined: each scalar carries the set '
    'of bins (centre, edges, two-point statistic) and of multipole degrees '
    'it was computed from; fields carry the band they were filtered to.  '
    'For every form, off-diagonal or row index and a small number of bins '
    '(the index arithmetic is polynomial of degree two) each entry of each '
    'result vector must come from exactly the pair of bins its position '
    'stands for, and every element access must stay inside its array.')

# entry, space
MEAS = [('compute_bispec', 'k'), ('compute_bispec_in_gpp_box', 'k'),
        ('compute_3pcf', 'r'), ('compute_3pcf_in_gpp_box', 'r'),
        ('compute_3pcf_window', 'r')]
ELLS = [(0, 0, 0), (2, 0, 2), (0, 2, 2), (2, 2, 2)]
FIELDS = {'k': dict(c1='k1_bin', c2='k2_bin', e1='k1_eff', e2='k2_eff',
                    n1='nmodes_1', n2='nmodes_2', raw='bk_raw',
                    sn='bk_shot'),
          'r': dict(c1='r1_bin', c2='r2_bin', e1='r1_eff', e2='r2_eff',
                    n1='npairs_1', n2='npairs_2', raw='zeta_raw',
                    sn='zeta_shot')}
EMPTY = frozenset()
NUMS = INTS | {'double', 'float'}


def pairs(shape, n, idx):
    """Pair of bins at each position."""
    if shape == 'diag':
        return [(i, i) for i in range(n)]
    if shape == 'off-diag':
        m = n - abs(idx)
        return [(p, p + idx) if idx >= 0 else (p - idx, p)
                for p in range(m)]
    if shape == 'row':
        return [(idx, j) for j in range(n)]
    if shape == 'full':
        return [(i, j) for i in range(n) for j in range(n)]
    return [(i, j) for i in range(n) for j in range(i, n)]


def configs(n):
    yield 'diag', 0
    for i in range(-n + 1, n):
        yield 'off-diag', i
    for i in range(n):
        yield 'row', i
    yield 'full', 0
    yield 'triu', 0


def flat(ts):
    out = set()
    for t in ts:
        if t[0] == 'grp':
            out |= t[1]
        else:
            out.add(t)
    return frozenset(out)


def isbin(t):
    return t[0] in ('centre', 'edge', 'stat')


class ProvDomain(Domain):
    def const(self, v, node):
        return EMPTY

    def unknown(self, node):
        return EMPTY

    def d(self, v):
        return v.d if isinstance(v, V) and v.d else EMPTY

    def binop(self, op, a, b, node):
        if op == '*':
            # zero times anything is zero
            for x in (a, b):
                if x.c is not NOC and x.c == 0 and not isinstance(x.c, str):
                    return EMPTY
        return self.d(a) | self.d(b)

    def unop(self, op, a, node):
        return self.d(a)

    def join(self, a, b, node=None):
        return (a or EMPTY) | (b or EMPTY)

    def call(self, name, args, node):
        out = EMPTY
        for a in args:
            out |= self.d(a)
        return out

    def loopvar(self, ai, loop, var, init):
        return EMPTY

    def initial(self, ai, loc, node):
        return ai.initial(loc, node)


class Prov(Interp):
    max_unroll = 40

    def __init__(self, prog, n, shape, idx, ells):
        super().__init__(prog, ProvDomain())
        self.n, self.shape, self.idx, self.ells = n, shape, idx, ells
        self.oob = {}
        self.accesses = 0

        def quiet(ai, n, args, this, decl):
            return V(NOC, EMPTY)
        for q in prog.by_qual:
            if q.startswith(('trv::sys::Logger::', 'trv::sys::ProgressBar',
                             'trv::sys::update_', 'trv::sys::show_',
                             'trv::sys::set_nodes')):
                self.models[q] = quiet
            elif q == 'trv::MeshField::operator[]':
                self.models[q] = self.m_cell
            elif q.startswith('trv::MeshField::'):
                self.models[q] = self.m_field
            elif q.startswith('trv::FieldStats::'):
                self.models[q] = self.m_stats
            elif q.startswith('trv::maths::SphericalHarmonicCalculator'
                              '::store'):
                self.models[q] = self.m_store
        self.models['trv::maths::SphericalBesselCalculator::'
                    'SphericalBesselCalculator'] = self.m_sjctor
        self.models['trv::maths::SphericalBesselCalculator::eval'] = \
            self.m_sj
        self.models['trv::calc_coupling_coeff_3pt'] = self.m_coupling
        for nm in ('abs', 'fabs', 'labs'):
            self.models[nm] = self.m_abs
        for nm in ('max', 'min'):
            self.models[nm] = self.m_minmax
        self.par = self.new('in:params')
        self.bin = self.new('in:binning')

    # -- inputs ---------------------------------------------------------
    def initial(self, loc, node):
        b = loc[0]
        if b.startswith('g:'):
            nm = b.split('::')[-1].split(':')[-1]
            if nm.startswith('eps'):
                return V(1e-10, EMPTY)
            if nm == 'currTask':
                return V(0, EMPTY)
            return V(NOC, EMPTY)
        if b == self.par[0] and len(loc) == 2:
            e = {'ell1': 0, 'ell2': 1, 'ELL': 2}.get(loc[1])
            if e is not None:
                return V(self.ells[e], frozenset([(loc[1],)]))
            k = {'num_bins': self.n + 2, 'idx_bin': self.idx,
                 'shape': self.shape,
                 'form': 'full' if self.shape in ('full', 'triu') else
                 'diag' if self.shape == 'diag' else self.shape,
                 'i_wa': 0, 'j_wa': 0}.get(loc[1])
            if k is not None:
                return V(k, EMPTY)
            return V(NOC, EMPTY)
        if b == self.bin[0]:
            if len(loc) == 2 and loc[1] == 'num_bins':
                return V(self.n, EMPTY)
            if len(loc) == 3 and loc[1] in ('bin_centres', 'bin_edges',
                                            'bin_widths'):
                kind = 'edge' if loc[1] == 'bin_edges' else 'centre'
                top = self.n + (kind == 'edge')
                return self.element(kind, loc[2], top, loc[1], node)
            return V(NOC, EMPTY)
        if len(loc) >= 3:
            t = self.st.get(loc[:-2] + ('#tags',))
            if t is not None:
                v = self.element('stat', loc[-1], self.n, loc[-2], node)
                # coordinates and counts depend on the bin only
                tags = flat(t.d) | {('pk',)} if node is None or 'complex' \
                    in (node.desugared or node.type or '') else EMPTY
                if v.d:
                    return V(NOC, frozenset([('grp', v.d | tags)]))
                return V(NOC, tags)
        return V(NOC, EMPTY)

    def element(self, kind, k, top, what, node):
        self.accesses += 1
        if not isinstance(k, int):
            return V(NOC, EMPTY)
        if not 0 <= k < top:
            self.out(node, what, k, top)
            return V(NOC, EMPTY)
        return V(NOC, frozenset([(kind, k)]))

    def out(self, node, what, k, top):
        fr = next((f.func.qual for f in reversed(self.frames)
                   if f.func is not None), '?')
        self.oob.setdefault((fr, what), (
            node.loc() if node is not None else '?', k, top))

    def on_index(self, node, p, i):
        if not isinstance(p, P) or p.loc is None or not isinstance(i, V):
            return
        s = self.st.get(p.loc + ('#size',))
        if s is None or s.c is NOC or i.c is NOC:
            return
        base = p.idx.c if isinstance(p.idx, V) else 0
        if not isinstance(base, int) or not isinstance(i.c, int):
            return
        self.accesses += 1
        k = base + i.c
        if not 0 <= k < s.c:
            what = self.blkinfo.get(p.loc[0], ('?',))[0]
            src = node.kids[0].strip() if node.kids else node
            nm = (src.ref or {}).get('name') or src.name or what
            self.out(node, nm, k, s.c)

    # -- models ---------------------------------------------------------
    def tokens(self, v):
        if isinstance(v, V):
            return self.dom.d(v)
        out = EMPTY
        if isinstance(v, L) or isinstance(v, P) and v.loc is not None:
            if v.loc[0] in (self.par[0], self.bin[0]):
                return EMPTY
            for rel, x in self.st.under(v.loc):
                if isinstance(x, V) and x.d:
                    out |= x.d
        return out

    @staticmethod
    def m_cell(ai, n, args, this, decl):
        return L(this + ('#cell',))

    @staticmethod
    def m_field(ai, n, args, this, decl):
        ts = EMPTY
        for a in args:
            ts |= ai.tokens(a)
        g = flat(ts)
        if any(isbin(t) for t in g):
            v = V(NOC, frozenset([('grp', g)]))
            ai.st.set(this + ('#cell', 0), v)
            ai.st.set(this + ('#cell', 1), v)
            if decl is not None:
                ai.outargs(n, decl, v)
        return V(NOC, EMPTY)

    def outargs(self, n, decl, v):
        nodes = n.kids[1:]
        for p, a in zip(decl.params, nodes):
            t = (p.desugared or p.type or '').rstrip()
            if t.endswith('&') and 'const' not in t and clean(t) in NUMS:
                self.write(self.lv(a), v, n)

    @staticmethod
    def m_stats(ai, n, args, this, decl):
        if not any('Binning' in (p.desugared or p.type or '')
                   for p in decl.params):
            d = ai.prog.definition(decl)
            if decl.name == 'FieldStats' or d is None or this is None:
                return V(NOC, EMPTY)
            return NotImplemented
        ts = EMPTY
        for a in args:
            ts |= ai.tokens(a)
        ai.clear_tree(this)
        ai.st.set(this + ('#tags',), V(NOC, flat(ts)))
        return V(NOC, EMPTY)

    @staticmethod
    def m_store(ai, n, args, this, decl):
        ts = EMPTY
        dst = None
        for a in args:
            if isinstance(a, V):
                ts |= ai.tokens(a)
            elif isinstance(a, (L, P)) and a.loc and \
                    a.loc[0] != ai.par[0]:
                dst = a
        if dst is not None:
            ai.write(dst.loc + ('*',), V(NOC, flat(ts)), n)
        return V(NOC, EMPTY)

    @staticmethod
    def m_sjctor(ai, n, args, this, decl):
        ts = EMPTY
        for a in args:
            ts |= ai.tokens(a)
        ai.write(this + ('#prov',), V(NOC, flat(ts)), n)
        return V(NOC, EMPTY)

    @staticmethod
    def m_sj(ai, n, args, this, decl):
        ts = ai.tokens(L(this))
        for a in args:
            ts |= ai.tokens(a)
        g = flat(ts)
        return V(NOC, frozenset([('grp', g)]) if any(map(isbin, g)) else g)

    @staticmethod
    def m_coupling(ai, n, args, this, decl):
        ms = [a.c if isinstance(a, V) else NOC for a in args[3:6]]
        return V(1.0 if all(m == 0 for m in ms) else 0.0, EMPTY)

    @staticmethod
    def m_abs(ai, n, args, this, decl):
        a = args[0]
        if isinstance(a, V):
            c = abs(a.c) if isinstance(a.c, (int, float)) else NOC
            return V(c, a.d)
        return NotImplemented

    @staticmethod
    def m_minmax(ai, n, args, this, decl):
        if len(args) == 2 and all(isinstance(a, V) and isinstance(
                a.c, (int, float)) for a in args):
            nm = ai.fr.tu.callee(n)[1]
            f = max if nm == 'max' else min
            return V(f(args[0].c, args[1].c), args[0].d | args[1].d)
        return NotImplemented

    def obj_method(self, n, name, this, vals):
        if name in ('push_back', 'emplace_back') and vals and isinstance(
                vals[0], V) and not self.loopstack:
            k = self.st.get(this + ('#n',))
            k = k.c if k is not None else 0
            if isinstance(k, int):
                self.write(this + (k,), vals[0], n)
                self.st.set(this + ('#n',), V(k + 1, EMPTY))
                self.st.set(this + ('#size',), V(k + 1, EMPTY))
                return V(NOC, EMPTY)
        if name in ('resize', 'assign') and vals and isinstance(
                vals[0], V) and isinstance(vals[0].c, int):
            self.st.set(this + ('#n',), vals[0])
        return super().obj_method(n, name, this, vals)

    def clear_tree(self, loc):
        super().clear_tree(loc)


def bins_of(g):
    """The bin a group of tokens stands for: int, None (none) or 'mixed'."""
    st = {t[1] for t in g if t[0] in ('stat', 'centre')}
    ed = {t[1] for t in g if t[0] == 'edge'}
    if ed:
        lo = min(ed)
        if ed != {lo, lo + 1}:
            return 'mixed'
        st = st | {lo}
    if not st:
        return None
    return st.pop() if len(st) == 1 else 'mixed'


def ells_of(g):
    return {t[0] for t in g if t[0] in ('ell1', 'ell2')}


def groups(d):
    loose = frozenset(t for t in d if isbin(t))
    out = [t[1] for t in d if t[0] == 'grp' and any(map(isbin, t[1]))]
    if loose:
        out.append(loose)
    return out


def judge(kind, space, d, i, j, ells, shape):
    """None if the provenance fits, 'unknown', or a reason."""
    gs = groups(d)
    bs = [bins_of(g) for g in gs]
    want = i if kind.endswith('1') else j
    if kind[0] in 'cen':
        if not bs:
            return 'is not filled from any bin'
        if set(bs) != {want}:
            return f'comes from bin {show(bs)} instead of bin {want}'
        return None
    if 'mixed' in bs:
        return 'mixes bins'
    if kind == 'raw':
        got = {}
        for g, b in zip(gs, bs):
            for e in ells_of(g):
                got.setdefault(e, set()).add(b)
        if not gs:
            return 'is not filled from any bin'
        if not got:
            return 'unknown'
        for e, w in (('ell1', i), ('ell2', j)):
            if got.get(e) != {w}:
                return (f'has its {e} factor from bin '
                        f'{show(got.get(e, ()))} instead of bin {w}')
        return None
    # shot noise
    one, two = {}, set()
    for g, b in zip(gs, bs):
        es = ells_of(g)
        if len(es) == 2:
            two.add(b)
        else:
            for e in es:
                one.setdefault(e, set()).add(b)
    if space == 'r':
        if one and not two:
            return 'unknown'
        if i == j:
            if two != {i}:
                return (f'has the coincident-pair term from bin '
                        f'{show(two)} instead of bin {i}')
        elif two:
            return f'has the coincident-pair term of bin {show(two)}, but ' \
                   'its bins differ'
        return None
    for e, w in (('ell1', i), ('ell2', j)):
        if e not in one:
            return f'lacks the {e} terms'
        if one[e] != {w}:
            return (f'has its {e} terms from bin {show(one[e])} instead of '
                    f'bin {w}')
    return None


def spectra(d):
    """Multipoles whose two-point statistics enter a value."""
    out = set()
    for g in groups(d):
        if ('pk',) in g:
            e = ells_of(g)
            if len(e) == 1:
                out |= e
    return out


def show(bs):
    return ', '.join(str(b) for b in sorted(bs, key=str)) or 'none'


_PROG = None


def work(job):
    sys.setrecursionlimit(20000)
    name, space, n, shape, idx, ells = job
    f, tu = _PROG.by_qual['trv::' + name][0]
    ai = Prov(_PROG, n, shape, idx, ells)
    args = []
    for p in f.params:
        t = (p.desugared or p.type or '')
        if 'ParameterSet' in t:
            args.append(L(ai.par))
        elif 'Binning' in t:
            args.append(L(ai.bin))
        elif 'ParticleCatalogue' in t:
            args.append(L(ai.new('in:' + (p.name or ''))))
        elif 'LineOfSight' in t:
            args.append(P(ai.new('in:' + (p.name or '')), V(0, EMPTY)))
        elif t.replace('const ', '').strip() == 'bool':
            args.append(V(False, EMPTY))
        else:
            args.append(V(NOC, EMPTY))
    r = ai.invoke(f, tu, args, None, f.node)
    rows = []
    tag = f'{name}({shape}'
    if shape in ('off-diag', 'row'):
        tag += f', idx_bin={idx}'
    tag += f', {n} bins, degrees {ells})'
    for (fn, what), (where, k, top) in ai.oob.items():
        rows.append(('bounds', False, f'{fn}: {what} in form {shape}', where,
                     f'{tag}: element {k} of {what}, which has {top}'))
    rows.append(('bounds', True, tag, f.loc(), f'{ai.accesses} accesses'))
    if not isinstance(r, L) or ai.st is None:
        rows.append(('layout', None, tag, f.loc(), 'no result'))
        return rows
    want = pairs(shape, n, idx)
    for kind, fld in FIELDS[space].items():
        base = r.loc + (fld,)
        cons = f'{name} .{fld} in form {shape}'
        cnt = ai.st.get(base + ('#n',))
        if cnt is None or not isinstance(cnt.c, int):
            rows.append(('layout', None, cons, f.loc(), 'length unknown'))
            continue
        if cnt.c != len(want):
            rows.append(('layout', False, cons, f.loc(),
                         f'{tag}: {cnt.c} entries instead of {len(want)}'))
            continue
        why = None
        terms = [spectra(ai.dom.d(ai.st.get(base + (p,))))
                 for p in range(len(want))]
        rows.append(('terms', (kind, name, space, ells), shape, cons,
                     f.loc(), set().union(*terms) if terms else set()))
        for p, (i, j) in enumerate(want):
            v = ai.st.get(base + (p,))
            w = judge(kind, space, ai.dom.d(v), i, j, ells, shape)
            if w is None and kind == 'sn':
                for t in set().union(*terms) - terms[p]:
                    w = (f'lacks the two-point {t} term that other entries '
                         'have')
            if w is not None:
                why = (w == 'unknown',
                       f'{tag}: entry {p} for bins ({i}, {j}) {w}')
                break
        if why is None:
            rows.append(('layout', True, cons + f' [{tag}]', f.loc(), ''))
        else:
            rows.append(('layout', None if why[0] else False, cons, f.loc(),
                         why[1]))
    return rows


def check(rep, tier):
    global _PROG
    prog = _PROG = cxx.Program()
    rep.rule('layout', 'Each entry of each result vector comes from the pair '
             'of bins that its position stands for.')
    rep.rule('bounds', 'Every access to a data vector, binning or statistic '
             'array with a known length is inside it.')
    jobs = []
    sizes = (3, 4) if tier == 'quick' else (1, 2, 3, 4, 5)
    for name, space in MEAS:
        if 'trv::' + name not in prog.by_qual:
            raise cxx.AnalysisBroken(f'trv::{name} not found')
        for n in sizes:
            for shape, idx in configs(n):
                for ells in ELLS:
                    jobs.append((name, space, n, shape, idx, ells))
    fail = {}
    terms = {}
    ex = ProcessPoolExecutor(8)
    for rows in ex.map(work, jobs, chunksize=4):
        for row in rows:
            if row[0] == 'terms':
                _, key, shape, cons, where, ts = row
                if key[0] == 'sn':
                    terms.setdefault(key, {}).setdefault(shape, []).append(
                        (cons, where, ts))
                continue
            rule, ok, cons, where, detail = row
            if ok:
                rep.ok(rule, cons, where, detail)
            elif ok is None:
                rep.undecided(rule, cons, where, detail)
            else:
                fail.setdefault((rule, cons), []).append((where, detail))
    # every form has the two-point terms the other forms have
    for (_, name, space, ells), by in terms.items():
        for t in ('ell1', 'ell2'):
            has = {sh: any(t in x[2] for x in xs) for sh, xs in by.items()}
            if sum(has.values()) * 2 <= len(has):
                continue
            for sh, ok in has.items():
                cons, where, _ = by[sh][0]
                if not ok:
                    fail.setdefault(('layout', cons), []).append((
                        where, f'{name}, degrees {ells}: form {sh} lacks the '
                        f'two-point {t} term that other forms have'))
    for (rule, cons), xs in sorted(fail.items()):
        where, detail = xs[0]
        rep.bad(rule, cons, where, detail + (
            f' (and {len(xs) - 1} more settings)' if len(xs) > 1 else ''))
    rep.analysed.update(routines=len(MEAS), settings=len(jobs))
    rep.need('layout', 1)
