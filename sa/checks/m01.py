"""M01: particles go to the right periodic cells with the right fractions."""
import os
import sys
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction

from .. import cxx
from ..absint import NOC, P, V
from ..mesh import HALF, MeshInterp, Region
from ..sym import Poly

EXPLANATION = (
    'Abstract interpretation of MeshField::assign_weighted_field_to_mesh '
    'for each scheme, with interlacing on, over a partition of all particle '
    'positions into regions (cell 0, 1, interior, N-3 to N-1 or the upper '
    'face; offset 0, (0, 1/2), 1/2, (1/2, 1); plus every cell of meshes '
    'with up to five cells per axis).  Within a region each comparison has one '
    'answer for all mesh numbers and box lengths, and the content of the '
    'mesh is an exact polynomial that must equal the B-spline window of '
    'the scheme, wrapped periodically.')

ENTRY = 'trv::MeshField::assign_weighted_field_to_mesh'
ORDER = {'ngp': 1, 'cic': 2, 'tsc': 3, 'pcs': 4}
H = Fraction(1, 2)


def window(order, d):
    """Pieces of the centred B-spline of the order at distance d >= 0
    (Poly): list of (upper limit, Poly)."""
    one = Poly.num(1)

    def c(x):
        return Poly.num(Fraction(x))
    if order == 1:
        return [(H, one)]
    if order == 2:
        return [(Fraction(1), one - d)]
    if order == 3:
        e = c(Fraction(3, 2)) - d
        return [(H, c(Fraction(3, 4)) - d * d),
                (Fraction(3, 2), c(H) * e * e)]
    e = c(2) - d
    return [(Fraction(1), c(Fraction(1, 6)) * (
        c(4) - c(6) * d * d + c(3) * d * d * d)),
        (Fraction(2), c(Fraction(1, 6)) * e * e * e)]


class Case:
    """A region: cell name and offset class, the same on every axis with
    distinct symbols."""

    def __init__(self, cell, off, n=None):
        self.cell, self.off, self.n = cell, off, n
        R = self.region = Region()
        self.N, self.i, self.s, self.L = [], [], [], []
        for a in range(3):
            L = ('L', a)
            R.pos.add(L)
            self.L.append(Poly.atom(L))
            if n is not None:
                self.N.append(Poly.num(n))
                self.i.append(Poly.num(cell))
            else:
                N = ('N', a)
                R.ints.add(N)
                R.pos.add(N)
                p, q = ('p', a), ('q', a)
                R.nonneg |= {p, q}
                self.N.append(Poly.atom(N))
                NN = Poly.num(6) + Poly.atom(q)
                if cell == 'm':
                    m = ('m', a)
                    R.ints.add(m)
                    R.sub[m] = Poly.num(2) + Poly.atom(p)
                    NN = NN + Poly.atom(p)
                    self.i.append(Poly.atom(m))
                else:
                    k = {'0': Poly.num(0), '1': Poly.num(1),
                         'N-3': self.N[a] - Poly.num(3),
                         'N-2': self.N[a] - Poly.num(2),
                         'N-1': self.N[a] - Poly.num(1),
                         'N': self.N[a]}[cell]
                    self.i.append(k)
                R.sub[N] = NN
            if off == '0':
                self.s.append(Poly())
            elif off == '1/2':
                self.s.append(Poly.num(H))
            else:
                s = ('s', a)
                R.frac[s] = (Fraction(0), H) if off == '(0,1/2)' else (
                    H, Fraction(1))
                self.s.append(Poly.atom(s))

    def __str__(self):
        n = f'N = {self.n}, ' if self.n is not None else ''
        return f'{n}cell {self.cell}, offset {self.off}'


def cases():
    out = []
    for cell in ('0', '1', 'm', 'N-3', 'N-2', 'N-1'):
        for off in ('0', '(0,1/2)', '1/2', '(1/2,1)'):
            out.append((cell, off, None))
    out.append(('N', '0', None))
    for n in (1, 2, 3, 4, 5):
        for cell in range(n):
            for off in ('0', '(0,1/2)', '1/2', '(1/2,1)'):
                out.append((cell, off, n))
        out.append((n, '0', n))
    return out


class Run(MeshInterp):
    def __init__(self, prog, case, scheme):
        self.case, self.scheme = case, scheme
        super().__init__(prog, case.region)
        self.lost_stores = False

    def merge_if(self, n, cond, s0, s1, s2):
        if s1 is not None and s2 is not None:
            for b in set(s1.mem) | set(s2.mem):
                if b.startswith('heap:') and \
                        s1.mem.get(b) is not s2.mem.get(b):
                    self.lost_stores = True
        return super().merge_if(n, cond, s0, s1, s2)

    def member(self, loc):
        c = self.case
        last = loc[-1]
        if len(loc) > 1 and last in (0, 1, 2):
            m = loc[-2]
            if m == 'pos':
                return c.L[last] * (c.i[last] + c.s[last]) * (
                    c.N[last].inverse())
            if m == 'ngrid':
                return c.N[last]
            if m == 'boxsize':
                return c.L[last]
            if m == 'dr':
                return c.L[last] * c.N[last].inverse()
        nm = c.N[0] * c.N[1] * c.N[2]
        vol = c.L[0] * c.L[1] * c.L[2]
        if last == 'nmesh':
            return nm
        if last in ('vol', 'volume'):
            return vol
        if last == 'vol_cell':
            return vol * nm.inverse()
        if last == 'ntotal':
            return Poly.num(1)
        if last == 'assignment':
            return self.scheme
        if last == 'interlace':
            return 'true'
        if str(last).endswith('currTask') or loc[0].endswith('currTask'):
            return Poly.num(0)
        return None


def expected(case, order, shift):
    """{flattened cell: product of windows}, allowing either side on
    window ties (list of alternatives per axis)."""
    R = case.region
    axes = []
    for a in range(3):
        u = case.i[a] + case.s[a] + (Poly.num(H) if shift else Poly())
        N = case.N[a]
        if R.compare('>=', u, N):
            u = u - N
        base = R.floor(u)
        if base is None:
            return None
        cells = []
        for k in range(-2, 4):
            j = base + Poly.num(k)
            d = u - j
            if R.sign(d) in ('-', '<='):
                d = -d
            w = None
            for lim, p in window(order, d):
                sg = R.sign(Poly.num(lim) - d)
                if sg == '+':
                    w = p
                    break
                if sg == '0':
                    w = 'tie' if order == 1 else p
                    break
                if sg not in ('-', '<='):
                    return None
            if w is None or w != 'tie' and not w.t:
                continue
            while R.compare('<', j, Poly()):
                j = j + N
            while R.compare('>=', j, N):
                j = j - N
            cells.append((j, w))
        if any(w == 'tie' for _, w in cells):
            alts = [[(j, Poly.num(1))] for j, w in cells]
        else:
            alts = [cells]
        axes.append(alts)
    outs = []
    for x in axes[0]:
        for y in axes[1]:
            for z in axes[2]:
                m = {}
                for i, wi in x:
                    for j, wj in y:
                        for k, wk in z:
                            g = (i * case.N[1] + j) * case.N[2] + k
                            w = wi * wj * wk
                            m[g] = m.get(g, Poly()) + w
                outs.append({g: w for g, w in m.items() if w.t})
    return outs


def key_poly(k):
    if isinstance(k, int):
        return Poly.num(k)
    if isinstance(k, tuple) and k[0] == 'sym':
        return k[1]
    return None


def run_case(prog, case, scheme):
    """[(rule, status, construct, detail)]"""
    ai = Run(prog, case, scheme)
    this = ai.new('mesh')
    part = ai.new('particles')
    w = ai.new('weights')
    try:
        ai.run(ENTRY, [part_arg(part), P(w, V(0, Poly()))], this)
    except RecursionError:
        return [('window', None, 'mesh', 'recursion')]
    if ai.st is None:
        return [('window', None, 'mesh', 'no normal end')]
    out = []
    order = ORDER[scheme]
    c = case
    inv = (c.L[0] * c.L[1] * c.L[2]).inverse() * c.N[0] * c.N[1] * c.N[2]
    for name, shift in (('field', False), ('field_s', True)):
        ptr = ai.read(this + (name,), None)
        loc = ptr.loc if isinstance(ptr, P) else ai_heap(this, name)
        got = {}
        bad = None
        for rel, v in ai.st.under(loc):
            if len(rel) != 2 or not isinstance(rel[1], int):
                continue
            k, comp = rel
            if k == '*':
                x = ai.dom.p(v)
                if x is None or x.t:
                    bad = f'background value {x!r} of component {comp}'
                continue
            g = key_poly(k)
            x = ai.dom.p(v)
            if g is None or x is None:
                bad = 'unknown'
                break
            got.setdefault(g, {})[comp] = x
        rel = {r for r, _ in ai.st.under(loc)}
        for q in (0, 1):
            # a small concrete mesh may have been reset cell by cell
            if c.n is not None and all((g, q) in rel
                                       for g in range(c.n ** 3)):
                rel.add(('*', q))
        if bad is None and not rel & {('*', 0), ('*', 1)}:
            bad = 'unknown'
        if not got and bad != 'unknown' and not ai.lost_stores:
            out.append(('window', False, name, 'the particle is lost'))
            continue
        if not got or bad == 'unknown':
            out.append(('window', None, name, 'not understood'))
            continue
        missing = [q for q in (0, 1) if ('*', q) not in rel]
        if missing:
            out.append(('reset', False, name,
                        f'component {missing} is not reset to zero'))
        elif bad:
            out.append(('reset', False, name, bad))
        else:
            out.append(('reset', True, name, ''))
        nm = c.N[0] * c.N[1] * c.N[2]
        R = c.region
        inside = True
        for g in got:
            if R.sign(g) not in ('+', '0', '>=') or \
                    R.sign(nm - g) != '+':
                inside = False
                out.append(('inside', False, name, f'cell {g!r}'))
                break
        if inside:
            out.append(('inside', True, name, ''))
        exp = expected(case, order, shift)
        if exp is None:
            out.append(('window', None, name, 'no expectation'))
            continue
        why = None
        for e in exp:
            why = compare(got, e, inv, w)
            if why is None:
                break
        if why == 'unknown':
            out.append(('window', None, name, 'opaque terms'))
        else:
            out.append(('window', why is None, name, why or ''))
    return out


def ai_heap(this, name):
    return ('heap:' + '.'.join(map(str, this + (name,))),)


def part_arg(loc):
    from ..absint import L
    return L(loc)


OPAQUE = {'idiv', 'mod', 'int', 'call', 'sel', 'bit', 'fresh', 'div', 'inv'}


def opaque(p):
    return any(isinstance(a, tuple) and a and a[0] in OPAQUE
               for a in p.atoms())


def compare(got, exp, inv, w):
    cells = set(got) | set(exp)
    why = None
    for g in sorted(cells, key=repr):
        for comp in (0, 1):
            wt = Poly.atom(('in',) + w + (0, comp))
            e = exp.get(g, Poly()) * inv * wt
            x = got.get(g, {}).get(comp, Poly())
            if x == e:
                continue
            if opaque(x) or opaque(g):
                return 'unknown'
            if g not in exp:
                why = why or f'a share goes to cell {g!r}, which the ' \
                    'window does not cover'
            elif not x.t:
                why = why or f'cell {g!r} gets no share'
            else:
                why = why or f'cell {g!r} gets a share other than the ' \
                    'window value'
    return why


_PROG = None


def work(job):
    sys.setrecursionlimit(20000)
    cell, off, n, scheme = job
    case = Case(cell, off, n)
    return job, str(case), run_case(_PROG, case, scheme)


def check(rep, tier):
    global _PROG
    prog = _PROG = cxx.Program(['field', 'particles', 'parameters',
                                'monitor'])
    rep.rule('window', 'In every region of positions the mesh holds weight '
             'x window / cell volume in exactly the cells the scheme '
             'covers.')
    rep.rule('inside', 'Every cell written lies inside the mesh.')
    rep.rule('reset', 'Both components of the mesh start from zero.')
    if ENTRY not in prog.by_qual:
        raise cxx.AnalysisBroken(f'{ENTRY} not found')
    where = prog.by_qual[ENTRY][0][0].loc()
    jobs = [c + (s,) for s in ORDER for c in cases()]
    if os.environ.get('M01_SERIAL'):
        res = map(work, jobs)
    else:
        ex = ProcessPoolExecutor(8)
        res = ex.map(work, jobs, chunksize=4)
    fail = {}
    n = 0
    for (cell, off, nn, scheme), what, rows in res:
        f = prog.by_qual.get(
            f'trv::MeshField::assign_weighted_field_to_mesh_{scheme}')
        at = f[0][0].loc() if f else where
        for rule, ok, mesh, detail in rows:
            n += 1
            k = f'{scheme} on {mesh}'
            if ok:
                rep.ok(rule, f'{k}: {what}', at)
            elif ok is None:
                rep.undecided(rule, f'{k}: {what}', at, detail)
            else:
                fail.setdefault((rule, k), []).append((what, detail, at))
    for (rule, k), xs in sorted(fail.items()):
        what, detail, at = xs[0]
        rep.bad(rule, k, at, f'{what}: {detail}' + (
            f' (and {len(xs) - 1} more regions)' if len(xs) > 1 else ''))
    rep.analysed.update(regions=len(cases()), schemes=len(ORDER),
                        obligations=n)
    rep.need('window', 1)
