"""Dimension domain: exponents of length and of the weight scalings."""
from fractions import Fraction

from .absint import NOC, Domain, Interp, P, V

BASE = ('L', 'C', 'Sd', 'Sr')
POLY = 'any'      # zero: fits every dimension
ONE = frozenset()


def dim(**kw):
    return frozenset((k, Fraction(v)) for k, v in kw.items() if v)


LEN = dim(L=1)


def show(d):
    if d is None:
        return 'unknown'
    if d == POLY:
        return 'zero'
    names = {'L': 'length', 'C': 'w_clust', 'Sd': 'w_sys,data',
             'Sr': 'w_sys,rand'}
    t = [f'{names.get(b, b)}^{e}' if e != 1 else names.get(b, b)
         for b, e in sorted(d)]
    return ' '.join(t) or 'dimensionless'


def mul(a, b):
    if a is None or b is None:
        return None
    if a == POLY or b == POLY:
        return POLY
    out = dict(a)
    for k, e in b:
        out[k] = out.get(k, 0) + e
    return frozenset((k, e) for k, e in out.items() if e)


def power(a, e):
    if a is None or a == POLY:
        return a
    if e is NOC or isinstance(e, str):
        return ONE if a == ONE else None
    f = Fraction(e).limit_denominator(1000)
    return frozenset((k, x * f) for k, x in a if x * f)


SAME = {'abs', 'fabs', 'real', 'imag', 'conj', 'floor', 'ceil', 'round',
        'fmod', 'min', 'max', 'move', 'back', 'front', 'next'}
PURE = {'sin', 'cos', 'tan', 'exp', 'acos', 'asin', 'polar'}


INTS = {'int', 'long', 'long long', 'unsigned int', 'unsigned long',
        'size_t', 'unsigned long long', 'bool', 'short'}


class DimDomain(Domain):
    def __init__(self):
        self.conflicts = []     # (kind, node, a, b, stack)
        self.ops = 0
        self.ai = None
        self.inputs = None
        self.sub = {}
        self.joins = []
        self.nfree = 0

    def clash(self, kind, node, a, b):
        self.conflicts.append((kind, node, a, b,
                               self.ai.stack() if self.ai else ''))

    def const(self, v, node):
        if isinstance(v, (int, float)) and v == 0:
            return POLY
        return ONE

    def same(self, kind, a, b, node):
        if a is None or b is None:
            return None
        if a == POLY:
            return b
        if b == POLY:
            return a
        self.ops += 1
        a, b = self.resolve(a), self.resolve(b)
        if a != b:
            q = mul(a, power(b, -1))
            free = [(k, e) for k, e in q if k.startswith('?')]
            if free:
                # a hard-coded constant takes the dimension its use implies
                k, e = free[0]
                rest = frozenset(x for x in q if x[0] != k)
                self.sub[k] = power(rest, Fraction(-1) / e)
                return self.resolve(a)
            self.clash(kind, node, a, b)
            return None
        return a

    def resolve(self, d):
        if d is None or d == POLY:
            return d
        while True:
            k = next((k for k, e in d if k in self.sub), None)
            if k is None:
                return d
            e = dict(d)[k]
            d = mul(frozenset(x for x in d if x[0] != k),
                    power(self.sub[k], e))

    def free(self):
        self.nfree += 1
        return frozenset([(f'?{self.nfree}', Fraction(1))])

    def binop(self, op, a, b, node):
        if op in ('+', '-'):
            return self.same('add', a.d, b.d, node)
        if op == '*':
            return mul(a.d, b.d)
        if op == '/':
            if b.d == POLY:
                return None
            return mul(a.d, power(b.d, -1) if b.d is not None else None)
        if op == '%':
            return a.d
        return None

    def unop(self, op, a, node):
        return a.d

    def compare(self, op, a, b, node):
        if a.c is NOC and b.c is NOC:
            self.same('compare', a.d, b.d, node)

    def join(self, a, b, node=None):
        if a is None or b is None:
            return None
        if a == POLY:
            return b
        if b == POLY:
            return a
        a, b = self.resolve(a), self.resolve(b)
        if a != b:
            if not any(k.startswith('?') for k, e in a | b):
                self.joins.append((node, a, b))
            return None
        return a

    def cast(self, v, typ, node):
        if typ in INTS:
            d = self.resolve(v.d)
            if d is None:
                return ONE
            return self.same('count', d, ONE, node) or ONE
        return v.d

    def loopvar(self, ai, loop, var, init):
        return ONE

    def call(self, name, args, node):
        ds = [a.d if isinstance(a, V) else None for a in args]
        if name == 'sqrt':
            return power(ds[0], Fraction(1, 2))
        if name == 'pow' and len(args) == 2:
            return power(ds[0], args[1].c if isinstance(args[1], V)
                         else NOC)
        if name == 'norm':
            return power(ds[0], 2)
        if name == 'complex':
            return self.same('complex parts', ds[0], ds[1], node)
        if name in ('fmin', 'fmax', 'min', 'max', 'fmod', 'hypot') and \
                len(ds) == 2:
            return self.same(name, ds[0], ds[1], node)
        if name in SAME and ds:
            return ds[0]
        if name in PURE and ds:
            self.ops += 1
            if ds[0] not in (None, POLY, ONE):
                self.clash(name, node, ds[0], ONE)
            return ONE
        if name == 'atan2':
            self.same(name, ds[0], ds[1], node)
            return ONE
        if name and name.startswith('gsl_sf_'):
            for a, d in zip(args, ds):
                if d is not None and isinstance(a, V):
                    self.same(name, d, ONE, node)
            return ONE
        if name in ('size', 'length', 'distance', 'count'):
            return ONE
        return None

    def initial(self, ai, loc, node):
        return V(NOC, ai.input_dim(loc))


class DimInterp(Interp):
    """Input objects get their dimensions from the meaning of their
    fields."""

    def __init__(self, prog):
        super().__init__(prog, DimDomain())
        self.dom.ai = self
        self.kinds = {}     # block -> ('particles', suffix) etc.
        self.consts = {}

        def bessel(ai, n, args, this, decl):
            if args and isinstance(args[0], V):
                ai.dom.same('spherical Bessel argument', args[0].d, ONE, n)
            return V(NOC, ONE)

        def quiet(ai, n, args, this, decl):
            return V(NOC, ONE)
        self.models['trv::maths::SphericalBesselCalculator::eval'] = bessel
        for q in prog.by_qual:
            if q.startswith(('trv::sys::Logger::', 'trv::sys::ProgressBar',
                             'trv::sys::update_', 'trv::sys::show_')):
                self.models[q] = quiet

    def input_dim(self, loc):
        b = loc[0]
        k = self.kinds.get(b)
        if b.startswith('g:'):
            nm = b[2:].split('::')[-1]
            if nm.startswith('eps'):
                return self.consts.setdefault(nm, self.dom.free())
            if nm in ('M_PI', 'eps', 'EPS', 'M_I'):
                return ONE
            return None
        if k is None:
            # memory of the analysed code that nothing has written yet
            return POLY if b in self.blkinfo else None
        return k(loc[1:])

    def conv_assign(self, v, n, a):
        if n.kind == 'VarDecl' and 'const' in (n.type or '') and isinstance(
                v, V) and v.d == ONE and n.kids and any(
                    x in (n.type or '') for x in ('double', 'float')):
            k = n.kids[-1].strip()
            while k.kind == 'ImplicitCastExpr':
                k = k.kids[0]
            if k.kind in ('FloatingLiteral', 'IntegerLiteral'):
                return V(v.c, self.dom.free())
        return v

    def merge_if(self, n, cond, s0, s1, s2):
        """Where an integer count is compared with zero, whatever the
        zero-count arm leaves alone is an empty sum, i.e. zero, and fits
        the other arm's dimension."""
        side = zero_test(cond)
        if side is not None and s1 is not None and s2 is not None:
            full, degen = (s1, s2) if side else (s2, s1)
            for b, m in full.mem.items():
                d = degen.mem.get(b)
                z = s0.mem.get(b)
                if d is None or z is None or d is m:
                    continue
                for k, v in m.items():
                    if k in d and k in z and d[k] is z[k] and \
                            d[k] is not v:
                        degen.blk(b)[k] = v
                        d = degen.mem[b]
        return self.join_state(s1, s2, n)

    # -- inputs -----------------------------------------------------------
    def new_input(self, name, fn):
        loc = self.new('in:' + name)
        self.kinds[loc[0]] = fn
        return loc

    def catalogue(self, name, S):
        """A particle catalogue whose sample weights scale as S (None: unit
        weights)."""
        sw = dim(**{S: 1}) if S else ONE
        cw = dim(C=1) if S else ONE
        w = mul(sw, cw)
        nz = dim(L=-3) if not S else dim(L=-3, Sd=1)
        part = {'pos': LEN, 'nz': nz, 'ws': sw, 'wc': cw, 'w': w}
        pd = self.new_input(name + '.pdata', lambda p: part.get(
            p[1] if len(p) > 1 else None))
        fields = {'ntotal': ONE, 'wtotal': w, 'wstotal': sw,
                  'pos_min': LEN, 'pos_max': LEN, 'pos_span': LEN}
        c = self.new_input(name, lambda p: fields.get(p[0] if p else None))
        self.st.set(c + ('pdata',), P(pd, V(0, POLY)))
        return c

    def params(self, space, **opts):
        fields = {'boxsize': LEN, 'volume': dim(L=3), 'ngrid': ONE,
                  'nmesh': ONE, 'expand': ONE, 'padfactor': ONE,
                  'cutoff_nyq': dim(L=-1) if space == 'fourier' else LEN,
                  'bin_min': dim(L=-1) if space == 'fourier' else LEN,
                  'bin_max': dim(L=-1) if space == 'fourier' else LEN,
                  'num_bins': ONE, 'idx_bin': ONE, 'ell1': ONE, 'ell2': ONE,
                  'ELL': ONE, 'i_wa': ONE, 'j_wa': ONE,
                  'assignment_order': ONE}
        p = self.new_input('params', lambda q: fields.get(
            q[0] if q else None))
        self.st.set(p + ('space',), V(space, ONE))
        for k, v in opts.items():
            self.st.set(p + (k,), V(v, self.dom.const(v, None)))
        return p

    def binning(self, space):
        u = dim(L=-1) if space == 'fourier' else LEN
        fields = {'bin_min': u, 'bin_max': u, 'num_bins': ONE,
                  'bin_edges': u, 'bin_centres': u, 'bin_widths': u,
                  'nbin_pad': ONE, 'dbin_pad_fourier': dim(L=-1),
                  'dbin_pad_config': LEN}
        b = self.new_input('binning', lambda q: fields.get(
            q[0] if q else None) if '#size' not in q else ONE)
        self.st.set(b + ('space',), V(space, ONE))
        return b

    def los(self, name):
        l = self.new_input(name, lambda p: LEN)
        return P(l, V(0, POLY))

    def num(self, d):
        return V(NOC, d)


def zero_test(cond):
    """True if cond holds for non-zero integer counts, False if it holds
    for zero counts, None if it is no such test."""
    c = cond.strip()
    if c.kind != 'BinaryOperator' or c.op not in ('!=', '==', '>'):
        return None
    a, b = c.kids[0].strip(), c.kids[1].strip()
    if c.op != '>' and a.kind == 'IntegerLiteral':
        a, b = b, a
    if b.kind != 'IntegerLiteral' or b.const_value() != 0:
        return None
    if a.kind not in ('ArraySubscriptExpr', 'MemberExpr', 'DeclRefExpr',
                      'CXXOperatorCallExpr'):
        return None
    if (a.desugared or a.type or '').replace('const ', '').rstrip(
            ' &') not in INTS:
        return None
    return c.op != '=='
