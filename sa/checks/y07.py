"""Y07: a binning object always shows the bins the back end will use."""
import ast
import sys
from fractions import Fraction

from .. import cxx, cy2py, pysym
from ..absint import NOC, L, V
from ..pysym import NONE, const, isconst, subterms
from ..sym import Poly, SymDomain, SymInterp, mono

EXPLANATION = (
    'The C++ setters are interpreted in a domain of expressions (sums of '
    'products of powers, so that exponentials of logarithms are exact), for '
    'every scheme and space and a range of bin numbers: edges, centres and '
    'widths must have matching lengths, each centre and width must be the '
    'one of its two edges, and an exception must leave the object as it '
    'was.  The Cython methods are interpreted symbolically: on leaving, '
    'every visible attribute must be the value the back end holds, read '
    'after its last change, or the value it was just given; before a call '
    'that may be rejected nothing visible may have changed.')

NUMBERS = ('bin_min', 'bin_max', 'num_bins')
VECTORS = ('bin_edges', 'bin_centres', 'bin_widths')
ATTRS = ('space', 'scheme') + NUMBERS + VECTORS
CLS = 'trv::Binning'
PYX = 'dataobjs.pyx'


# ------------------------------------------------------------ C++ side

class BinDomain(SymDomain):
    """Polynomials with rational powers; exp and log are inverse."""

    def call(self, name, args, node):
        b = (name or '').split('::')[-1]
        x = self.p(args[0]) if len(args) == 1 else None
        if x is not None and b == 'log' and len(x.t) == 1:
            (m, c), = x.t.items()
            if c > 0:
                r = Poly()
                for a, e in m:
                    r = r + Poly.num(Fraction(e)) * Poly.atom(('ln', a))
                if c != 1:
                    r = r + Poly.atom(('ln', ('num', c)))
                return r
        if x is not None and b == 'exp' and all(
                len(m) == 1 and m[0][1] == 1 and isinstance(
                    m[0][0], tuple) and m[0][0][0] == 'ln' for m in x.t):
            m, c = (), Fraction(1)
            for k, e in x.t.items():
                a = k[0][0][1]
                if isinstance(a, tuple) and a[0] == 'num' and \
                        Fraction(e).denominator == 1:
                    c *= a[1] ** int(e)
                else:
                    m = mono(m, ((a, e),))
            return Poly({m: c})
        if b in ('max_element', 'min_element', 'max', 'min'):
            return None
        return super().call(name, args, node)

    def initial(self, ai, loc, node):
        return V(NOC, Poly.atom(('in',) + tuple(str(x) for x in loc)))


class BinInterp(SymInterp):
    max_unroll = 64

    def __init__(self, prog):
        super().__init__(prog, BinDomain())
        self.throws = []
        self.obj = None
        self.depth0 = 0

    def e_CXXThrowExpr(self, n):
        if self.obj is not None and self.st is not None:
            self.throws.append((n, self.snap()))
        return super().e_CXXThrowExpr(n)

    def snap(self):
        return {rel: (v.c, v.d) for rel, v in self.st.under(self.obj)
                if isinstance(v, V)}

    def obj_method(self, n, name, this, vals):
        if name in ('push_back', 'emplace_back') and vals and isinstance(
                vals[0], V) and not self.loopstack:
            k = self.st.get(this + ('#n',))
            k = k.c if k is not None else 0
            if isinstance(k, int):
                self.write(this + (k,), vals[0], n)
                for x in ('#n', '#size'):
                    self.st.set(this + (x,), V(k + 1, Poly.num(k + 1)))
                return V(NOC, None)
        if name in ('push_back', 'emplace_back'):
            self.st.set(this + ('#n',), V(NOC, None))
        if name in ('resize', 'assign') and vals and isinstance(vals[0], V):
            self.st.set(this + ('#n',), vals[0])
        if name == 'clear':
            self.clear_tree(this)
            for x in ('#n', '#size'):
                self.st.set(this + (x,), V(0, Poly.num(0)))
            return V(NOC, None)
        if name == 'back':
            k = self.st.get(this + ('#n',))
            if k is not None and isinstance(k.c, int) and k.c:
                return self.rvalue(this + (k.c - 1,), n)
        if name == 'empty':
            k = self.st.get(this + ('#n',))
            if k is not None and isinstance(k.c, int):
                return V(k.c == 0, None)
        return super().obj_method(n, name, this, vals)

    def vector(self, loc, name, n):
        for i in range(n):
            self.st.set(loc + (i,), V(NOC, Poly.atom((name, i))))
        for x in ('#n', '#size'):
            self.st.set(loc + (x,), V(n, Poly.num(n)))

    def fill(self, space, scheme, num):
        o = self.obj = self.new('binning')
        self.st.set(o + ('space',), V(space, None))
        self.st.set(o + ('scheme',), V(scheme, None))
        for a in ('bin_min', 'bin_max'):
            self.st.set(o + (a,), V(NOC, Poly.atom(a)))
        self.st.set(o + ('num_bins',), V(num, Poly.num(num)))
        for a in VECTORS:
            self.vector(o + (a,), 'old ' + a, 2 + (a == 'bin_edges'))
        for a, v in (('nbin_pad', 5),):
            self.st.set(o + (a,), V(v, Poly.num(v)))
        for a in ('dbin_pad_fourier', 'dbin_pad_config'):
            self.st.set(o + (a,), V(NOC, Poly.atom(a)))
        return o

    def poly(self, loc):
        v = self.st.get(loc)
        return self.dom.p(v) if isinstance(v, V) else None


def pad_number(prog):
    """The declared initial value of nbin_pad is what the schemes use."""
    from ..absint import field_init
    rec = prog.records.get(CLS)
    for fld in rec[0].fields if rec else ():
        if fld.name == 'nbin_pad':
            k = field_init(fld)
            while k is not None and k.kids:
                k = k.kids[0]
            if k is not None and k.kind == 'IntegerLiteral':
                return int(k.d.get('value', 5))
    return 5


def setters(prog):
    """[(number of parameters, function, unit)] of the bin setters."""
    out = []
    for f, tu in prog.by_qual.get(CLS + '::set_bins', ()):
        if f.body is not None:
            out.append((len(f.params), f, tu))
    return out


SCHEMES = ('lin', 'log', 'linpad', 'logpad', 'custom')


def scenarios(prog, tier):
    sizes = (1, 2, 5, 7) if tier == 'quick' else tuple(range(1, 13))
    for n, f, tu in setters(prog):
        t = [(p.desugared or p.type or '') for p in f.params]
        kind = 'custom' if len(t) == 1 and 'vector' in t[0] else {
            0: 'own', 3: 'range', 2: 'grid'}.get(n)
        if kind is None:
            continue
        for space in ('fourier', 'config'):
            for scheme in SCHEMES:
                for num in sizes:
                    yield kind, f, tu, space, scheme, num


def cpp(rep, prog, tier):
    """Judge every setter; returns its effect on each attribute."""
    effects = {}
    count = 0
    pad = pad_number(prog)
    for kind, f, tu, space, scheme, num in scenarios(prog, tier):
        count += 1
        ai = BinInterp(prog)
        o = ai.fill(space, scheme, num if kind == 'own' else 99)
        ai.st.set(o + ('nbin_pad',), V(pad, Poly.num(pad)))
        old = ai.snap()
        if kind == 'custom':
            e = ai.new('edges')
            ai.vector(e, 'edge', num + 1)
            args = [L(e)]
        elif kind == 'range':
            args = [V(NOC, Poly.atom('min')), V(NOC, Poly.atom('max')),
                    V(num, Poly.num(num))]
        elif kind == 'grid':
            args = [V(NOC, Poly.atom('boxsize')),
                    V(2 * num + 1, Poly.num(2 * num + 1))]
        else:
            args = []
        cons = f'Binning::set_bins/{kind}'
        tag = f'{space}, {scheme}, {num} bins'
        try:
            ai.invoke(f, tu, args, o, f.node)
        except RecursionError:
            rep.undecided('together', cons, f.loc(), tag)
            continue
        for n, s in ai.throws:
            diff = sorted({k[0] for k in s.keys() | old.keys()
                           if s.get(k) != old.get(k)})
            rep.check(not diff, 'rejected', cons, n.loc(),
                      f'{tag}: rejected bins leave {", ".join(map(str, diff))}'
                      ' changed')
        if ai.st is None:
            rep.ok('together', cons, f.loc(), f'{tag}: rejected')
            continue
        together(rep, ai, o, kind, cons, f, tag, space, scheme)
        eff = effects.setdefault(kind, {})
        for a in ATTRS:
            v = ai.st.get(o + (a,))
            if a in VECTORS:
                eff.setdefault(a, set()).add('changed')
                continue
            d = ai.dom.p(v) if isinstance(v, V) else None
            w = old.get((a,))
            same = isinstance(v, V) and w == (v.c, v.d)
            got = 'same' if same else 'changed'
            if kind == 'range' and not same:
                for i, x in enumerate((Poly.atom('min'), Poly.atom('max'),
                                       Poly.num(num))):
                    if d == x:
                        got = i
            eff.setdefault(a, set()).add(got)
    rep.analysed['setter_scenarios'] = count
    return effects


def together(rep, ai, o, kind, cons, f, tag, space, scheme):
    num = ai.st.get(o + ('num_bins',))
    num = num.c if isinstance(num, V) and isinstance(num.c, int) else None
    n = {}
    for a in VECTORS:
        v = ai.st.get(o + (a, '#n'))
        n[a] = v.c if isinstance(v, V) and isinstance(v.c, int) else None
    if num is None or None in n.values():
        rep.undecided('together', cons, f.loc(), f'{tag}: length unknown')
        return
    want = {'bin_edges': num + 1, 'bin_centres': num, 'bin_widths': num}
    bad = [f'{n[a]} {a}' for a in VECTORS if n[a] != want[a]]
    rep.check(not bad, 'together', f'{cons}/lengths', f.loc(),
              f'{tag}: {", ".join(bad)} for num_bins = {num}')
    if bad:
        return
    lo, hi = ai.poly(o + ('bin_min',)), ai.poly(o + ('bin_max',))
    edges = [ai.poly(o + ('bin_edges', i)) for i in range(num + 1)]
    half = Poly.num(Fraction(1, 2))
    for i in range(num):
        c = ai.poly(o + ('bin_centres', i))
        w = ai.poly(o + ('bin_widths', i))
        a, b = edges[i], edges[i + 1]
        if None in (a, b, c, w):
            rep.undecided('together', cons, f.loc(), f'{tag}: bin {i}')
            continue
        rep.check(c == (a + b) * half, 'together', f'{cons}/centres',
                  f.loc(), f'{tag}: centre {i} is {c} between edges {a} '
                  f'and {b}')
        rep.check(w == b - a, 'together', f'{cons}/widths', f.loc(),
                  f'{tag}: width {i} is {w} between edges {a} and {b}')
    if edges[num] is not None and hi is not None:
        rep.check(edges[num] == hi, 'together', f'{cons}/last', f.loc(),
                  f'{tag}: last edge {edges[num]}, range ends at {hi}')
    now = ai.st.get(o + ('scheme',))
    now = now.c if isinstance(now, V) else None
    if edges[0] is not None and lo is not None and now in (
            'lin', 'log', 'custom'):
        rep.check(edges[0] == lo, 'together', f'{cons}/first', f.loc(),
                  f'{tag}: first edge {edges[0]}, range starts at {lo}')
    exp = {'custom': 'custom', 'grid': 'lin'}.get(kind, scheme)
    if isinstance(now, str):
        rep.check(now == exp, 'together', f'{cons}/scheme', f.loc(),
                  f'{tag}: scheme becomes {now}')


def constructors(rep, prog):
    """Fields after construction; returns {attr: initial number or None}."""
    init = {}
    for f, tu in prog.by_qual.get(CLS + '::Binning', ()):
        if f.body is None:
            continue
        ts = [(p.desugared or p.type or '') for p in f.params]
        ai = BinInterp(prog)
        o = ai.new('binning')
        if len(ts) == 1 and 'ParameterSet' in ts[0]:
            par = ai.new('params')
            for k in ('space', 'binning', 'bin_min', 'bin_max', 'num_bins'):
                ai.st.set(par + (k,), V(NOC, Poly.atom(('param', k))))
            ai.invoke(f, tu, [L(par)], o, f.node)
            if ai.st is None:
                rep.undecided('parameters', 'Binning(params)', f.loc())
                continue
            for a, k in (('space', 'space'), ('scheme', 'binning'),
                         ('bin_min', 'bin_min'), ('bin_max', 'bin_max'),
                         ('num_bins', 'num_bins')):
                d = ai.poly(o + (a,))
                if d is None:
                    rep.undecided('parameters', f'Binning(params).{a}',
                                  f.loc())
                else:
                    rep.check(d == Poly.atom(('param', k)), 'parameters',
                              f'Binning(params).{a}', f.loc(),
                              f'{a} is {d}, not the parameter {k}')
        elif len(ts) == 2:
            args = [V(NOC, Poly.atom(('arg', i))) for i in range(2)]
            ai.invoke(f, tu, args, o, f.node)
            if ai.st is None:
                continue
            for i, a in enumerate(('space', 'scheme')):
                d = ai.poly(o + (a,))
                if d is not None:
                    rep.check(d == Poly.atom(('arg', i)), 'parameters',
                              f'Binning(space, scheme).{a}', f.loc(),
                              f'{a} is {d}')
            for a in NUMBERS:
                v = ai.st.get(o + (a,))
                d = ai.dom.p(v) if isinstance(v, V) else None
                c = d.const() if d is not None else None
                init[a] = c
                rep.check(v is not None, 'construction',
                          f'Binning(space, scheme).{a}', f.loc(),
                          f'{a} has no value until bins are set, while the '
                          'visible attribute shows 0')
    return init


# ------------------------------------------------------------ Cython side

def strip(t):
    """Drop encodings and casts."""
    while True:
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in (
                'encode', 'decode', 'tolist', 'copy'):
            t = t[1][1]
        elif t[0] == 'call' and t[1] == ('name', '__cast__') and \
                len(t[2]) == 2:
            t = t[2][1]
        elif t[0] == 'call' and len(t[2]) == 1 and t[1][0] == 'name' and \
                t[1][-1] in ('list', 'str', 'float', 'int', 'bytes',
                             'array', 'asarray'):
            t = t[2][0]
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in (
                'array', 'asarray', 'ascontiguousarray') and t[2]:
            t = t[2][0]
        else:
            return t


class BinPy(pysym.PySym):
    def __init__(self, effects, init):
        super().__init__()
        self.effects = effects
        self.init = init
        self.ver = 0
        self.lost = []
        self.before = []        # visible attributes changed before a call
        self.made = []
        self.nothis = None

    def backend(self, b):
        return b == ('attr', self.me, 'thisptr') or b == ('backend',) or (
            b[0] == 'call' and 'CppBinning' in repr(b[1]))

    @property
    def me(self):
        return ('self', PYX, 'Binning')

    def deref(self, b):
        if b[0] == 'call' and b[1][-1] in ('deref', 'dereference') and b[2]:
            b = b[2][0]
        if b[0] == 'item' and b[2] == const(0):
            b = b[1]
        return b

    def getattr(self, b, a):
        if self.backend(self.deref(b)) and a in ATTRS:
            t = ('attr', ('backend',), a)
            if t in self.st.over:
                return self.st.over[t]
            return ('back', a, self.st.extra.get(('ver', a), 0))
        return super().getattr(b, a)

    def assign(self, t, v, node):
        if isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            if self.backend(self.deref(b)) and t.attr in ATTRS:
                self.st.over[('attr', ('backend',), t.attr)] = v
                return
            if b == self.me and t.attr == 'thisptr':
                self.made.append((v, node))
                if v[0] == 'call':
                    for a, x in zip(('space', 'scheme'), v[2]):
                        self.st.over[('attr', ('backend',), a)] = x
                self.st.over[('attr', self.me, 'thisptr')] = ('backend',)
                return
        super().assign(t, v, node)

    def visible(self, a):
        return self.st.over.get(('attr', self.me, a))

    def held(self, a):
        t = ('attr', ('backend',), a)
        if t in self.st.over:
            return self.st.over[t]
        return ('back', a, self.st.extra.get(('ver', a), 0))

    def agree(self, a):
        """None: agrees; else what is wrong ('?...' when not known)."""
        v, w = self.visible(a), self.held(a)
        if v is None:
            if w == ('back', a, 0):
                return None
            return f'{a} is not refreshed'
        res = []
        for x in pysym.alts(v):
            for y in pysym.alts(w):
                res.append(self.same(a, strip(x), strip(y)))
        if None in res and len(res) == 1:
            return None
        bad = [r for r in res if r is not None]
        return bad[0] if bad else None

    def same(self, a, x, y):
        if x == y:
            return None
        if isconst(x) and isconst(y) and isinstance(
                x[1], (str, bytes)) and isinstance(y[1], (str, bytes)):
            x, y = [v[1].decode() if isinstance(v[1], bytes) else v[1]
                    for v in (x, y)]
            return None if x == y else f'{a} shows {x}, the back end holds {y}'
        if x[0] == 'back':
            if x[1] != a:
                return f'{a} shows the back end\'s {x[1]}'
            return f'{a} is read before the back end is set'
        if pysym.UNK in subterms(x) or pysym.UNK in subterms(y) or \
                'unbound' in (x[0], y[0]):
            return f'?{a}'
        return f'{a} shows {pysym.show(x)}, the back end holds ' \
               f'{pysym.show(y) if y[0] != "back" else "its own value"}'

    def on_call(self, f, args, kw, node):
        if f[0] == 'attr' and f[2] == 'set_bins' and self.backend(
                self.deref(f[1])):
            self.call_setter(args, kw, node)
            return NONE
        if f[0] == 'attr' and self.backend(self.deref(f[1])):
            self.lost.append(f'call of {f[2]}')
            return pysym.UNK
        return None

    def call_setter(self, args, kw, node):
        kind = {0: 'own', 1: 'custom', 2: 'grid', 3: 'range'}.get(len(args))
        if kind is None or kw or kind not in self.effects:
            self.lost.append('call of set_bins')
            return
        ch = [a for a in ATTRS if self.agree(a) is not None and
              not self.agree(a).startswith('?')]
        self.before.append((ch, node, [self.agree(a) for a in ch]))
        for a in ATTRS:
            e = self.effects[kind].get(a, {'changed'})
            t = ('attr', ('backend',), a)
            if e == {'same'}:
                continue
            if len(e) == 1 and isinstance(next(iter(e)), int):
                self.st.over[t] = args[next(iter(e))]
                continue
            self.st.over.pop(t, None)
            self.ver += 1
            self.st.extra[('ver', a)] = self.ver


def changes_bins(mods, fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and n.attr == 'thisptr':
            return True
        if isinstance(n, ast.Attribute) and isinstance(
                n.ctx, ast.Store) and n.attr in ATTRS:
            return True
        if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr.startswith('set_'):
            return True
    return False


def python(rep, effects, init):
    mods = pysym.modules()
    m = mods[PYX]
    names = sorted(q for q in m.funcs if q.startswith('Binning.'))
    done = 0
    for q in names:
        base = q.split('.')[1]
        fn = m.funcs[q]
        deco = {getattr(d, 'id', getattr(d, 'attr', ''))
                for d in fn.decorator_list}
        where = f'{PYX}:{fn.lineno}'
        if base in ('__cinit__', '__init__'):
            for k in range(8):
                run_method(rep, effects, init, q, where, {
                    'bin_min': const(0.25) if k & 1 else NONE,
                    'bin_max': const(0.75) if k & 2 else NONE,
                    'num_bins': const(4) if k & 4 else NONE})
            done += 1
            continue
        if base.startswith('_') or deco & {'classmethod', 'staticmethod',
                                           'property', 'setter'}:
            if 'classmethod' in deco:
                factory(rep, q, where)
            continue
        if not changes_bins(mods, fn):
            continue
        run_method(rep, effects, init, q, where, {})
        done += 1
    rep.analysed['cython_methods'] = done


def run_method(rep, effects, init, q, where, args):
    p = BinPy(effects, init)
    new = q.endswith(('__cinit__', '__init__'))
    try:
        p.run(PYX, q, dict(args))
    except (RecursionError, KeyError, IndexError, TypeError,
            AttributeError) as e:
        rep.undecided('visible', q, where, repr(e)[:80])
        return
    given = ', '.join(k for k, v in args.items() if v != NONE)
    tag = f' given {given}' if given else ''
    if p.st is None:
        rep.undecided('visible', q, where, 'no normal path')
        return
    if p.lost:
        rep.undecided('visible', q, where, p.lost[0])
        return
    for a in ATTRS:
        why = p.agree(a)
        if why and why.startswith('?'):
            rep.undecided('visible', f'{q}.{a}', where, why[1:])
        else:
            rep.check(why is None, 'visible', f'{q}.{a}', where,
                      f'{q}{tag}: {why}')
    if not new:
        for ch, node, why in p.before:
            rep.check(not ch, 'rejected', q, f'{PYX}:{node.lineno}',
                      f'{q}: {why[0] if why else ""} when the call is '
                      'rejected')


class Factory(pysym.PySym):
    def __init__(self):
        super().__init__()
        self.made = []

    def on_call(self, f, args, kw, node):
        if f[0] == 'class' and f[-1] == 'Binning':
            self.made.append((args, kw))
            return ('made',)
        return None


ORDER = ('space', 'scheme', 'bin_min', 'bin_max', 'num_bins')


def path(t):
    out = []
    while t[0] == 'item' and isconst(t[2]):
        out.append(t[2][1])
        t = t[1]
    return tuple(reversed(out)), t


def factory(rep, q, where):
    p = Factory()
    try:
        p.run(PYX, q)
    except (RecursionError, KeyError, IndexError, TypeError,
            AttributeError) as e:
        rep.undecided('parameters', q, where, repr(e)[:80])
        return
    want = {'space': {('space',)}, 'scheme': {('binning',)},
            'bin_min': {('range', 0)},
            'bin_max': {('range', -1), ('range', 1)},
            'num_bins': {('num_bins',)}}
    for args, kw in p.made:
        got = dict(zip(ORDER, args))
        got.update(kw)
        for a in ORDER:
            if a not in got:
                rep.bad('parameters', f'{q}.{a}', where,
                        f'{q}: {a} is not passed on')
                continue
            k, base = path(got[a])
            if not k:
                rep.undecided('parameters', f'{q}.{a}', where)
            else:
                rep.check(k in want[a], 'parameters', f'{q}.{a}', where,
                          f'{q}: {a} is taken from the parameter '
                          f'{"/".join(map(str, k))}')
    if not p.made:
        rep.undecided('parameters', q, where)


def check(rep, tier):
    sys.setrecursionlimit(20000)
    prog = cxx.Program()
    rep.rule('together', 'After every setter edges, centres and widths are '
             'those of the same range and number.')
    rep.rule('rejected', 'A rejected setting leaves the bins, held and '
             'visible, as they were.')
    rep.rule('construction', 'A binning with no bins set holds the values '
             'it shows.')
    rep.rule('parameters', 'Parameters reach the attribute they describe.')
    rep.rule('visible', 'Every visible attribute equals the one the back '
             'end holds after construction and after each setter.')
    effects = cpp(rep, prog, tier)
    init = constructors(rep, prog)
    python(rep, effects, init)
    rep.need('together', 20)
    rep.need('visible', 8)
