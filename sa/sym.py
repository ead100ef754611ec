"""Symbolic polynomial domain: every scalar is a polynomial with rational
coefficients over atoms (input members, loop variables, opaque terms)."""
from fractions import Fraction

from .absint import NOC, Domain, Interp, P, V, clean


class Poly:
    """Immutable polynomial; monomials may have negative exponents."""
    __slots__ = ('t', '_h', '_n')

    def __init__(self, terms=()):
        self.t = dict(terms)
        self._h = self._n = None

    def size(self):
        """Number of atoms, nested ones included."""
        if self._n is None:
            self._n = sum(1 + sum(tsize(a) for a, _ in m) for m in self.t)
        return self._n

    @staticmethod
    def num(c):
        return Poly({(): Fraction(c)} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            c = t.get(m, 0) + c
            if c:
                t[m] = c
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for m, c in self.t.items():
            for k, e in o.t.items():
                x = mono(m, k)
                s = t.get(x, 0) + c * e
                if s:
                    t[x] = s
                else:
                    t.pop(x, None)
        return Poly(t)

    def const(self):
        """The constant value, or None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def inverse(self):
        """1/self if self is a monomial, else None."""
        if len(self.t) != 1:
            return None
        (m, c), = self.t.items()
        return Poly({tuple((a, -e) for a, e in m): 1 / c})

    def atoms(self):
        """Every atom, including those nested in opaque terms."""
        out = set()
        for m in self.t:
            for a, _ in m:
                nested(a, out)
        return out

    def only_atom(self):
        """The atom if self is exactly one atom."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def subst(self, fn):
        """Replace atoms by polynomials: fn(atom) -> Poly or None."""
        out = Poly()
        for m, c in self.t.items():
            p = Poly.num(c)
            for a, e in m:
                r = fn(a)
                if r is None:
                    r = rebuild(a, fn)
                if e < 0:
                    i = r.inverse()
                    r = i if i is not None else Poly.atom(('inv', r))
                    e = -e
                for _ in range(e):
                    p = p * r
            out = out + p
        return out

    def __repr__(self):
        if not self.t:
            return '0'
        s = []
        for m, c in sorted(self.t.items(), key=lambda x: repr(x[0])):
            f = [show_atom(a) + (f'^{e}' if e != 1 else '') for a, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            s.append('*'.join(f))
        return ' + '.join(s)


def rebuild(a, fn):
    if isinstance(a, tuple) and a and a[0] in OPS:
        return Poly.atom(tuple(x.subst(fn) if isinstance(x, Poly) else x
                               for x in a))
    return Poly.atom(a)


OPS = {'idiv', 'mod', 'int', 'call', 'inv', 'div', 'sel', 'cmp', 'bit'}


def tsize(a):
    if isinstance(a, Poly):
        return a.size()
    if isinstance(a, tuple):
        return 1 + sum(tsize(x) for x in a if isinstance(x, (tuple, Poly)))
    return 1


def nested(a, out):
    out.add(a)
    if isinstance(a, tuple):
        for x in a:
            if isinstance(x, Poly):
                out |= x.atoms()


def show_atom(a):
    if isinstance(a, tuple):
        if a[0] == 'in':
            return '.'.join(str(x) for x in a[1:])
        if a[0] == 'lv':
            return str(a[2])
        if a[0] == 'call':
            return f'{a[1]}({", ".join(map(repr, a[2:]))})'
        return f'{a[0]}({", ".join(map(repr, a[1:]))})'
    return str(a)


def mono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        e = d.get(k, 0) + e
        if e:
            d[k] = e
        else:
            del d[k]
    if len(d) == 1:
        return tuple(d.items())
    return tuple(sorted(d.items(), key=lambda x: _ORDER.setdefault(
        x[0], len(_ORDER))))


_ORDER = {}   # atoms in order of first use: any fixed order will do


INTS = {'int', 'long', 'long long', 'unsigned int', 'unsigned long',
        'size_t', 'unsigned long long', 'short', 'char'}
MIRROR = {'abs', 'fabs'}


class SymDomain(Domain):
    def __init__(self):
        self.ai = None
        self.nfresh = 0

    def const(self, v, node):
        if isinstance(v, bool):
            return Poly.num(int(v))
        if isinstance(v, int):
            return Poly.num(v)
        if isinstance(v, float) and v == v and abs(v) < 1e300:
            return Poly.num(Fraction(repr(v)))
        return None

    def p(self, v):
        """Polynomial of a value, or None."""
        if isinstance(v, V):
            if v.d is not None:
                return v.d
            if v.c is not NOC:
                return self.const(v.c, None)
        return None

    def fresh(self, tag='?'):
        self.nfresh += 1
        return Poly.atom(('fresh', tag, self.nfresh))

    def isint(self, node):
        t = clean(node.desugared or node.type or '') if node is not None \
            else ''
        return t in INTS

    def binop(self, op, a, b, node):
        x, y = self.p(a), self.p(b)
        if x is None or y is None:
            return None
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        if op == '/':
            c = y.const()
            if self.isint(node):
                if c == 1:
                    return x
                if c == 0:
                    return None
                if c is not None and x.const() is not None:
                    q = abs(x.const()) // abs(c)
                    return Poly.num(q if (x.const() >= 0) == (c > 0) else -q)
                return Poly.atom(('idiv', x, y))
            if c is not None:
                return x * Poly.num(1 / c) if c else None
            i = y.inverse()
            if i is not None:
                return x * i
            return x * Poly.atom(('inv', y))
        if op == '%':
            return Poly.atom(('mod', x, y))
        if op in ('<<', '>>', '&', '|', '^'):
            return Poly.atom(('bit', op, x, y))
        return None

    def unop(self, op, a, node):
        x = self.p(a)
        if x is None:
            return None
        if op == '-':
            return -x
        if op == '+':
            return x
        return None

    def cast(self, v, typ, node):
        x = v.d
        if x is None or typ not in INTS and typ != 'bool':
            return x
        src = clean(node.kids[0].desugared or node.kids[0].type or '') if \
            node.kids else ''
        if src in INTS or src == 'bool':
            return x
        c = x.const()
        if c is not None:
            return Poly.num(int(c))
        return Poly.atom(('int', x))

    def join(self, a, b, node=None):
        return a if a is not None and a == b else None

    def call(self, name, args, node):
        ps = [self.p(a) for a in args]
        if name == 'pow' and len(ps) == 2 and None not in ps:
            c = ps[1].const()
            if c is not None and c.denominator == 1 and 0 <= c <= 6:
                r = Poly.num(1)
                for _ in range(int(c)):
                    r = r * ps[0]
                return r
        if name in ('real',) and len(ps) == 1:
            return ps[0]
        if not ps or None in ps:
            return None
        return Poly.atom(('call', name) + tuple(ps))

    def loopvar(self, ai, loop, var, init):
        return Poly.atom(('lv', loop.loc(), var))

    def initial(self, ai, loc, node):
        return V(NOC, Poly.atom(('in',) + tuple(loc)))

    def index_key(self, v):
        if isinstance(v.c, int) and not isinstance(v.c, bool):
            return v.c
        x = self.p(v)
        if x is None:
            return '*'
        c = x.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return ('sym', x)


class SymInterp(Interp):
    def __init__(self, prog, dom=None):
        super().__init__(prog, dom or SymDomain())
        self.dom.ai = self

        def quiet(ai, n, args, this, decl):
            return V(NOC, None)
        for q in prog.by_qual:
            if q.startswith(('trv::sys::Logger::', 'trv::sys::ProgressBar',
                             'trv::sys::update_', 'trv::sys::show_')):
                self.models[q] = quiet

    def sel_atom(self, cond, a, b):
        return Poly.atom(('sel', cond, a, b))
