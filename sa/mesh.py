"""Sign and rounding decisions for polynomials over mesh quantities, and an
interpreter that follows mesh code for one region of particle positions.

The abstract state of a particle is a *region*: on every axis the cell
coordinate u = N x / L is i + s, with i one of the named cells (0, 1, an
interior cell m, N-2, N-1) or a concrete cell of a concrete small mesh, and
s zero, one half or anywhere strictly between them.  Within a region every
comparison that the assignment code makes has one answer, so the code is
followed along a single path and its result is an exact polynomial in the
(unbounded, symbolic) mesh numbers, box lengths and offsets."""
from fractions import Fraction

from .absint import NOC, P, V, clean
from .sym import INTS, Poly, SymDomain, SymInterp

ONE = Poly.num(1)
HALF = Fraction(1, 2)


def atom(*a):
    return Poly.atom(a if len(a) > 1 else a[0])


class Region:
    """Ranges of the basic atoms; decides signs of polynomials."""

    def __init__(self):
        self.sub = {}     # atom -> Poly over nonnegative/positive atoms
        self.frac = {}    # atom -> (lo, hi) open interval
        self.pos = set()  # atoms known positive
        self.nonneg = set()
        self.ints = set()  # integer atoms
        self._memo = {}

    def normal(self, p):
        """p times a positive factor, over nonnegative atoms only, or
        None."""
        low = {}
        for mon in p.t:
            for a, e in mon:
                if e < 0:
                    low[a] = min(low.get(a, 0), e)
        for a in low:
            if a not in self.pos and a not in self.sub and \
                    a not in self.frac:
                return None
        for a, e in low.items():
            q = Poly({((a, -e),): Fraction(1)})
            p = p * q
        p = p.subst(lambda a: self.sub.get(a))
        for a, (lo, hi) in self.frac.items():
            deg = max((e for mon in p.t for b, e in mon if b == a),
                      default=0)
            if not deg:
                continue
            v = ('v', a)
            num = Poly.num(lo) + Poly.num(hi) * Poly.atom(v)
            den = ONE + Poly.atom(v)
            out = Poly()
            pw = [ONE]
            dn = [ONE]
            for _ in range(deg):
                pw.append(pw[-1] * num)
                dn.append(dn[-1] * den)
            for mon, c in p.t.items():
                e = next((e for b, e in mon if b == a), 0)
                rest = tuple(x for x in mon if x[0] != a)
                out = out + Poly({rest: c}) * pw[e] * dn[deg - e]
            p = out
        return p

    def sign(self, p):
        """'+', '-', '0', '>=' (0 or more), '<=' or None."""
        if p in self._memo:
            return self._memo[p]
        r = self._sign(p)
        self._memo[p] = r
        return r

    def _sign(self, p):
        if p is None:
            return None
        if not p.t:
            return '0'
        p = self.normal(p)
        if p is None:
            return None
        if not p.t:
            return '0'

        def strictly(a):
            return a in self.pos or (isinstance(a, tuple) and a[0] == 'v')
        for mon in p.t:
            for a, e in mon:
                if not strictly(a) and a not in self.nonneg and e % 2:
                    return None
        sg = {c > 0 for c in p.t.values()}
        if len(sg) > 1:
            return None
        strict = any(all(strictly(a) for a, _ in mon) for mon in p.t)
        if sg == {True}:
            return '+' if strict else '>='
        return '-' if strict else '<='

    def compare(self, op, x, y):
        s = self.sign(x - y)
        if s is None:
            return None
        if op in ('==', '!='):
            r = True if s == '0' else False if s in '+-' else None
            return r if op == '==' or r is None else not r
        if op in ('>', '<='):
            r = True if s == '+' else False if s in ('-', '0', '<=') else None
            return r if op == '>' or r is None else not r
        r = True if s == '-' else False if s in ('+', '0', '>=') else None
        return r if op == '<' or r is None else not r

    def integral(self, p):
        return all(c.denominator == 1 and all(
            a in self.ints and e > 0 for a, e in m) for m, c in p.t.items())

    def floor(self, p):
        """Integer polynomial k with k <= p < k + 1, or None."""
        k = Poly({m: Fraction(int(c // 1)) for m, c in p.t.items() if all(
            a in self.ints and e > 0 for a, e in m) and (
                m == () or c.denominator == 1)})
        k = Poly({m: c for m, c in k.t.items() if c})
        for j in (0, 1, -1, 2, -2):
            q = k + Poly.num(j)
            if self.sign(p - q) in ('+', '0', '>=') and \
                    self.sign(q + ONE - p) == '+':
                return q
        return None

    def trunc(self, p):
        s = self.sign(p)
        if s in ('+', '0', '>='):
            return self.floor(p)
        if s in ('-', '<='):
            f = self.floor(-p)
            return None if f is None else -f
        return None

    def mod(self, p, n):
        """C remainder of p by positive n."""
        s = self.sign(p)
        if self.sign(n) != '+':
            return None
        if s in ('-', '<='):
            r = self.mod(-p, n)
            return None if r is None else -r
        if s not in ('+', '0', '>='):
            return None
        for k in range(0, 4):
            q = p - n * Poly.num(k)
            if self.sign(q) in ('+', '0', '>=') and \
                    self.sign(n - q) == '+':
                return q
        return None


class MeshDomain(SymDomain):
    region = None

    def compare(self, op, a, b, node):
        x, y = self.p(a), self.p(b)
        if x is None or y is None:
            return None
        if node is not None and any(
                isinstance(t, tuple) and t[0] == 'lv'
                for t in (x - y).atoms()):
            return None
        return self.region.compare(op, x, y)

    def cast(self, v, typ, node):
        x = self.p(v)
        if x is None or typ not in INTS:
            return x
        src = clean(node.kids[0].desugared or node.kids[0].type or '') if \
            node.kids else ''
        if src in INTS or src == 'bool':
            return x
        return self.region.trunc(x)

    def binop(self, op, a, b, node):
        if op == '%':
            x, y = self.p(a), self.p(b)
            if x is not None and y is not None:
                r = self.region.mod(x, y)
                if r is not None:
                    return r
        if op == '/':
            x, y = self.p(a), self.p(b)
            if x is not None and y is not None and y.inverse() is None and \
                    not self.isint(node):
                r = divide(x, y)
                if r is not None:
                    return r
        return super().binop(op, a, b, node)

    def call(self, name, args, node):
        ps = [self.p(a) for a in args]
        R = self.region
        if ps and None not in ps:
            x = ps[0]
            if name in ('floor', 'floorl', 'floorf'):
                return R.floor(x)
            if name in ('ceil', 'ceill'):
                f = R.floor(-x)
                return None if f is None else -f
            if name in ('trunc',):
                return R.trunc(x)
            if name in ('round', 'lround', 'llround'):
                return R.floor(x + Poly.num(HALF)) if R.sign(x) in (
                    '+', '0', '>=') else None
            if name in ('abs', 'fabs'):
                s = R.sign(x)
                return x if s in ('+', '0', '>=') else \
                    -x if s in ('-', '<=') else None
            if name == 'fmod' and len(ps) == 2:
                return R.mod(x, ps[1])
            if name in ('max', 'min', 'fmax', 'fmin') and len(ps) == 2:
                s = R.sign(x - ps[1])
                if s in ('+', '>=', '0'):
                    return x if 'max' in name else ps[1]
                if s in ('-', '<='):
                    return ps[1] if 'max' in name else x
                return None
        return super().call(name, args, node)

    def index_key(self, v):
        k = super().index_key(v)
        if isinstance(k, tuple) and any(
                isinstance(t, tuple) and t[0] == 'lv'
                for t in k[1].atoms()):
            return '*'
        return k


def divide(x, y):
    """x / y if it is a polynomial: exact for x a multiple of y."""
    if not y.t:
        return None
    m0, c0 = next(iter(y.t.items()))
    for m in x.t:
        q = Poly({m: x.t[m] / c0}) * Poly(
            {tuple((a, -e) for a, e in m0): Fraction(1)})
        if q * y == x:
            return q
    return None


class MeshInterp(SymInterp):
    """Starts from a MeshField `this` whose members have their meaning."""
    max_unroll = 8

    def __init__(self, prog, region):
        super().__init__(prog, MeshDomain())
        self.dom.region = region
        self.lost = []
        self.dom.initial = self.initial

    def initial(self, ai, loc, node):
        v = self.member(loc)
        if v is not None:
            if isinstance(v, (str, bool)):
                return V(v, None)
            c = v.const()
            if c is not None and c.denominator == 1:
                return V(int(c), v)
            return V(NOC, v)
        t = self.cat(self.ntype(node)) if node is not None else 'num'
        if t == 'ptr':
            return P(('heap:' + '.'.join(map(str, loc)),),
                     V(0, self.dom.const(0, node)))
        return V(NOC, Poly.atom(('in',) + tuple(loc)))

    def member(self, loc):
        return None

    def on_cond(self, node, state, positive):
        if positive:
            self.lost.append(node)
