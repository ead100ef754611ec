"""Dependency domain: a value is the set of inputs it was computed from."""
from .absint import NOC, Domain, Interp, L, P, V

E0 = frozenset()


class TaintDomain(Domain):
    def const(self, v, node):
        return E0

    def unknown(self, node):
        return E0

    def uninit(self, node):
        return E0

    def initial(self, ai, loc, node):
        return V(NOC, E0)

    @staticmethod
    def t(v):
        return v.d if isinstance(v, V) and v.d else E0

    def binop(self, op, a, b, node):
        return self.t(a) | self.t(b)

    def unop(self, op, a, node):
        return self.t(a)

    def cast(self, v, typ, node):
        return v.d or E0

    def join(self, a, b, node=None):
        return (a or E0) | (b or E0)

    def call(self, name, args, node):
        out = E0
        for a in args:
            out |= self.ai.tags(a)
        return out

    def loopvar(self, ai, loop, var, init):
        return E0


class TaintInterp(Interp):
    def __init__(self, prog, dom=None):
        super().__init__(prog, dom or TaintDomain())
        self.dom.ai = self

        def quiet(ai, n, args, this, decl):
            return V(NOC, E0)
        for q in prog.by_qual:
            if q.startswith(('trv::sys::Logger::', 'trv::sys::ProgressBar',
                             'trv::sys::update_', 'trv::sys::show_')):
                self.models[q] = quiet

    def tags(self, v):
        if isinstance(v, V):
            return v.d or E0
        if isinstance(v, (P, L)) and v.loc is not None and \
                self.st is not None:
            out = E0
            for _, x in self.st.under(v.loc):
                if isinstance(x, V):
                    out |= x.d or E0
            return out
        return E0

    def scalar(self, v, node=None):
        if isinstance(v, P):
            return V(NOC, self.tags(v))
        return super().scalar(v, node)

    def conv_assign(self, v, n, a):
        t = (a.desugared or a.type or '') if a is not None else ''
        if isinstance(v, (P, L)) and 'string' in t and '*' not in t:
            c = self.text(v)
            return V(NOC if c is None else c, self.tags(v))
        return v

    def text(self, v):
        """Constant text of a value (C string or std::string), or None."""
        if isinstance(v, V):
            return v.c if isinstance(v.c, str) else None
        if isinstance(v, P) and v.loc is not None:
            x = self.st.get(v.loc)
            if x is None:
                x = self.st.get(v.loc + (0,))
            if isinstance(x, V) and isinstance(x.c, str):
                return x.c
        if isinstance(v, L):
            x = self.st.get(v.loc)
            if isinstance(x, V) and isinstance(x.c, str):
                return x.c
        return None
