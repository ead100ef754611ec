"""Interpretation of the command-line program for one set of options in a
dependency domain: which back-end routines run, on what, and where their
results go."""
from .absint import NOC, L, P, V
from .taint import E0, TaintDomain, TaintInterp


class MainDomain(TaintDomain):
    def const(self, v, node):
        return frozenset({('lit', v)}) if isinstance(v, str) else E0

    def binop(self, op, a, b, node):
        t = super().binop(op, a, b, node)
        if op == '/':
            x = {r[1] for r in self.t(a) if r[0] == 'role'}
            y = {r[1] for r in self.t(b) if r[0] == 'role'}
            if len(x) == len(y) == 1 and x != y:
                t = t | {('ratio', f'{x.pop()}/{y.pop()}')}
        return t

    def initial(self, ai, loc, node):
        r = ai.origin.get(loc[0])
        if r == 'params':
            return V(NOC, frozenset({('param', loc[-1])}))
        if r is not None:
            return V(NOC, frozenset({('role', r)}))
        return V(NOC, E0)


class MainInterp(TaintInterp):
    def __init__(self, prog, given):
        super().__init__(prog, MainDomain())
        self.given = given
        self.origin = {}
        self.calls = []     # (qualified name, [tags], [values], node)
        self.opened = []
        self.params = None
        m = self.models
        m['trv::ParameterSet::read_from_file'] = self.m_read
        m['trv::ParticleCatalogue::load_catalogue_file'] = self.m_load
        for q in prog.by_qual:
            b = q.split('::')[-1]
            if q.startswith('trv::') and b.startswith(
                    ('compute_', 'calc_', 'print_')) and q.count('::') <= 2:
                m[q] = self.m_record
        for q in ('trv::override_paramset_by_envvars',
                  'trv::sys::make_write_dir', 'trv::sys::display_help',
                  'trv::ParameterSet::print_to_file',
                  'trv::sys::if_filepath_is_set', 'trv::sys::exit_fatal',
                  'trv::set_boxsize_from_expand',
                  'trv::set_ngrid_from_cutoff',
                  'trv::ParticleCatalogue::pad_grids',
                  'trv::ParticleCatalogue::pad_in_box',
                  'trv::ParticleCatalogue::centre_in_box',
                  'trv::ParticleCatalogue::offset_coords_for_periodicity',
                  'trv::FieldStats::record_binned_vectors',
                  'trv::FieldStats::FieldStats'):
            m[q] = self.m_quiet
        m['trv::Binning::Binning'] = self.m_binning
        m['trv::Binning::set_bins'] = self.m_quiet
        m['snprintf'] = m['std::snprintf'] = self.m_snprintf
        m['fopen'] = m['std::fopen'] = self.m_fopen

    def s_CXXTryStmt(self, n):
        self.exec(n.kids[0])        # errors are another property's concern

    def m_quiet(self, ai, n, args, this, decl):
        return V(0 if 'exit' not in str(n) else NOC, E0)

    def m_binning(self, ai, n, args, this, decl):
        t = E0
        for a in args:
            t |= self.whole(a)
        self.calls.append(('trv::Binning::Binning',
                           [self.whole(a) for a in args], args, n))
        if this is not None:
            self.origin[this[0]] = 'binning'
        return NotImplemented if this is None else V(NOC, t)

    def m_read(self, ai, n, args, this, decl):
        self.params = this
        self.origin[this[0]] = 'params'
        self.clear_tree(this)
        for k, v in self.given.items():
            if v is not None:
                self.st.set(this + (k,), V(
                    v, frozenset({('param', k)})))
        return V(0, E0)

    def m_load(self, ai, n, args, this, decl):
        t = self.tags(args[0]) if args else E0
        role = None
        for x in t:
            if x[0] == 'param' and 'catalogue' in x[1]:
                role = x[1].split('_')[0]
        self.origin[this[0]] = role or 'unknown'
        self.clear_tree(this)
        return V(0, E0)

    def whole(self, v):
        """Tags of a value, and for an object also where it came from."""
        t = set(self.tags(v))
        if isinstance(v, (P, L)) and v.loc is not None:
            r = self.origin.get(v.loc[0])
            if r:
                t.add(('obj', r))
        return frozenset(t)

    def m_record(self, ai, n, args, this, decl):
        q = decl.qual
        b = q.split('::')[-1]
        self.calls.append((q, [self.whole(a) for a in args], args, n))
        tag = frozenset({('from', b)})
        loc = self.new('result', n)
        self.origin[loc[0]] = b
        t = self.ntype(n)
        if self.record(t) is not None:
            self.st.set(loc + ('#tag',), V(NOC, tag))
            return L(loc)
        return V(NOC, tag)

    def m_snprintf(self, ai, n, args, this, decl):
        t = frozenset().union(*[self.tags(a) for a in args[2:]]) \
            if len(args) > 2 else E0
        fmt = self.text(args[2]) if len(args) > 2 else None
        if isinstance(args[0], P) and args[0].loc is not None:
            parts = tuple(a.c if isinstance(a, V) and isinstance(a.c, str)
                          else None for a in args[3:])
            self.clear_tree(args[0].loc)
            self.st.set(args[0].loc + (0,), V(NOC, t | {
                ('fmt', fmt, parts)}))
        return V(NOC, E0)

    def m_fopen(self, ai, n, args, this, decl):
        loc = self.new('file', n)
        t = self.tags(args[0])
        self.opened.append((t, n))
        self.st.set(loc + ('#tag',), V(NOC, t | {('file', loc[0])}))
        return P(loc)


def run(prog, given):
    m = MainInterp(prog, given)
    argv = m.new('argv')
    m.run('main', [V(2, E0), P(argv, V(0, E0))],
          pick=lambda f: f.body is not None)
    return m
