"""Symbolic runs of the public Python measurement routines down to the calls
of the C++ back end, used by checks on dispatch, parameters and labels."""
from . import pyx
from .cxx import AnalysisBroken
from .pysym import NONE, PySym, St, alts, const, isconst, subterms

# public routine -> (module, statistic, catalogue type, C++ routine)
ROUTINES = {
    'compute_powspec': ('twopt.py', 'powspec', 'survey'),
    'compute_corrfunc': ('twopt.py', '2pcf', 'survey'),
    'compute_powspec_in_gpp_box': ('twopt.py', 'powspec', 'sim'),
    'compute_corrfunc_in_gpp_box': ('twopt.py', '2pcf', 'sim'),
    'compute_corrfunc_window': ('twopt.py', '2pcf-win', 'random'),
    'compute_bispec': ('threept.py', 'bispec', 'survey'),
    'compute_3pcf': ('threept.py', '3pcf', 'survey'),
    'compute_bispec_in_gpp_box': ('threept.py', 'bispec', 'sim'),
    'compute_3pcf_in_gpp_box': ('threept.py', '3pcf', 'sim'),
    'compute_3pcf_window': ('threept.py', '3pcf-win', 'random'),
}
NPOINT = {'powspec': '2pt', '2pcf': '2pt', '2pcf-win': '2pt',
          'bispec': '3pt', '3pcf': '3pt', '3pcf-win': '3pt',
          '3pcf-win-wa': '3pt'}
SPACE = {'powspec': 'fourier', 'bispec': 'fourier', '2pcf': 'config',
         '2pcf-win': 'config', '3pcf': 'config', '3pcf-win': 'config',
         '3pcf-win-wa': 'config'}
BACKEND = {
    ('powspec', 'survey'): 'trv::compute_powspec',
    ('2pcf', 'survey'): 'trv::compute_corrfunc',
    ('powspec', 'sim'): 'trv::compute_powspec_in_gpp_box',
    ('2pcf', 'sim'): 'trv::compute_corrfunc_in_gpp_box',
    ('2pcf-win', 'random'): 'trv::compute_corrfunc_window',
    ('bispec', 'survey'): 'trv::compute_bispec',
    ('3pcf', 'survey'): 'trv::compute_3pcf',
    ('bispec', 'sim'): 'trv::compute_bispec_in_gpp_box',
    ('3pcf', 'sim'): 'trv::compute_3pcf_in_gpp_box',
    ('3pcf-win', 'random'): 'trv::compute_3pcf_window',
    ('3pcf-win-wa', 'random'): 'trv::compute_3pcf_window',
}
PREFIX = {'powspec': 'pk', '2pcf': 'xi', '2pcf-win': 'xiw', 'bispec': 'bk',
          '3pcf': 'zeta', '3pcf-win': 'zetaw', '3pcf-win-wa': 'zetaw'}


def externs():
    """Cython name of a C function -> its C++ name."""
    out = {}
    for m in pyx.modules():
        for e in pyx.externs(m):
            if not e.cls:
                out[e.name] = e.cname
    return out


class MeasSym(PySym):
    """One measurement routine under one set of options.  The parameter set
    is an object whose entries are tracked; `npoint`, `space` and `shape`
    follow the statistic as in the back end."""
    maxdepth = 10

    def __init__(self):
        super().__init__()
        self.ext = externs()
        self.calls = []         # (C++ name, args, kw, node, params snapshot)
        self.saves = []         # (function, args, kw, node)
        self.bufs = {}          # malloc term -> stored terms
        self.pset = None
        self.norecord = 0

    def dict(self, items):
        self.nobj += 1
        o = ('obj', self.nobj)
        self.st.heap[o] = ('dict', {const(k): v for k, v in items.items()})
        return o

    def make_params(self, **given):
        def u(n):
            return ('arg', 'paramset', n)
        self.nobj += 1
        rng = ('obj', self.nobj)
        self.st.heap[rng] = ('list', {0: u('bin_min'), 1: u('bin_max')})
        p = {
            'directories': self.dict({'catalogues': u('dir_cat'),
                                      'measurements': u('dir_meas')}),
            'files': self.dict({'data_catalogue': u('file_data'),
                                'rand_catalogue': u('file_rand')}),
            'tags': self.dict({'output': u('tag')}),
            'boxsize': self.dict({a: u('boxsize_' + a) for a in 'xyz'}),
            'ngrid': self.dict({a: u('ngrid_' + a) for a in 'xyz'}),
            'degrees': self.dict({a: u(a) for a in ('ell1', 'ell2', 'ELL')}),
            'wa_orders': self.dict({'i': u('i_wa'), 'j': u('j_wa')}),
            'range': rng,
        }
        for k in ('catalogue_columns', 'expand', 'cutoff_nyq', 'alignment',
                  'padscale', 'padfactor', 'assignment', 'interlace',
                  'catalogue_type', 'statistic_type', 'norm_convention',
                  'binning', 'form', 'num_bins', 'idx_bin', 'fftw_scheme',
                  'use_fftw_wisdom', 'save_binned_vectors', 'verbose',
                  'cutoff', 'cutoff_nyq', 'dirs'):
            p[k] = u(k)
        for k, v in given.items():
            p[k] = v
        self.pset = self.dict(p)
        return self.pset

    def pget(self, k, st=None):
        d = (st or self.st).heap[self.pset][1]
        return d.get(const(k))

    def getitem(self, b, k):
        if b == self.pset and isconst(k) and k[1] in ('npoint', 'space',
                                                      'shape'):
            s = self.pget('statistic_type')
            if s is not None and isconst(s):
                t = {'npoint': NPOINT, 'space': SPACE}.get(k[1], {}).get(
                    s[1])
                if t:
                    return const(t)
            return ('arg', 'paramset', k[1])
        return super().getitem(b, k)

    def on_store(self, target, value, node):
        for t in subterms(target):
            if t[0] == 'call' and any(
                    x == ('name', 'malloc') or x[-1:] == ('malloc',)
                    for x in (t[1],)):
                self.bufs.setdefault(t, []).append(value)

    def params_now(self):
        """Entries of the parameter set now; those of its nested mappings
        are under ('sub', entry)."""
        now = dict(self.st.heap[self.pset][1])
        for k, v in list(now.items()):
            if v is not None and v[0] == 'obj' and v in self.st.heap:
                now['sub', k] = dict(self.st.heap[v][1])
        return now

    def on_call(self, f, args, kw, node):
        if self.norecord:
            return None
        n = f[-1] if f[0] in ('name', 'attr', 'ext', 'func', 'class') \
            else None
        if f[0] == 'name' and n in self.ext:
            self.calls.append((self.ext[n], args, kw, node,
                               self.params_now(), self.stack[-1]))
        if f[0] == 'class' and n == 'ParameterSet':
            for k, v in list(kw) + ([('param_dict', args[0])]
                                    if len(args) == 1 else []):
                if k == 'param_dict' and v == self.pset:
                    return v
        if f[0] == 'name' and n == 'isinstance' and len(args) == 2 and \
                args[0] == self.pset:
            return const(any(t in (('name', 'dict'),)
                             for t in subterms(args[1])))
        if f[0] in ('func', 'ext') and n == 'fetch_paramset_template':
            o = self.template()
            d = self.dict({})
            for k, v in kw:
                if k == 'ret_defaults' and v == const(True):
                    return ('tuple', (o, d))
            return o
        if f[0] == 'attr' and f[1] == self.pset and n == 'update':
            for a in args:
                if a[0] == 'obj':
                    for k, v in self.st.heap[a][1].items():
                        self.pstore(k, v)
            for k, v in kw:
                self.pstore(const(k), v)
            return NONE
        if f[0] == 'attr' and n in ('savetxt', 'savez', 'savez_compressed',
                                    'save'):
            self.saves.append((n, args, kw, node, self.params_now()))
        return None

    def pstore(self, k, v):
        self.st.heap[self.pset][1][k] = v

    def template(self):
        return self.make_params()

    def inline(self, f):
        if f[0] == 'method' and f[2] not in ('twopt.py', 'threept.py'):
            return False
        if f[0] == 'func' and f[1] == 'parameters.pyx' and \
                f[2] == '_set_ngrid_from_cutoff':
            return False
        return True


def roles(t, bufs=None, seen=()):
    """Catalogue roles a term is made from."""
    out = set()
    for x in subterms(t):
        if x[0] == 'arg' and isinstance(x[2], str):
            for r in ('data', 'rand'):
                if x[2].endswith('_' + r):
                    out.add(r)
        if bufs and x in bufs and x not in seen:
            for v in bufs[x]:
                out |= roles(v, bufs, seen + (x,))
    return out


def run(name, given, args=None, cls=MeasSym):
    """Run one public routine; returns the interpreter and the result."""
    mod = ROUTINES[name][0]
    p = cls()
    p.st = St()
    a = {'logger': NONE, 'sampling_params': NONE, 'degree': NONE,
         'degrees': NONE, 'form': NONE, 'idx_bin': NONE, 'binning': NONE,
         'wa_orders': NONE}
    fn = p.mods[mod].funcs.get(name)
    if fn is None:
        raise AnalysisBroken(f'{mod}: no routine {name}')
    names = {x.arg for x in fn.args.posonlyargs + fn.args.args +
             fn.args.kwonlyargs}
    ps = p.make_params(**given)
    a['paramset'] = ps
    a.update(args(p) if callable(args) else args or {})
    a = {k: v for k, v in a.items() if k in names}
    p.ret = p.run(mod, name, a, p.st)
    return p


__all__ = ['MeasSym', 'run', 'roles', 'alts']
