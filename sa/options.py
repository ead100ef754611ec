"""Which option values parameter validation lets through.

`ParameterSet::validate` is interpreted with one or more string members set
to constants and everything else unknown; a value is accepted when some path
through the routine neither throws nor returns a failure.
"""
from .absint import NOC, P, V
from .taint import E0, TaintInterp

OPTIONS = {
    'catalogue_type': ('survey', 'random', 'sim', 'none'),
    'statistic_type': ('powspec', '2pcf', '2pcf-win', 'bispec', '3pcf',
                       '3pcf-win', '3pcf-win-wa', 'modes', 'pairs'),
    'alignment': ('centre', 'pad'), 'padscale': ('box', 'grid'),
    'assignment': ('ngp', 'cic', 'tsc', 'pcs'),
    'interlace': ('true', 'false', 'on', 'off'),
    'form': ('full', 'diag', 'off-diag', 'row'),
    'norm_convention': ('none', 'particle', 'mesh', 'mesh-mixed'),
    'binning': ('lin', 'log', 'linpad', 'logpad', 'custom'),
    'fftw_scheme': ('estimate', 'measure', 'patient'),
}
DERIVED = ('npoint', 'space', 'shape', 'assignment_order')


class Validator(TaintInterp):
    def __init__(self, prog):
        super().__init__(prog)
        self.compared = {}

        def unknown(ai, n, args, this, decl):
            return V(NOC, E0)
        for f in ('trv::sys::expand_envar_in_path', 'trv::sys::has_extension',
                  'trv::sys::join_strings', 'snprintf'):
            self.models[f] = unknown
        self.models['trv::sys::is_gpu_enabled'] = lambda ai, n, a, t, d: \
            V(False, E0)


def run(prog, given):
    """None if rejected on all paths, else {member: text or None}."""
    v = Validator(prog)
    this = v.new('this')
    for m, x in given.items():
        v.st.set(this + (m,), V(x, E0))
    v.run('trv::ParameterSet::validate', [V(NOC, E0)], this,
          pick=lambda f: f.body is not None)
    if v.st is None:
        return None
    out = {}
    for m in (*OPTIONS, *DERIVED):
        x = v.st.get(this + (m,))
        out[m] = v.text(x) if x is not None else None
        if isinstance(x, V) and isinstance(x.c, int):
            out[m] = x.c
    return out
