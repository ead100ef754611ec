"""D01: dimensional and weight-degree consistency of every measurement."""
import ast
import os

from .. import cxx
from ..absint import L, NOC, V
from ..dims import LEN, ONE, POLY, DimInterp, dim, mul, power, show

EXPLANATION = (
    'Dimension (unit) inference over the typed syntax tree of the C++ back '
    'end, with every call inlined: each particle position, mesh length, '
    'weight and normalisation carries exponents of length, clustering '
    'weight, data and random systematic weight; additions, comparisons and '
    'function arguments must agree and each result field must have the '
    'dimension of its statistic.  The Python and command-line callers are '
    'checked for the weight scaling of the contrast they pass.  No input '
    'values are used.')

N2 = dim(L=3, C=-2, Sd=-2)
N3 = dim(L=6, C=-3, Sd=-3)
R2 = dim(L=3, C=-2, Sr=-2)
R3 = dim(L=6, C=-3, Sr=-3)
K = dim(L=-1)
FIELDS = {
    'kbin': K, 'keff': K, 'k1_bin': K, 'k1_eff': K, 'k2_bin': K,
    'k2_eff': K, 'rbin': LEN, 'reff': LEN, 'r1_bin': LEN, 'r1_eff': LEN,
    'r2_bin': LEN, 'r2_eff': LEN,
    'nmodes': ONE, 'nmodes_1': ONE, 'nmodes_2': ONE,
    'npairs': ONE, 'npairs_1': ONE, 'npairs_2': ONE,
    'pk_raw': dim(L=3), 'pk_shot': dim(L=3),
    'bk_raw': dim(L=6), 'bk_shot': dim(L=6),
    'xi': ONE, 'zeta_raw': ONE, 'zeta_shot': ONE,
}
FORMS = ('diag', 'off-diag', 'row', 'full', 'triu')

# entry, space, statistic, survey?, doubles in order
MEAS = [
    ('compute_powspec', 'fourier', 'powspec', True, [N2]),
    ('compute_corrfunc', 'config', '2pcf', True, [N2]),
    ('compute_powspec_in_gpp_box', 'fourier', 'powspec', False,
     [dim(L=3)]),
    ('compute_corrfunc_in_gpp_box', 'config', '2pcf', False, [dim(L=3)]),
    ('compute_corrfunc_window', 'config', '2pcf-win', 'rand', [ONE, R2]),
    ('compute_bispec', 'fourier', 'bispec', True, [N3]),
    ('compute_3pcf', 'config', '3pcf', True, [N3]),
    ('compute_bispec_in_gpp_box', 'fourier', 'bispec', False, [dim(L=6)]),
    ('compute_3pcf_in_gpp_box', 'config', '3pcf', False, [dim(L=6)]),
    ('compute_3pcf_window', 'config', '3pcf-win', 'rand', [ONE, R3]),
]
AL = dim(Sd=1, Sr=-1)
AMP2, AMP3 = dim(C=2, Sd=2), dim(C=3, Sd=3)
# entry, catalogue scalings, doubles, expected result
NORMS = [
    ('calc_powspec_normalisation_from_particles', ['Sr'], [AL], N2),
    ('calc_powspec_normalisation_from_mesh', ['Sr'], [AL], N2),
    ('calc_powspec_normalisation_from_meshes', ['Sd', 'Sr'],
     [AL, ONE, LEN], N2),
    ('calc_bispec_normalisation_from_particles', ['Sr'], [AL], N3),
    ('calc_bispec_normalisation_from_mesh', ['Sr'], [AL], N3),
    ('calc_ylm_wgtd_shotnoise_amp_for_powspec', None, [AL], AMP2),
    ('calc_ylm_wgtd_shotnoise_amp_for_bispec', None, [AL], AMP3),
]


def base(t):
    return (t or '').replace('const ', '').replace('trv::', '').strip(' &')


def build_args(ai, f, cats, space, doubles, opts):
    doubles = list(doubles)
    cats = list(cats)
    los = ['losd', 'losr']
    args = []
    for p in f.params:
        t = base(p.desugared or p.type)
        if 'ParticleCatalogue' in t:
            args.append(L(cats.pop(0)))
        elif 'LineOfSight' in t:
            args.append(ai.los(los.pop(0)))
        elif 'ParameterSet' in t:
            args.append(L(ai.params(space, **opts)))
        elif 'Binning' in t:
            args.append(L(ai.binning(space)))
        elif 'basic_string' in t or t == 'string' or t == 'std::string':
            args.append(V('tsc', ONE))
        elif t == 'double':
            args.append(ai.num(doubles.pop(0)) if doubles else
                        ai.num(ONE))
        elif t == 'bool':
            args.append(V(opts.get('wide_angle', False), ONE))
        else:
            args.append(V(NOC, ONE))
    return args


def fmt_opts(o):
    return ', '.join(f'{k}={v}' for k, v in sorted(o.items()) if k in (
        'form', 'assignment', 'interlace', 'wide_angle'))


def flush(rep, ai, tag):
    """Report dimension clashes met while interpreting."""
    for kind, node, a, b, stack in ai.dom.conflicts:
        fn = stack.split(' <- ')[0] if stack else '?'
        rep.bad('unit-clash', f'{fn}: {kind} of {show(a)} and {show(b)}',
                node.loc() if node is not None else '?',
                f'{kind} mixes {show(a)} with {show(b)} in {stack}')
    rep.analysed.setdefault('dimension_checks', 0)
    rep.analysed['dimension_checks'] += ai.dom.ops
    rep.ok('unit-clash', tag, '', f'{ai.dom.ops} operand pairs agree')


def verdict(rep, ai, rule, name, where, got, want):
    got = ai.dom.resolve(got)
    if got == want or got == POLY:
        rep.ok(rule, name, where, show(got))
    elif got is None:
        if ai.dom.joins and not ai.dom.conflicts:
            n, a, b = ai.dom.joins[0]
            rep.bad(rule, name, n.loc() if n is not None else where,
                    f'the value has dimension {show(a)} on one path and '
                    f'{show(b)} on another')
        else:
            rep.undecided(rule, name, where, 'dimension not inferred')
    else:
        rep.bad(rule, name, where,
                f'has dimension {show(got)}, expected {show(want)}')


def opts_for(stat, survey, **kw):
    o = dict(statistic_type=stat,
             catalogue_type='survey' if survey is True else 'sim'
             if survey is False else 'random',
             norm_convention='particle', binning='lin', alignment='centre',
             padscale='box', form='diag', shape='diag',
             save_binned_vectors='', npoint='2pt', interlace='true',
             assignment='tsc')
    o.update(kw)
    if 'form' in kw:
        o['shape'] = kw['form']
        o['npoint'] = '3pt'
    return o


def variants(name, tier):
    if '2pcf' in name or 'powspec' in name or 'corrfunc' in name:
        for a in ('ngp', 'cic', 'tsc', 'pcs'):
            for i in ('true', 'false'):
                yield dict(assignment=a, interlace=i)
        return
    for f in FORMS:
        yield dict(form=f)
        yield dict(form=f, assignment='pcs', interlace='false')


def check(rep, tier):
    prog = cxx.Program()
    rep.rule('unit-clash', 'Operands of +, -, comparison and min/max agree '
             'in dimension and weight degree; arguments of transcendental '
             'functions are dimensionless.')
    rep.rule('result-unit', 'Each result field has the dimension of its '
             'statistic and degree zero in every weight scaling.')
    rep.rule('norm-unit', 'Each normalisation and shot-noise amplitude has '
             'the dimension and weight degree of its statistic.')
    rep.rule('contrast', 'The contrast handed over by the callers scales '
             'as data over random systematic weight.')
    nfun = set()
    for name, space, stat, survey, nums in MEAS:
        q = 'trv::' + name
        cands = [c for c in prog.by_qual.get(q, [])]
        if not cands:
            raise cxx.AnalysisBroken(f'{q} not found')
        f, tu = cands[0]
        vs = list(variants(name, tier))
        if 'window' in name and '3pcf' in name:
            vs = vs + [dict(v, wide_angle=True) for v in vs[:2]]
        for v in vs:
            ai = DimInterp(prog)
            if survey is True:
                cats = [ai.catalogue('data', 'Sd'),
                        ai.catalogue('rand', 'Sr')]
            elif survey is False:
                cats = [ai.catalogue('data', None)]
            else:
                cats = [ai.catalogue('rand', 'Sr')]
            o = opts_for(stat, survey, **v)
            r = ai.invoke(f, tu, build_args(ai, f, cats, space, nums, o),
                          None, f.node)
            nfun |= set(ai.reached)
            tag = f'{name}({fmt_opts(o)})'
            flush(rep, ai, tag)
            if not isinstance(r, L) or ai.st is None:
                rep.undecided('result-unit', tag, f.node.loc(), 'no result')
                continue
            rec = ai.record(f.type.split('(')[0])
            for fld in rec[0].fields:
                if fld.name not in FIELDS:
                    continue
                got = ai.st.get(r.loc + (fld.name, '*'))
                if got is None:
                    got = V(NOC, POLY)
                verdict(rep, ai, 'result-unit',
                        f'{name} .{fld.name} ({fmt_opts(o)})', f.node.loc(),
                        got.d, FIELDS[fld.name])
    for name, scal, nums, want in NORMS:
        cands = prog.by_qual.get('trv::' + name, [])
        if not cands:
            raise cxx.AnalysisBroken(f'{name} not found')
        for f, tu in cands:
            nc = sum('ParticleCatalogue' in (p.type or '')
                     for p in f.params)
            sc = scal if scal is not None else ['Sd', 'Sr'][:nc] if nc == 2 \
                else ['Sr']
            for v in (dict(assignment='tsc', interlace='true'),
                      dict(assignment='pcs', interlace='false')):
                ai = DimInterp(prog)
                cats = [ai.catalogue('c' + s, s) for s in sc]
                o = opts_for('powspec', True, **v)
                r = ai.invoke(f, tu, build_args(
                    ai, f, cats, 'fourier', nums, o), None, f.node)
                nfun |= set(ai.reached)
                sig = f'{name}/{len(f.params)}'
                flush(rep, ai, f'{sig}({fmt_opts(o)})')
                verdict(rep, ai, 'norm-unit', sig, f.node.loc(), r.d, want)
    rep.analysed['functions_inlined'] = sorted(nfun)
    contrast(rep, prog)
    rep.need('result-unit', 100)
    rep.need('norm-unit', 10)
    rep.need('contrast', 4)


# -- Python and command-line callers -----------------------------------------

# normalisation binding -> degree in the sample of the catalogue and in alpha
def contrast(rep, prog):
    """Survey measurements: alpha must be data over random, so that the
    normalisation has the degree of the data weights only."""
    for mod in ('twopt.py', 'threept.py'):
        path = os.path.join(cxx.REPO, 'src/triumvirate', mod)
        with open(path, encoding='utf-8') as fh:
            tree = ast.parse(fh.read())
        for fn in [n for n in ast.walk(tree)
                   if isinstance(n, ast.FunctionDef)]:
            env = py_env(fn)
            for c in ast.walk(fn):
                if not isinstance(c, ast.Call):
                    continue
                nm = c.func.id if isinstance(c.func, ast.Name) else \
                    c.func.attr if isinstance(c.func, ast.Attribute) else ''
                if 'normalisation_from' not in nm:
                    continue
                py_norm_call(rep, mod, fn, c, nm, env)
    cxx_contrast(rep, prog)


def py_env(fn):
    """name -> dimension for scalars, or ('cat', S) for catalogues."""
    env = {}
    for a in fn.args.args + fn.args.kwonlyargs:
        if 'catalogue' in a.arg or 'particles' in a.arg:
            env[a.arg] = ('cat', side(a.arg))
    for _ in range(2):
        for st in ast.walk(fn):
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                t = st.targets[0]
                v = st.value
                if isinstance(t, ast.Name):
                    d = py_dim(v, env)
                    if d is not None:
                        env[t.id] = d
    return env


def side(name):
    return 'Sr' if 'rand' in name else 'Sd'


ATTR = {'wstotal': 1, 'wtotal': 2, 'ntotal': 0}


def py_dim(e, env):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) \
            and not isinstance(e.value, bool):
        return ONE
    if isinstance(e, ast.Name):
        return env.get(e.id)
    if isinstance(e, ast.Attribute):
        o = py_dim(e.value, env)
        if isinstance(o, tuple) and o[0] == 'cat' and e.attr in ATTR:
            if e.attr == 'ntotal':
                return ONE
            d = dim(**{o[1]: 1})
            return mul(d, dim(C=1)) if e.attr == 'wtotal' else d
        return None
    if isinstance(e, ast.Call):
        nm = e.func.id if isinstance(e.func, ast.Name) else \
            e.func.attr if isinstance(e.func, ast.Attribute) else ''
        if isinstance(e.func, ast.Attribute) and not e.args:
            o = py_dim(e.func.value, env)
            if isinstance(o, tuple) and o[0] == 'cat':
                return o
        if nm in ('float', 'abs') and e.args:
            return py_dim(e.args[0], env)
        for a in e.args:
            o = py_dim(a, env)
            if isinstance(o, tuple) and o[0] == 'cat':
                return o
        return None
    if isinstance(e, ast.UnaryOp):
        return py_dim(e.operand, env)
    if isinstance(e, ast.BinOp):
        a, b = py_dim(e.left, env), py_dim(e.right, env)
        if not isinstance(a, frozenset) or not isinstance(b, frozenset):
            return None
        if isinstance(e.op, ast.Mult):
            return mul(a, b)
        if isinstance(e.op, ast.Div):
            return mul(a, power(b, -1))
        if isinstance(e.op, (ast.Add, ast.Sub)):
            return a if a == b else None
        if isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant):
            return power(a, e.right.value)
    return None


def py_norm_call(rep, mod, fn, c, nm, env):
    cats = []
    alpha = None
    for a in c.args:
        d = py_dim(a, env)
        if isinstance(d, tuple):
            cats.append(d[1])
        elif isinstance(d, frozenset) and alpha is None:
            alpha = d
        elif isinstance(a, ast.Name) and 'alpha' in a.id:
            alpha = d
    for k in c.keywords:
        if k.arg == 'alpha':
            alpha = py_dim(k.value, env)
    where = f'src/triumvirate/{mod}:{c.lineno}'
    name = f'{fn.name} -> {nm}'
    if not cats or alpha is None:
        rep.undecided('contrast', name, where, 'scaling not inferred')
        return
    params = {a.arg for a in fn.args.args}
    survey = any('rand' in p for p in params) and any(
        'data' in p for p in params)
    n = 3 if 'bispec' in nm else 2
    last = cats[-1]
    if not survey:
        want = ONE
    else:
        # norm ~ (alpha S_r)^-n must be S_d^-n
        want = dim(Sd=1, Sr=-1) if last == 'Sr' else ONE
    if len(cats) == 2 and cats != ['Sd', 'Sr']:
        rep.bad('contrast', name, where,
                'catalogues are not handed over as data, random')
        return
    rep.check(alpha == want, 'contrast', name, where,
              f'alpha scales as {show(alpha)}, expected {show(want)} for '
              f'the degree-{n} normalisation', show(alpha))


def cxx_contrast(rep, prog):
    """The same for the command-line program: every definition of the
    contrast from catalogue totals."""
    for q in ('main',):
        for f, tu in prog.by_qual.get(q, []):
            for n in f.body.walk():
                if n.kind != 'BinaryOperator' or n.op != '/':
                    continue
                a, b = n.kids[0].strip(), n.kids[1].strip()
                if a.kind == b.kind == 'MemberExpr' and \
                        a.name in ATTR and b.name in ATTR:
                    na = (a.kids[0].strip().ref or {}).get('name', '')
                    nb = (b.kids[0].strip().ref or {}).get('name', '')
                    rep.check(
                        a.name == b.name == 'wstotal' and
                        side(na) == 'Sd' and side(nb) == 'Sr', 'contrast',
                        f'main: {na}.{a.name} / {nb}.{b.name}', n.loc(),
                        'the contrast is not data over random systematic '
                        'weight')
