"""S04: each measurement routine measures and labels what it is named for."""
import itertools
import re

from .. import cxx, mainprog, options, pymeas
from ..absint import NOC, L, V
from ..pysym import NONE, alts, const, isconst, subterms

EXPLANATION = (
    'Every public Python measurement routine is interpreted symbolically, '
    'per normalisation convention, form and save format, through the Cython '
    'bindings down to the call of the C++ routine; the command-line program '
    'is interpreted in a dependency domain for every combination of '
    'statistic, catalogue type, normalisation and form that validation '
    'accepts.  In each run the C++ routine reached, the catalogue each '
    'argument comes from, the parameters and binning in force, the source '
    'of the normalisation factor and the name of the output file must be '
    'those of the statistic.  Within the back end, every call passes data '
    'and random catalogues and their lines of sight to the parameters of '
    'the same role.')

NORMS = ('none', 'particle', 'mesh', 'mesh-mixed')
FORMS = ('full', 'diag', 'off-diag', 'row')
NORMFN = {'particle': 'normalisation_from_particles',
          'mesh': 'normalisation_from_mesh',
          'mesh-mixed': 'normalisation_from_meshes'}
FORMTAG = {'full': 'full', 'diag': 'diag', 'off-diag': 'offdiag',
           'row': 'row'}


def role_of(name):
    for r in ('data', 'rand'):
        if re.search(rf'(^|_){r}(_|$|om)', name or ''):
            return r
    return None


def signature(prog, q, n):
    """Parameter names of a C++ routine called with n arguments."""
    fs = [f for f, tu in prog.by_qual.get(q, []) if len(f.params) >= n]
    fs.sort(key=lambda f: len(f.params))
    return [p.name for p in fs[0].params] if fs else None


# ----------------------------------------------------------- Python layer

def lead(t):
    """Leading literal texts of a file-name term."""
    if t[0] == 'phi':
        return [x for a in t[1] for x in lead(a)]
    if t[0] == 'const':
        return [t[1] if isinstance(t[1], str) else None]
    if t[0] == 'fmt':
        return [x and x.split('{')[0] for x in lead(t[1])]
    if t[0] == 'fstr':
        return lead(t[1][0]) if t[1] else [None]
    if t[0] == 'op' and t[1] == '+':
        return lead(t[2])
    if t[0] == 'op' and t[1] == '%':
        return [x and x.split('%')[0] for x in lead(t[2])]
    if t[0] == 'op' and t[1] == '/':
        return lead(t[3])
    if t[0] == 'call':
        f = t[1]
        if f[0] == 'attr' and f[2] in ('with_suffix', 'resolve', 'absolute',
                                       'expanduser', 'as_posix', 'strip'):
            return lead(f[1])
        if f[0] == 'attr' and f[2] == 'with_name' and t[2]:
            return lead(t[2][0])
        if f[0] == 'attr' and f[2] == 'joinpath' and t[2]:
            return lead(t[2][-1])
        if f[-1] in ('join',) and t[2]:
            return lead(t[2][-1])
        if (f[-1] in ('Path', 'PurePath', 'str', 'fspath') or f == (
                'ext', 'pathlib') or f[0] == 'ext') and t[2]:
            return lead(t[2][-1])
    return [None]


def texts(t):
    return [x[1] for x in subterms(t) if x[0] == 'const' and
            isinstance(x[1], str)]


def pargs(t):
    """Parameters and arguments a term is made from."""
    return {x[2] for x in subterms(t) if x[0] == 'arg'}


def truncates(t):
    """Does the term cut a suffix off text that holds the user's tag?"""
    for x in subterms(t):
        if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] in (
                'with_suffix', 'with_stem') and 'tag' in pargs(x[1][1]):
            # harmless when the text ends in a suffix of its own
            b = x[1][1]
            ends = tail(b)
            if not all(e and re.search(r'\.\w+$', e) for e in ends):
                return x
    return None


def tail(t):
    if t[0] == 'phi':
        return [x for a in t[1] for x in tail(a)]
    if t[0] == 'const':
        return [t[1] if isinstance(t[1], str) else None]
    if t[0] == 'fmt':
        return [x and x.split('}')[-1] for x in tail(t[1])]
    if t[0] == 'fstr':
        return tail(t[1][-1]) if t[1] else [None]
    if t[0] == 'op' and t[1] in ('+', '/'):
        return tail(t[3])
    if t[0] == 'call' and (t[1][0] == 'ext' or t[1][-1] in (
            'Path', 'str')) and t[2]:
        return tail(t[2][-1])
    return [None]


class Py:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        self.nruns = 0

    def scenario(self, name, norm, form, save, wa, given, none=False,
                 zero=False):
        mod, stat, cat = pymeas.ROUTINES[name]
        if wa:
            stat = '3pcf-win-wa'
        tp = mod == 'threept.py'

        def args(p):
            a = {'save': const(save)}
            if zero:
                # zero is a value like any other
                a['degree'] = const(0)
                a['degrees'] = ('tuple', (const(0),) * 3)
                a['idx_bin'] = const(0)
                if wa:
                    a['wa_orders'] = ('tuple', (const(0),) * 2)
                return a
            if given or none:
                a['binning'] = ('arg', name, 'binning')
                a['degree'] = ('arg', name, 'degree')
                a['degrees'] = ('tuple', tuple(
                    ('arg', name, d) for d in ('d1', 'd2', 'D')))
                a['form'] = const(form) if form else NONE
                a['idx_bin'] = ('arg', name, 'idx')
            if none:
                a['paramset'] = NONE
                a['sampling_params'] = p.dict({
                    'boxsize': ('tuple', tuple(
                        ('arg', name, 'L' + x) for x in 'xyz')),
                    'ngrid': ('tuple', tuple(
                        ('arg', name, 'N' + x) for x in 'xyz')),
                    **{k: ('arg', name, 's_' + k) for k in (
                        'alignment', 'assignment', 'interlace')}})
            if wa:
                a['wa_orders'] = ('tuple', (('arg', name, 'wi'),
                                            ('arg', name, 'wj')))
            return a
        ps = {'norm_convention': const(norm)}
        if form and not none:
            ps['form'] = const(form)

        class Sym(pymeas.MeasSym):
            def template(self):
                return self.make_params(**ps)
        p = pymeas.run(name, ps, args, Sym)
        self.nruns += 1
        what = ', '.join(filter(None, [
            norm, form, save, 'wide-angle' if wa else '',
            'zero arguments' if zero else 'arguments' if given else '', 'no paramset' if none else '']))
        self.judge(p, name, mod, stat, cat, norm, form, save, wa,
                   given or none, what, zero)

    def judge(self, p, name, mod, stat, cat, norm, form, save, wa, given,
              what, zero=False):
        rep = self.rep
        where = f'src/triumvirate/{mod}:{name}'
        want = pymeas.BACKEND[stat, cat]
        got = [c for c in p.calls if c[0].startswith('trv::compute_')]
        names = sorted({c[0] for c in got})
        if p.ret is not None and not got:
            if p.st is None:
                rep.undecided('backend', name, where,
                              f'{what}: every path raises an error')
            else:
                rep.undecided('backend', name, where,
                              f'{what}: no back-end call found')
            return
        rep.check(names == [want], 'backend', name, where,
                  f'{what}: runs {", ".join(names)}, expected {want}')
        for c in got:
            if c[0] != want:
                continue
            self.call(p, c, name, where, stat, cat, norm, form, wa, given,
                      what)
            if zero:
                self.zeros(c[4], name, where, form, wa, what)
        fin = [s for s in p.saves]
        if save and p.st is not None:
            kind = {'.txt': ('savetxt',), '.npz': (
                'savez', 'savez_compressed')}[save]
            if not any(s[0] in kind for s in fin):
                rep.undecided('filename', name, where,
                              f'{what}: no file is written')
            for s in fin:
                if s[0] in kind:
                    self.filename(s, name, where, stat, form, what, save)

    def call(self, p, c, name, where, stat, cat, norm, form, wa, given,
             what):
        rep = self.rep
        q, args, kw, node, snap, at = c
        line = f'{where} -> {at[0]}:{getattr(node, "lineno", "?")}'
        # statistic and catalogue type in force
        for k, v in (('statistic_type', stat), ('catalogue_type', cat)):
            t = snap.get(const(k))
            if t is not None and not isconst(t) and any(
                    x == ('op', '==', t, const(v)) and pol
                    for x, pol, _ in p.st.conds if p.st):
                rep.ok('settings', f'{name}/{k}', line)
                continue
            rep.check(t is not None and set(alts(t)) == {const(v)},
                      'settings', f'{name}/{k}', line,
                      f'{what}: {k} is {t and [x[1:] for x in alts(t)]} '
                      f'when the back end runs, expected {v!r}')
        sig = signature(self.prog, q, len(args))
        if sig is None or any(a[0] == 'star' for a in args):
            rep.undecided('arguments', name, line, 'call not understood')
            return
        bound = dict(zip(sig, args))
        for k, v in kw:
            bound[k] = v
        for n, t in bound.items():
            want = role_of(n)
            r = pymeas.roles(t, p.bufs)
            if n == 'params':
                ok = p.pset in set(subterms(t))
                if ok:
                    rep.ok('arguments', f'{name}/{n}', line)
                else:
                    rep.undecided('arguments', f'{name}/{n}', line)
            elif 'binning' in n:
                self.binning(p, t, name, line, stat, given, what)
            elif n == 'norm_factor':
                self.norm(p, t, name, line, stat, cat, norm, what)
            elif n == 'alpha':
                self.alpha(t, name, line, what)
            elif n == 'wide_angle':
                if isconst(t):
                    rep.check(bool(t[1]) == wa, 'arguments',
                              f'{name}/{n}', line,
                              f'{what}: wide-angle flag is {t[1]}')
                else:
                    rep.undecided('arguments', f'{name}/{n}', line)
            elif want:
                if not r:
                    rep.undecided('arguments', f'{name}/{n}', line)
                else:
                    rep.check(r == {want}, 'arguments', f'{name}/{n}', line,
                              f'{what}: argument {n} of {q} is made from '
                              f'the {"/".join(sorted(r))} catalogue')
        if given:
            self.overrides(p, snap, name, line, form, wa, what)

    def zeros(self, snap, name, line, form, wa, what):
        want = [('degrees', 'ELL')]
        if form:
            want += [('degrees', 'ell1'), ('degrees', 'ell2')]
            if form in ('off-diag', 'row'):
                want += [('idx_bin', None)]
        if wa:
            want += [('wa_orders', 'i'), ('wa_orders', 'j')]
        for k, e in want:
            t = snap.get(const(k))
            if e is not None:
                t = (snap.get(('sub', const(k))) or {}).get(const(e))
            cons = f'{name}/{k}' + (f'.{e}' if e else '')
            if t is None:
                self.rep.undecided('overrides', cons, line)
                continue
            self.rep.check(not pargs(t), 'overrides', cons, line,
                           f'{what}: {k}{"." + e if e else ""} = 0 given by '
                           'the caller does not replace the value in the '
                           'parameter set')

    def overrides(self, p, snap, name, line, form, wa, what):
        rep = self.rep

        def sub(k, e):
            o = snap.get(const(k))
            d = snap.get(('sub', const(k)))
            if d is None:
                return o
            return d.get(const(e), d.get(e))
        want = []
        if pymeas.ROUTINES[name][0] == 'twopt.py':
            want += [('degrees', 'ELL', 'degree')]
        else:
            want += [('degrees', 'ell1', 'd1'), ('degrees', 'ell2', 'd2'),
                     ('degrees', 'ELL', 'D')]
            if form in ('off-diag', 'row'):
                want += [('idx_bin', None, 'idx')]
        if wa:
            want += [('wa_orders', 'i', 'wi'), ('wa_orders', 'j', 'wj')]
        if 'no paramset' in what:
            want += [('boxsize', x, 'L' + x) for x in 'xyz']
            want += [('ngrid', x, 'N' + x) for x in 'xyz']
            want += [(k, None, 's_' + k) for k in (
                'alignment', 'assignment', 'interlace')]
        for k, e, a in want:
            t = sub(k, e) if e is not None else snap.get(const(k))
            cons = f'{name}/{k}' + (f'.{e}' if e else '')
            if t is None or t[0] == 'obj':
                rep.undecided('overrides', cons, line)
                continue
            src = {x[2] for x in subterms(t) if x[0] == 'arg' and
                   x[1] == name}
            others = {x[2] for x in want} - {a}
            rep.check(a in src and not src & others, 'overrides', cons, line,
                      f'{what}: the back end runs with {k}'
                      f'{"." + e if e else ""} made from '
                      f'{sorted(src) or "the parameter set"}, not from the '
                      'argument given')
        for k, e, a in (('range', 0, 'bin_min'), ('range', 1, 'bin_max'),
                        ('num_bins', None, 'num_bins')):
            t = sub(k, e) if e is not None else snap.get(const(k))
            cons = f'{name}/{k}' + ('' if e is None else f'[{e}]')
            if t is None:
                rep.undecided('overrides', cons, line)
                continue
            got = {x[2] for x in subterms(t) if x[0] == 'attr' and x[1] == (
                'arg', name, 'binning')}
            if not got and 'binning' in pargs(t):
                rep.undecided('overrides', cons, line)
            else:
                rep.check(got == {a}, 'overrides', cons, line,
                          f'{what}: {k} made from {sorted(got)} when a '
                          'binning is given')

    def binning(self, p, t, name, line, stat, given, what):
        rep, cons = self.rep, f'{name}/binning'
        if given:
            ok = any(x[0] == 'arg' and x[2] == 'binning'
                     for x in subterms(t))
            if ok and not any(x[0] in ('class',) and x[-1] == 'Binning'
                              for x in subterms(t)):
                rep.ok('binning', cons, line)
            else:
                rep.check(ok, 'binning', cons, line,
                          f'{what}: the binning given is not used')
            return
        ctor = [x for x in subterms(t) if x[0] == 'call' and any(
            y[-1] == 'Binning' for y in subterms(x[1])
            if y[0] == 'class')]
        if not ctor:
            rep.undecided('binning', cons, line)
            return
        for x in ctor:
            made = p.binnings.get(x)
            if made is None:
                rep.undecided('binning', cons, line)
                continue
            for st in made:
                if isinstance(st, str):
                    rep.check(st == pymeas.SPACE[stat], 'binning', cons,
                              line, f'{what}: binning is in {st} space')
                elif st is None:
                    rep.undecided('binning', cons, line)
                else:
                    rep.check(set(alts(st)) == {const(stat)}, 'binning',
                              cons, line, f'{what}: the binning is built '
                              'while the statistic is '
                              f'{[a[1:] for a in alts(st)]}')

    def norm(self, p, t, name, line, stat, cat, norm, what):
        rep, cons = self.rep, f'{name}/norm_factor'
        if norm == 'none':
            if isconst(t):
                rep.check(t[1] == 1, 'normalisation', cons, line,
                          f'{what}: normalisation factor {t[1]} is used')
            else:
                rep.bad('normalisation', cons, line,
                        f'{what}: a computed normalisation factor is used')
            return
        src = set()
        for x in alts(t):
            got = {p.ext[y[1][1]].split('::')[-1] for y in subterms(x)
                   if y[0] == 'call' and y[1][0] == 'name' and
                   y[1][1] in p.ext and 'calc_' in p.ext[y[1][1]]}
            src.add(' and '.join(sorted(got)) or 'no calculation')
        pre = 'calc_' + ('powspec' if pymeas.NPOINT[stat] == '2pt'
                         else 'bispec') + '_'
        rep.check(src == {pre + NORMFN[norm]}, 'normalisation', cons, line,
                  f'{what}: normalisation factor comes from '
                  f'{", ".join(sorted(src))}, expected {pre}{NORMFN[norm]}')
        for y in subterms(t):
            if y[0] == 'call' and y[1][0] == 'name' and y[1][1] in p.ext:
                q = p.ext[y[1][1]]
                if 'calc_' not in q:
                    continue
                sig = signature(self.prog, q, len(y[2]))
                if sig is None:
                    continue
                for n, a in [*zip(sig, y[2]), *y[3]]:
                    if n == 'alpha':
                        self.alpha(a, name, line, what)
                        continue
                    want = role_of(n)
                    if want is None and n in ('particles', 'catalogue'):
                        want = 'data' if cat == 'sim' else 'rand'
                    r = pymeas.roles(a, p.bufs)
                    if want and r:
                        rep.check(r == {want}, 'normalisation',
                                  f'{name}/{q.split("::")[-1]}/{n}', line,
                                  f'{what}: {n} of {q} is the '
                                  f'{"/".join(sorted(r))} catalogue')

    def alpha(self, t, name, line, what):
        cons = f'{name}/alpha'
        if isconst(t):
            self.rep.check(t[1] == 1, 'normalisation', cons, line,
                           f'{what}: alpha is {t[1]}')
            return
        r = pymeas.roles(t)
        if t[0] == 'op' and t[1] == '/' and r == {'data', 'rand'}:
            a, b = pymeas.roles(t[2]), pymeas.roles(t[3])
            if len(a) == len(b) == 1:
                self.rep.check((a, b) == ({'data'}, {'rand'}),
                               'normalisation', cons, line,
                               f'{what}: alpha is the ratio of '
                               f'{a.pop()} to {b.pop()} weights')
                return
        self.rep.undecided('normalisation', cons, line)

    def filename(self, s, name, where, stat, form, what, save):
        rep = self.rep
        fn, args, kw, node, snap = s
        line = f'{where}:{getattr(node, "lineno", "?")}'
        t = args[0] if args else dict(kw).get('fname', dict(kw).get('file'))
        if t is None:
            rep.undecided('filename', name, line)
            return
        ls = lead(t)
        if any(x is None or x == '' for x in ls):
            rep.undecided('filename', f'{name}/prefix', line)
        else:
            pre = {re.match(r'[A-Za-z]*', x).group() for x in ls}
            rep.check(pre == {pymeas.PREFIX[stat]}, 'filename',
                      f'{name}/prefix', line,
                      f'{what}: file name starts with {sorted(pre)}, '
                      f'expected {pymeas.PREFIX[stat]!r}')
        tx = ' '.join(texts(t))
        pa = pargs(t)
        known = 'ELL' in pa or 'D' in pa or 'degree' in pa
        if known:
            rep.check('tag' in pa, 'filename', f'{name}/tag', line,
                      f'{what}: the output tag is not in the file name')
            if form:
                miss = [d for d, e in (('ell1', 'd1'), ('ell2', 'd2'))
                        if d not in pa and e not in pa]
                rep.check(not miss, 'filename', f'{name}/degrees', line,
                          f'{what}: {miss} missing from the file name')
                tags = {f for f in FORMS if re.search(
                    r'(?<![a-z])' + FORMTAG[f], tx)}
                if not tags:
                    rep.undecided('filename', f'{name}/form', line)
                else:
                    rep.check(tags == {form}, 'filename', f'{name}/form',
                              line, f'{what}: file name says {tags}')
                if form in ('off-diag', 'row'):
                    rep.check('idx_bin' in pa or 'idx' in pa, 'filename',
                              f'{name}/idx_bin', line,
                              f'{what}: bin index missing from file name')
            if stat == '3pcf-win-wa':
                rep.check('_wa' in tx and {'i_wa', 'wi'} & pa and
                          {'j_wa', 'wj'} & pa, 'filename',
                          f'{name}/wide-angle', line,
                          f'{what}: wide-angle orders missing from the file '
                          'name')
        else:
            rep.undecided('filename', f'{name}/degrees', line)
        x = truncates(t)
        rep.check(x is None, 'filename', f'{name}/suffix', line,
                  f'{what}: the part of the output tag after a dot is cut '
                  'off by with_suffix, so files of different tags overwrite '
                  'each other')

    def run(self, tier):
        for name, (mod, stat, cat) in pymeas.ROUTINES.items():
            forms = FORMS if mod == 'threept.py' else (None,)
            norms = [n for n in NORMS if n != 'mesh-mixed' or (
                mod == 'twopt.py' and cat == 'survey')]
            was = (False, True) if stat == '3pcf-win' else (False,)
            for i, (n, f) in enumerate(itertools.product(norms, forms)):
                for wa in was:
                    for save in ('.txt', '.npz'):
                        self.scenario(name, n, f, save, wa, False)
                    self.scenario(name, n, f, '.txt', wa, True)
                    self.scenario(name, n, f, '.txt', wa, False, True)
                    if n == norms[0]:
                        self.scenario(name, n, f, '.txt', wa, False,
                                      zero=True)


def hook_binning():
    """Record the statistic in force when a binning is made."""
    old = pymeas.MeasSym.on_call

    def on_call(self, f, args, kw, node):
        r = old(self, f, args, kw, node)
        cl = [x for x in subterms(f) if x[0] == 'class' and
              x[-1] == 'Binning']
        if r is None and cl and self.pset is not None:
            t = ('call', f, tuple(args), tuple(kw))
            if any(self.pset == a for a in args) or any(
                    v == self.pset for _, v in kw):
                w = self.pget('statistic_type')
            else:
                sp = args[0] if args else dict(kw).get('space')
                if sp is not None and isconst(sp):
                    w = sp[1]
                elif sp is not None and sp[0] == 'item':
                    w = None
                else:
                    w = None
            self.binnings.setdefault(t, []).append(w)
            return t
        return r
    init = pymeas.MeasSym.__init__

    def __init__(self):
        init(self)
        self.binnings = {}
    return on_call, __init__


# ------------------------------------------------------------ C++ program

def main_program(rep, prog):
    rows = []
    for stat in pymeas.NPOINT:
        for cat in ('survey', 'random', 'sim'):
            for norm in NORMS:
                forms = FORMS if pymeas.NPOINT[stat] == '3pt' else ('diag',)
                for form in forms:
                    g = options.run(prog, {
                        'catalogue_type': cat, 'statistic_type': stat,
                        'norm_convention': norm, 'form': form})
                    if g is not None:
                        rows.append((stat, cat, norm, form, g))
    rep.analysed['main_program_scenarios'] = len(rows)
    where = 'src/triumvirate/main/triumvirate.cpp:main'
    for stat, cat, norm, form, g in rows:
        m = mainprog.run(prog, g)
        norm = g.get('norm_convention') or norm
        what = f'{stat}, {cat}, {norm}, {form}'
        tp = pymeas.NPOINT[stat] == '3pt'
        got = [c for c in m.calls if c[0].split('::')[-1].startswith(
            'compute_')]
        want = pymeas.BACKEND.get((stat, cat))
        if want is None:
            continue
        names = sorted({c[0] for c in got})
        cons = f'main/{stat}/{cat}'
        if not got:
            rep.undecided('backend', cons, where, 'no back-end call found')
            continue
        rep.check(names == [want], 'backend', cons, where,
                  f'{what}: runs {", ".join(names)}, expected {want}')
        for c in got:
            if c[0] == want:
                main_call(rep, prog, m, c, cons, what, stat, cat, norm)
        for c in m.calls:
            if '::calc_' in c[0] and 'normalisation' in c[0]:
                main_norm_call(rep, prog, c, cons, what, cat)
        main_file(rep, m, cons, what, stat, form if tp else None, want)


def objrole(tags):
    o = {x[1] for x in tags if x[0] == 'obj' and x[1] in ('data', 'rand')}
    return o or {x[1] for x in tags if x[0] == 'role'}


def main_call(rep, prog, m, c, cons, what, stat, cat, norm):
    q, tags, vals, node = c
    sig = signature(prog, q, len(tags))
    where = node.loc()
    if sig is None:
        rep.undecided('arguments', cons, where)
        return
    for n, t, v in zip(sig, tags, vals):
        want = role_of(n)
        if n == 'params':
            ok = ('obj', 'params') in t
            if ok:
                rep.ok('arguments', f'{cons}/{n}', where)
            else:
                rep.undecided('arguments', f'{cons}/{n}', where)
        elif 'binning' in n:
            if ('obj', 'binning') in t:
                rep.ok('binning', cons, where)
            else:
                rep.undecided('binning', cons, where)
        elif n == 'norm_factor':
            src = {x[1] for x in t if x[0] == 'from'}
            if norm == 'none':
                known = isinstance(v, V) and v.c is not NOC
                if src or known:
                    rep.check(not src and v.c == 1, 'normalisation',
                              f'{cons}/norm_factor', where,
                              f'{what}: normalisation factor from '
                              f'{sorted(src) or v.c}')
                else:
                    rep.undecided('normalisation', f'{cons}/norm_factor',
                                  where)
            else:
                fn = ('calc_powspec_' if pymeas.NPOINT[stat] == '2pt' else
                      'calc_bispec_') + NORMFN[norm]
                rep.check(src == {fn}, 'normalisation',
                          f'{cons}/norm_factor', where,
                          f'{what}: normalisation factor from '
                          f'{sorted(src)}, expected {fn}')
        elif n == 'alpha':
            main_alpha(rep, t, v, cons, where, what)
        elif n == 'wide_angle':
            if isinstance(v, V) and v.c is not NOC:
                rep.check(bool(v.c) == (stat == '3pcf-win-wa'), 'arguments',
                          f'{cons}/{n}', where,
                          f'{what}: wide-angle flag is {v.c}')
            else:
                rep.undecided('arguments', f'{cons}/{n}', where)
        elif want:
            r = objrole(t)
            if r:
                rep.check(r == {want}, 'arguments', f'{cons}/{n}', where,
                          f'{what}: argument {n} of {q} is made from the '
                          f'{"/".join(sorted(r))} catalogue')
            elif isinstance(v, L) and v.loc is not None and len(
                    v.loc) == 1 and v.loc[0] not in m.origin and any(
                        r == want for r in m.origin.values()):
                rep.bad('arguments', f'{cons}/{n}', where,
                        f'{what}: argument {n} of {q} is a catalogue that '
                        'was never loaded')
            else:
                rep.undecided('arguments', f'{cons}/{n}', where)


def main_alpha(rep, t, v, cons, where, what):
    r = {x[1] for x in t if x[0] == 'role'}
    q = {x[1] for x in t if x[0] == 'ratio'}
    if q:
        rep.check(q == {'data/rand'}, 'normalisation', f'{cons}/alpha',
                  where, f'{what}: alpha is the ratio {sorted(q)}')
    elif not r and isinstance(v, V) and v.c is not NOC:
        rep.check(v.c == 1, 'normalisation', f'{cons}/alpha', where,
                  f'{what}: alpha is {v.c}')
    else:
        rep.undecided('normalisation', f'{cons}/alpha', where)


def main_norm_call(rep, prog, c, cons, what, cat):
    q, tags, vals, node = c
    sig = signature(prog, q, len(tags))
    for n, t, v in zip(sig or (), tags, vals):
        if n == 'alpha':
            main_alpha(rep, t, v, cons, node.loc(), what)
            continue
        want = role_of(n)
        if want is None and n in ('particles', 'catalogue'):
            want = 'data' if cat == 'sim' else 'rand'
        r = objrole(t)
        if want and r:
            rep.check(r == {want}, 'normalisation',
                      f'{cons}/{q.split("::")[-1]}/{n}', node.loc(),
                      f'{what}: {n} is the {"/".join(sorted(r))} catalogue')


def main_file(rep, m, cons, what, stat, form, want):
    tabs = [c for c in m.calls if 'print_measurement_datatab' in c[0]]
    heads = [c for c in m.calls if 'print_measurement_header' in c[0]]
    where = 'src/triumvirate/main/triumvirate.cpp:main'
    if not tabs:
        rep.undecided('filename', cons, where, 'no table is written')
        return
    for q, tags, vals, node in tabs:
        src = {x[1] for t in tags for x in t if x[0] == 'from'}
        rep.check(src == {want.split('::')[-1]}, 'filename',
                  f'{cons}/table', node.loc(),
                  f'{what}: the table printed comes from {sorted(src)}')
        ft = tags[0]
        fs = [x for x in ft if x[0] == 'fmt']
        hf = [h[1][0] for h in heads]
        if heads:
            rep.check(all({x for x in h if x[0] == 'file'} ==
                          {x for x in ft if x[0] == 'file'} for h in hf),
                      'filename', f'{cons}/header', node.loc(),
                      f'{what}: header and table go to different files')
        if not fs or any(f[1] is None for f in fs):
            rep.undecided('filename', f'{cons}/name', node.loc())
            continue
        for _, fmt, parts in fs:
            base = fmt.split('/')[-1]
            pre = re.match(r'[A-Za-z]*', base).group()
            rep.check(pre == pymeas.PREFIX[stat], 'filename',
                      f'{cons}/prefix', node.loc(),
                      f'{what}: file name format {fmt!r}, expected prefix '
                      f'{pymeas.PREFIX[stat]!r}')
            if form:
                txt = base + ' ' + ' '.join(p for p in parts if p)
                tags_ = {f for f in FORMS if re.search(
                    r'(?<![a-z])' + FORMTAG[f], txt)}
                if tags_:
                    rep.check(tags_ == {form}, 'filename', f'{cons}/form',
                              node.loc(), f'{what}: file name says {tags_}')
                else:
                    rep.undecided('filename', f'{cons}/form', node.loc())
        pa = {x[1] for x in ft if x[0] == 'param'}
        need = {'ELL', 'output_tag', 'measurement_dir'}
        if form:
            need |= {'ell1', 'ell2'}
            if form in ('off-diag', 'row'):
                need |= {'idx_bin'}
        if stat == '3pcf-win-wa':
            need |= {'i_wa', 'j_wa'}
        rep.check(need <= pa, 'filename', f'{cons}/parts', node.loc(),
                  f'{what}: {sorted(need - pa)} missing from the file name')


# --------------------------------------------------------------- back end

def strip_ref(n):
    """The declaration an argument refers to, through casts and
    dereferences."""
    while True:
        n = n.strip()
        if n.kind == 'UnaryOperator' and n.d.get('opcode') in ('*', '&') \
                and n.kids:
            n = n.kids[0]
            continue
        break
    if n.kind == 'DeclRefExpr':
        return (n.d.get('referencedDecl') or {}).get('id')
    return None


KINDS = ('ParticleCatalogue', 'LineOfSight')


def kind_of(p):
    t = (p.d.get('type') or {}).get('qualType', '') if hasattr(p, 'd') \
        else ''
    for k in KINDS:
        if k in t:
            return k
    return None


def backend_roles(rep, prog):
    """Flow of catalogues and lines of sight through back-end calls."""
    roles = {}          # (function key, param index) -> {role: site}
    work = []
    for q in set(pymeas.BACKEND.values()) | {
            'trv::calc_powspec_normalisation_from_meshes'}:
        for f, tu in prog.by_qual.get(q, []):
            if f.body is None:
                continue
            for i, p in enumerate(f.params):
                r = role_of(p.name)
                if kind_of(p) and r:
                    roles[f.key, i] = {r: f'{q} (entry)'}
            work.append((f, tu))
    seen = set()
    ncalls = 0
    while work:
        f, tu = work.pop()
        sigk = (f.key, tuple(sorted(
            (i, r) for (k, i), rs in roles.items() if k == f.key
            for r in rs)))
        if sigk in seen:
            continue
        seen.add(sigk)
        mine = {}
        for i, p in enumerate(f.params):
            rs = roles.get((f.key, i))
            if rs:
                mine[p.d.get('id')] = set(rs)
        # references and pointers bound once to a parameter
        for n in f.body.walk():
            if n.kind == 'VarDecl' and kind_of(n) and n.kids and (
                    '&' in n.type or '*' in n.type):
                d = strip_ref(n.kids[-1])
                if d in mine:
                    mine[n.d.get('id')] = set(mine[d])
        for n in f.body.walk():
            if n.kind not in ('CallExpr', 'CXXMemberCallExpr'):
                continue
            decl, name = tu.callee(n)
            d = prog.definition(decl) if decl is not None else None
            if d is None:
                continue
            g, gtu = d
            args = n.kids[1:]
            new = False
            got = []
            for i, (a, p) in enumerate(zip(args, g.params)):
                k = kind_of(p)
                if not k:
                    continue
                rs = mine.get(strip_ref(a))
                got.append((i, k, p, rs))
                if rs:
                    for r in rs:
                        if r not in roles.setdefault((g.key, i), {}):
                            roles[g.key, i][r] = n.loc()
                            new = True
            if not got:
                continue
            ncalls += 1
            cons = f'{f.qual} -> {g.qual}'
            for i, k, p, rs in got:
                want = role_of(p.name)
                if not rs:
                    rep.undecided('roles', f'{cons}/{p.name}', n.loc())
                elif want:
                    rep.check(rs == {want}, 'roles', f'{cons}/{p.name}',
                              n.loc(), f'parameter {p.name} is given the '
                              f'{"/".join(sorted(rs))} argument')
            # the same role for catalogues and their lines of sight
            cs = [rs for i, k, p, rs in got if k == KINDS[0]]
            ls = [rs for i, k, p, rs in got if k == KINDS[1]]
            if len(cs) == len(ls) and cs:
                for a, b in zip(cs, ls):
                    if a and b:
                        rep.check(a == b, 'roles', f'{cons}/los', n.loc(),
                                  f'{"/".join(sorted(a))} catalogue with '
                                  f'{"/".join(sorted(b))} lines of sight')
            if len(cs) == 2 and cs[0] and cs[1]:
                rep.check(cs[0] != cs[1], 'roles', f'{cons}/pair', n.loc(),
                          'both catalogues are the same')
            if new or (g.key, ()) not in seen:
                work.append((g, gtu))
    rep.analysed['backend_role_calls'] = ncalls


def check(rep, tier):
    prog = cxx.Program()
    rep.rule('backend', 'the routine of the statistic and catalogue type '
             'is the one run')
    rep.rule('settings', 'the parameter set names the statistic and '
             'catalogue type when the back end runs')
    rep.rule('arguments', 'catalogues, lines of sight and flags reach the '
             'parameter of their role')
    rep.rule('overrides', 'arguments given by the caller are the values the '
             'back end runs with')
    rep.rule('binning', 'the binning is the one given, or is made for the '
             'statistic')
    rep.rule('normalisation', 'the normalisation factor is that of the '
             'chosen convention, from the right catalogue')
    rep.rule('filename', 'the output file is named after the statistic, '
             'multipole, form and tag')
    rep.rule('roles', 'back-end calls keep data and random apart')
    on_call, init = hook_binning()
    saved = pymeas.MeasSym.on_call, pymeas.MeasSym.__init__
    pymeas.MeasSym.on_call, pymeas.MeasSym.__init__ = on_call, init
    try:
        py = Py(rep, prog)
        py.run(tier)
    finally:
        pymeas.MeasSym.on_call, pymeas.MeasSym.__init__ = saved
    rep.analysed['python_runs'] = py.nruns
    main_program(rep, prog)
    backend_roles(rep, prog)
    rep.need('backend', 30)
    rep.need('settings', 30)
    rep.need('arguments', 60)
    rep.need('normalisation', 60)
    rep.need('filename', 60)
    rep.need('roles', 20)
