"""Y04: results keep their labels from the back end to Python to file."""
import ast
import re
import string
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import cxx, cy2py, mainprog, options, pymeas, pysym
from ..absint import NOC, L, P, V
from ..pysym import NONE, const, isconst, subterms
from ..taint import E0, TaintDomain, TaintInterp
from . import s01

EXPLANATION = (
    'Four analyses, one per hand-over.  Inside the back end a provenance '
    'interpretation of every measurement routine says whether each result '
    'vector is filled from bin centres, effective coordinates, counts, raw '
    'signal or shot noise.  The Python routines are interpreted '
    'symbolically down to the bound call: each entry of the returned (and '
    'saved) mapping must be the back-end field of that name, and every '
    'vector field must be passed on.  The table and header that are written '
    'to file, by Python and by the C++ writers, are computed symbolically: '
    'column n of the table must be the field and part that header entry n '
    'names, in equal number.  Normalisation factors in headers must be the '
    'ones their labels say.')

# header name without degrees -> (field, part)
COLS = {'k_cen': 'kbin', 'k_eff': 'keff', 'nmodes': 'nmodes',
        'r_cen': 'rbin', 'r_eff': 'reff', 'npairs': 'npairs'}
for _i in '12':
    for _c in 'kr':
        COLS[f'{_c}{_i}_cen'] = f'{_c}{_i}_bin'
        COLS[f'{_c}{_i}_eff'] = f'{_c}{_i}_eff'
    COLS[f'nmodes_{_i}'] = f'nmodes_{_i}'
    COLS[f'npairs_{_i}'] = f'npairs_{_i}'
VECS = {'bin_index': 'indices', 'bin_lower': 'lower_edges',
        'bin_upper': 'upper_edges', 'vec_x': 'vecx', 'vec_y': 'vecy',
        'vec_z': 'vecz'}
PYVECS = {'index': 'indices', 'lower_edge': 'lower_edges',
          'upper_edge': 'upper_edges', 'vecx': 'vecx', 'vecy': 'vecy',
          'vecz': 'vecz'}
DEG = {'ell1': 1, 'ell2': 2, 'ELL': 3}
NORMSRC = {'part': 'from_particles', 'mesh': 'from_mesh',
           'meshes': 'from_meshes'}
NORMLABEL = {'particle': 'part', 'mesh': 'mesh', 'mesh-mixed': 'meshes'}


DIRECTIVE = r'%[-+ #0]*\d*(?:\.\d+)?[lhz]*[diouxXeEfFgGs]'


def column(name, three):
    """(field, part) a header entry stands for, or None."""
    if name in COLS:
        return COLS[name], None
    m = re.fullmatch(r'(Re|Im)\{(pk|xi|bk|zeta)(\d+)(_raw|_shot)?\}', name)
    if not m:
        return None
    deg = '123' if m[2] in ('bk', 'zeta') else '3'
    if m[3] != deg:
        return ('degrees', m[3], deg)
    return m[2] + (m[4] or ''), 'real' if m[1] == 'Re' else 'imag'


def header_names(text):
    return re.findall(r'\[\d+\] ([^,\n]+)', text), \
        [int(i) for i in re.findall(r'\[(\d+)\] ', text)]


# ------------------------------------------------------------ inside C++

class Kinds(s01.Prov):
    def initial(self, loc, node):
        v = super().initial(loc, node)
        if len(loc) >= 3 and self.st.get(loc[:-2] + ('#tags',)) is not None:
            return V(v.c, frozenset([('grp', s01.flat(v.d or s01.EMPTY) | {
                ('mem', loc[-2])})]))
        return v

    def __init__(self, *a):
        super().__init__(*a)
        for q in self.prog.by_qual:
            if q.startswith('trv::MeshField::') and not q.endswith(
                    'operator[]'):
                self.models[q] = self.m_kfield

    @staticmethod
    def m_kfield(ai, n, args, this, decl):
        r = s01.Prov.m_field(ai, n, args, this, decl)
        for k in (0, 1):
            c = ai.st.get(this + ('#cell', k))
            if c is not None:
                ai.st.set(this + ('#cell', k), V(NOC, frozenset(
                    [('grp', s01.flat(c.d) | {('mem', 'field')})])))
        return r

    def outargs(self, n, decl, v):
        for p, a in zip(decl.params, n.kids[1:]):
            t = (p.desugared or p.type or '').rstrip()
            if t.endswith('&') and 'const' not in t and \
                    s01.clean(t) in s01.NUMS:
                what = 'count' if s01.clean(t) in (
                    'int', 'long', 'long long', 'unsigned long') else 'eff'
                self.write(self.lv(a), V(NOC, frozenset(
                    [('grp', s01.flat(v.d) | {('mem', what)})])), n)


KIND = (
    (r'[kr][12]?_?bin', 'bin centre', lambda k: k == {'centre'}),
    (r'[kr][12]?_?eff', 'effective coordinate',
     lambda k: bool(k & {'k', 'r', 'eff'}) and not k & {
         'nmodes', 'npairs', 'count', 'pk', 'sn', 'xi', 'field'}),
    (r'(nmodes|npairs)(_[12])?', 'count',
     lambda k: bool(k & {'nmodes', 'npairs', 'count'}) and not k & {
         'k', 'r', 'eff', 'pk', 'sn', 'xi', 'field', 'centre'}),
    (r'(pk|bk|zeta)_raw|xi', 'raw signal',
     lambda k: bool(k & {'pk', 'xi', 'field'}) and 'sn' not in k),
    (r'pk_shot', 'shot noise', lambda k: 'sn' in k and not k & {
        'pk', 'field'}),
    (r'(bk|zeta)_shot', 'shot noise',
     lambda k: bool(k & {'pk', 'sn', 'xi'}) and 'field' not in k),
)
_PROG = None


def kinds_work(name):
    sys.setrecursionlimit(20000)
    f, tu = _PROG.by_qual['trv::' + name][0]
    ai = Kinds(_PROG, 3, 'full', 0, (0, 0, 0))
    args = []
    for p in f.params:
        t = (p.desugared or p.type or '')
        if 'ParameterSet' in t:
            args.append(L(ai.par))
        elif 'Binning' in t:
            args.append(L(ai.bin))
        elif 'ParticleCatalogue' in t:
            args.append(L(ai.new('in:' + (p.name or ''))))
        elif 'LineOfSight' in t:
            args.append(P(ai.new('in:' + (p.name or '')), V(0, s01.EMPTY)))
        elif t.replace('const ', '').strip() == 'bool':
            args.append(V(False, s01.EMPTY))
        else:
            args.append(V(NOC, s01.EMPTY))
    r = ai.invoke(f, tu, args, None, f.node)
    rows = []
    if not isinstance(r, L) or ai.st is None:
        return [(None, name, f.loc(), 'no result')]
    for fld in vectors(_PROG, f):
        got = set()
        for rel, v in ai.st.under(r.loc + (fld,)):
            if isinstance(v, V) and v.d:
                for t in s01.flat(v.d):
                    if t[0] == 'mem':
                        got.add(t[1])
                    elif t[0] in ('centre', 'edge'):
                        got.add(t[0])
        for pat, what, ok in KIND:
            if re.fullmatch(pat, fld):
                cons = f'{name} .{fld}'
                if not got:
                    rows.append((None, cons, f.loc(), 'source not found'))
                else:
                    rows.append((ok(got), cons, f.loc(),
                                 f'{name}: {fld} ({what}) is filled from '
                                 f'{", ".join(sorted(got))}'))
    return rows


def dims_work(job):
    """Dimension (first or second bin) of each three-point result vector."""
    s01._PROG = _PROG
    rows = []
    for r in s01.work(job):
        if r[0] == 'layout':
            rows.append((r[1], r[2], r[3], r[4]))
    return rows


def vectors(prog, f):
    """Names of the vector fields of the record a routine returns."""
    t = (f.type or '').split('(')[0].replace('trv::', '').strip()
    r = prog.records.get('trv::' + t)
    if r is None:
        return []
    rec = r[0]
    return [k.name for k in rec.fields if 'vector' in (
        k.desugared or k.type or '')]


# ------------------------------------------------------------ Python layer

class PyRun(pymeas.MeasSym):
    def make_params(self, **g):
        if 'degrees' not in g:
            g['degrees'] = self.dict({k: const(v) for k, v in DEG.items()})
        return super().make_params(**g)

    def on_call(self, f, args, kw, node):
        r = super().on_call(f, args, kw, node)
        if r is None and f[0] == 'attr' and f[2] == 'format' and isconst(
                f[1]) and isinstance(f[1][1], str):
            return ('fmt2', f[1][1], tuple(args), tuple(kw))
        return r


class Render:
    """Pieces of a text term: literal strings and ('val', term, spec)."""

    def __init__(self, p):
        self.p = p

    def seq(self, t):
        xs = self.p.items(t)
        if xs is None and t[0] == 'phi' and len({
                tuple(self.p.items(x) or ()) for x in t[1]}) == 1:
            xs = self.p.items(next(iter(t[1])))
        return xs

    def text(self, t):
        if t[0] == 'const':
            return [str(t[1])]
        if t[0] == 'fmt2':
            return self.fmt(t[1], list(t[2]), dict(t[3]))
        if t[0] == 'fstr':
            out = []
            for x in t[1]:
                out += self.text(x)
            return out
        if t[0] == 'fval':
            return [('val', t[1], '')]
        if t[0] == 'op' and t[1] == '+':
            return self.text(t[2]) + self.text(t[3])
        if t[0] == 'op' and t[1] == '%' and isconst(t[2]):
            args = list(t[3][1]) if t[3][0] == 'tuple' else [t[3]]
            return self.percent(t[2][1], args)
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'join' and \
                isconst(t[1][1]) and len(t[2]) == 1:
            xs = self.seq(t[2][0])
            if xs is not None:
                out = []
                for i, x in enumerate(xs):
                    if i:
                        out.append(t[1][1][1])
                    out += self.text(x)
                return out
        if t[0] == 'call' and t[1] == ('name', 'str') and len(t[2]) == 1:
            return self.text(t[2][0])
        return [('val', t, '')]

    def fmt(self, f, args, kw):
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(f):
            if lit:
                out.append(lit)
            if field is None:
                continue
            if field == '':
                k, auto = auto, auto + 1
            elif field.isdigit():
                k = int(field)
            else:
                k = field
            v = kw.get(k) if isinstance(k, str) else (
                args[k] if k < len(args) and not any(
                    a[0] == 'star' for a in args[:k + 1]) else None)
            if v is None:
                out.append(('val', pysym.UNK, spec))
            elif isconst(v):
                try:
                    out.append(format(v[1], spec or ''))
                except Exception:
                    out.append(('val', v, spec))
            else:
                x = self.text(v)
                out += [('val', p[1], spec) if not isinstance(p, str) else p
                        for p in x]
        return out

    def percent(self, f, args):
        out, k = [], 0
        for m in re.finditer(r'%(?:%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])|[^%]+',
                             f):
            s = m[0]
            if s == '%%':
                out.append('%')
            elif s[0] == '%':
                v = args[k] if k < len(args) else pysym.UNK
                k += 1
                out += [s % v[1]] if isconst(v) else [('val', v, s[1:])]
            else:
                out.append(s)
        return out

    def lines(self, t):
        out = [[]]
        for p in self.text(t):
            if isinstance(p, str):
                parts = p.split('\n')
                for i, s in enumerate(parts):
                    if i:
                        out.append([])
                    if s:
                        out[-1].append(s)
            else:
                out[-1].append(p)
        return out

    # ---- evaluation of format expressions
    def value(self, t, ncol, tab):
        if isconst(t):
            return t[1]
        if t[0] == 'obj' or t[0] in ('list', 'tuple'):
            xs = self.seq(t)
            if xs is None:
                raise ValueError
            return [self.value(x, ncol, tab) for x in xs]
        if t[0] == 'op' and t[1] in '+-*' and len(t) == 4:
            a, b = self.value(t[2], ncol, tab), self.value(t[3], ncol, tab)
            return a + b if t[1] == '+' else a - b if t[1] == '-' else a * b
        if t[0] == 'item' and t[1] == ('attr', tab, 'shape') and isconst(
                t[2]) and t[2][1] in (-1, 1):
            return ncol
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'join':
            return self.value(t[1][1], ncol, tab).join(
                self.value(t[2][0], ncol, tab))
        if t[0] == 'call' and t[1] == ('name', 'len'):
            if t[2][0] == ('attr', tab, 'T'):
                return ncol
            return len(self.value(t[2][0], ncol, tab))
        raise ValueError


WRAP = {'asarray', 'array', 'copy', 'ascontiguousarray', 'squeeze', 'ravel',
        'asfortranarray', 'atleast_1d', 'astype', 'flatten'}


def source(p, t):
    """(field, part) of the back-end result a term is, or None."""
    part = None
    for _ in range(20):
        if t[0] == 'phi':
            got = {source(p, x) for x in t[1]}
            r = got.pop()
            return r if not got and part is None else None
        if t[0] == 'call' and t[1][-1] in WRAP:
            if t[1][0] == 'attr' and not t[2]:
                t = t[1][1]
            elif t[1][0] == 'attr' and t[1][-1] == 'astype':
                t = t[1][1]
            elif t[2]:
                t = t[2][0]
            continue
        if t[0] == 'call' and t[1][-1] in ('real', 'imag') and t[2]:
            part = part or t[1][-1]
            t = t[2][0]
            continue
        if t[0] == 'attr' and t[2] in ('real', 'imag'):
            part = part or t[2]
            t = t[1]
            continue
        if t[0] == 'attr' and t[2] == 'T':
            t = t[1]
            continue
        break
    if t[0] == 'attr' and any(c[0] == t[1] for c in p.results):
        return t[2], part
    return None


def columns(p, t):
    """Terms of the columns of a table term, or None."""
    for _ in range(10):
        if t[0] == 'attr' and t[2] == 'T':
            xs = p.items(t[1][2][0]) if t[1][0] == 'call' and t[1][2] else \
                None
            return xs
        if t[0] == 'call' and t[1][-1] in ('transpose', 'column_stack',
                                           'stack') and t[2]:
            a = t[2][0]
            if t[1][-1] == 'stack' and (('axis', const(1)) not in t[3] and (
                    'axis', const(-1)) not in t[3]):
                return None
            for _ in range(4):
                if a[0] == 'call' and a[1][-1] in WRAP | {
                        'vstack', 'row_stack', 'stack'} and a[2]:
                    a = a[2][0]
            return p.items(a)
        if t[0] == 'call' and t[1][-1] in WRAP and t[2]:
            t = t[2][0]
            continue
        return None
    return None


class PyResults(PyRun):
    """Also records the terms of the back-end results."""

    def __init__(self):
        super().__init__()
        self.results = []

    def on_call(self, f, args, kw, node):
        r = super().on_call(f, args, kw, node)
        if f[0] == 'name' and f[-1] in self.ext and \
                self.ext[f[-1]] in set(pymeas.BACKEND.values()):
            t = r if r is not None else ('call', f, tuple(args), tuple(kw))
            self.results.append((t, self.ext[f[-1]], tuple(args)))
        return r


def python(rep, prog):
    for name in sorted(pymeas.ROUTINES):
        mod, stat, cat = pymeas.ROUTINES[name]
        for norm in ('none', 'particle', 'mesh', 'mesh-mixed'):
            if norm == 'mesh-mixed' and cat != 'survey':
                continue
            for save in ('.txt', '.npz'):
                if save == '.npz' and norm != 'none':
                    continue
                given = {'norm_convention': const(norm),
                         'form': const('full')}
                try:
                    p = pymeas.run(name, given, {'save': const(save)},
                                   PyResults)
                except (RecursionError, KeyError, IndexError, TypeError,
                        AttributeError) as e:
                    rep.undecided('entries', name, mod, repr(e)[:80])
                    continue
                routine(rep, prog, p, name, mod, stat, norm, save)


def routine(rep, prog, p, name, mod, stat, norm, save):
    where = f'{mod}:{p.mods[mod].funcs[name].lineno}'
    items = entries(p, p.ret)
    if items is None or not p.results:
        rep.undecided('entries', name, where, 'returned mapping not followed')
        return
    q = p.results[-1][1]
    fs = [f for f, tu in prog.by_qual.get(q, []) if f.body is not None]
    fields = set(vectors(prog, fs[0])) if fs else set()
    keys = set()
    for k, v in items.items():
        if not isconst(k):
            continue
        keys.add(k[1])
        if k[1] not in fields:
            continue
        s = source(p, v)
        cons = f'{name}/{k[1]}'
        if s is None:
            used = {x[2] for x in subterms(v) if x[0] == 'attr' and any(
                c[0] == x[1] for c in p.results)}
            if used and k[1] not in used:
                rep.bad('entries', cons, where,
                        f'{name}: entry {k[1]!r} is computed from the '
                        f'back-end field(s) {", ".join(sorted(used))}')
            else:
                rep.undecided('entries', cons, where)
            continue
        rep.check(s == (k[1], None), 'entries', cons, where,
                  f'{name}: entry {k[1]!r} is filled from the back-end '
                  f'field {s[0]}{" (" + s[1] + " part)" if s[1] else ""}')
    if keys & fields:
        for fld in sorted(fields):
            rep.check(fld in keys, 'entries', f'{name}/{fld}', where,
                      f'{name}: the back-end field {fld} is not passed on')
    saved = [s for s in p.saves if s[0] in ('savetxt', 'savez',
                                            'savez_compressed')]
    if not saved:
        rep.undecided('columns', f'{name}/{save}', where, 'nothing saved')
    for fn, args, kw, node, _ in saved:
        if fn == 'savetxt':
            table(rep, p, name, mod, stat, norm, args, dict(kw), node)
        else:
            npz(rep, p, name, mod, args, kw, node, fields)


def entries(p, t):
    if t[0] == 'obj' and t in p.st.heap and p.st.heap[t][0] == 'dict':
        return p.st.heap[t][1]
    return None


def npz(rep, p, name, mod, args, kw, node, fields):
    where = f'{mod}:{node.lineno}'
    got = dict(kw)
    if '**' in got:
        rep.undecided('columns', f'{name}/.npz', where)
        return
    for fld in sorted(fields):
        if fld not in got:
            rep.bad('columns', f'{name}/.npz/{fld}', where,
                    f'{name}: {fld} is not saved')
            continue
        s = source(p, got[fld])
        if s is None:
            rep.undecided('columns', f'{name}/.npz/{fld}', where)
        else:
            rep.check(s == (fld, None), 'columns', f'{name}/.npz/{fld}',
                      where, f'{name}: {fld} is saved from {s}')


def table(rep, p, name, mod, stat, norm, args, kw, node):
    where = f'{mod}:{node.lineno}'
    cons = f'{name}/.txt'
    r = Render(p)
    tab = args[1] if len(args) > 1 else kw.get('X')
    head = kw.get('header')
    cols = columns(p, tab) if tab is not None else None
    if cols is None or head is None:
        rep.undecided('columns', cons, where, 'table not followed')
        return
    lines = r.lines(head)
    names, idx = None, None
    for ln in lines:
        s = ''.join(x if isinstance(x, str) else '\0' for x in ln)
        if '[0] ' in s:
            if '\0' in s:
                rep.undecided('columns', cons, where, 'header not constant')
                return
            names, idx = header_names(s)
    if not names:
        rep.undecided('columns', cons, where, 'no column names in header')
        return
    rep.check(len(names) == len(cols) and idx == list(range(len(names))),
              'columns', f'{cons}/count', where,
              f'{name}: {len(cols)} columns under {len(names)} names')
    three = pymeas.NPOINT[stat] == '3pt'
    srcs = []
    for i, (n, c) in enumerate(zip(names, cols)):
        judge(rep, f'{cons}/{i}', where, name, i, n, source(p, c), three)
        srcs.append(source(p, c))
    fmt = kw.get('fmt')
    try:
        f = r.value(fmt, len(cols), tab) if fmt is not None else '%.18e'
    except (ValueError, KeyError, TypeError, IndexError):
        f = None
    if isinstance(f, (str, list)):
        ds = re.findall(DIRECTIVE, f if isinstance(f, str) else ''.join(f))
        if len(ds) > 1:
            rep.check(len(ds) == len(cols), 'columns', f'{cons}/fmt', where,
                      f'{name}: {len(ds)} formats for {len(cols)} columns')
        for i, (d, s) in enumerate(zip(ds, srcs)):
            if d[-1] in 'diu' and s is not None:
                rep.check('n' == s[0][0], 'columns', f'{cons}/fmt{i}', where,
                          f'{name}: column {i} ({s[0]}) is written as an '
                          'integer')
    else:
        rep.undecided('columns', f'{cons}/fmt', where)
    norms(rep, p, name, where, cons, stat, norm, lines)


def judge(rep, cons, where, name, i, n, s, three):
    want = column(n, three)
    if want is None or s is None:
        rep.undecided('columns', cons, where, f'{n}: {s}')
    elif want[0] == 'degrees':
        rep.bad('columns', cons, where,
                f'{name}: column {i} is named {n}: degrees {want[1]} for '
                f'(ell1, ell2, ELL) = (1, 2, 3)')
    else:
        rep.check(s == want, 'columns', cons, where,
                  f'{name}: column {i} is named {n} but holds {s[0]}'
                  f'{" (" + s[1] + ")" if s[1] else ""}')


def fns(t):
    out = set()
    for x in subterms(t):
        if x[0] == 'name' or x[0] == 'func' or x[0] == 'ext':
            m = re.search(r'normalisation_(from_\w+?)(_cpp)?$', str(x[-1]))
            if m:
                out.add(m[1])
    return out


def norms(rep, p, name, where, cons, stat, norm, lines):
    """Normalisation factors next to their labels."""
    for ln in lines:
        s = ''.join(x if isinstance(x, str) else '\0' for x in ln)
        vals = [x[1] for x in ln if not isinstance(x, str)]
        if s.startswith('Normalisation factor alternatives'):
            labs = re.findall(r'\0 \(([\w-]+)\)', s)
            if len(labs) != len(vals):
                rep.undecided('norms', cons, where)
                continue
            for lab, v in zip(labs, vals):
                got = fns(v)
                want = NORMSRC.get(NORMLABEL.get(lab))
                if want and got:
                    rep.check(got == {want}, 'norms', f'{cons}/{lab}', where,
                              f'{name}: the factor labelled {lab} is from '
                              f'{sorted(got)}')
        elif s.startswith('Normalisation factor:'):
            used = [a[2] for a in p.results][-1]
            cand = [a for a in used if fns(a)]
            if norm == 'none':
                rep.check(not any(fns(v) for v in vals), 'norms',
                          f'{cons}/used', where,
                          f'{name}: a computed normalisation factor is '
                          'reported although none is applied')
            elif len(cand) == 1 and vals:
                rep.check(fns(vals[0]) == fns(cand[0]), 'norms',
                          f'{cons}/used', where,
                          f'{name}, {norm}: the header reports the factor '
                          f'{sorted(fns(vals[0]))}, the measurement uses '
                          f'{sorted(fns(cand[0]))}')
            else:
                rep.undecided('norms', f'{cons}/used', where)


# ------------------------------------------------------------ C++ writers

class WriteDomain(TaintDomain):
    def initial(self, ai, loc, node):
        o = ai.role.get(loc[0])
        if o is None:
            return V(NOC, E0)
        names = [x for x in loc[1:] if isinstance(x, str) and x not in (
            '*', '#cell') and not x.startswith('#')]
        return V(NOC, frozenset({(o, names[0] if names else '')}))

    def call(self, name, args, node):
        t = super().call(name, args, node)
        b = (name or '').split('::')[-1]
        if b in ('real', 'imag'):
            t |= {('part', b)}
        return t

    def binop(self, op, a, b, node):
        t = super().binop(op, a, b, node)
        return t | {('op', op)} if t else t


class WriteInterp(TaintInterp):
    """Collects the text a writer sends to its file."""

    def __init__(self, prog, params=()):
        super().__init__(prog, WriteDomain())
        self.role = {}
        self.params = dict(params)
        self.events = {}
        self.lost = False
        m = self.models
        for q in ('fprintf', 'std::fprintf'):
            m[q] = self.m_fprintf
        for q in ('snprintf', 'std::snprintf'):
            m[q] = self.m_snprintf
        for q in ('sprintf', 'std::sprintf'):
            m[q] = self.m_sprintf
        for q in ('fputs', 'std::fputs', 'fwrite', 'fputc', 'vfprintf'):
            m[q] = self.m_other

    def m_other(self, ai, n, args, this, decl):
        self.lost = True
        return V(NOC, E0)

    def pieces(self, fmt, args):
        out, k = [], 0
        for m in re.finditer(r'%%|' + DIRECTIVE + r'|%|[^%]+', fmt):
            s = m[0]
            if s == '%%':
                out.append('%')
            elif s[0] == '%' and len(s) > 1:
                a = args[k] if k < len(args) else None
                k += 1
                t = None
                if s[-1] == 's':
                    t = self.text(a) if a is not None else None
                elif isinstance(a, V) and isinstance(a.c, int) and \
                        not isinstance(a.c, bool) and s[-1] in 'diu':
                    t = str(a.c)
                if t is not None and s[-1] == 's' and '\0' in t:
                    t = None
                out.append(t if t is not None else (
                    'val', self.tags(a) if a is not None else None, s))
            else:
                out.append(s)
        return out

    def m_fprintf(self, ai, n, args, this, decl):
        fmt = self.text(args[1]) if len(args) > 1 else None
        key = n.id if hasattr(n, 'id') else id(n)
        if fmt is None:
            self.lost = True
            return V(NOC, E0)
        ps = self.pieces(fmt, args[2:])
        self.events[(key, tuple(map(str, ps)))] = ps
        return V(NOC, E0)

    def store(self, dest, fmt, args):
        if not isinstance(dest, P) or dest.loc is None:
            return
        loc = dest.loc if dest.idx is not None else dest.loc
        t = E0
        for a in args:
            t |= self.tags(a)
        c = NOC
        if fmt is not None:
            ps = self.pieces(fmt, args)
            if all(isinstance(x, str) for x in ps):
                c = ''.join(ps)
        self.clear_tree(loc)
        self.st.set(loc + (0,), V(c, t))

    def m_snprintf(self, ai, n, args, this, decl):
        self.store(args[0], self.text(args[2]) if len(args) > 2 else None,
                   args[3:])
        return V(NOC, E0)

    def m_sprintf(self, ai, n, args, this, decl):
        self.store(args[0], self.text(args[1]) if len(args) > 1 else None,
                   args[2:])
        return V(NOC, E0)

    def lines(self):
        out = [[]]
        for ps in self.events.values():
            for p in ps:
                if isinstance(p, str):
                    for i, s in enumerate(p.split('\n')):
                        if i:
                            out.append([])
                        if s:
                            out[-1].append(s)
                else:
                    out[-1].append(p)
        return out


def writer(prog, f, tu, params=()):
    """Run one writer; (interpreter, role of each parameter)."""
    w = WriteInterp(prog, params)
    args = []
    for p in f.params:
        t = (p.desugared or p.type or '')
        loc = w.new('in', p)
        if 'FILE' in t:
            args.append(P(loc, V(0, E0)))
            continue
        b = t.replace('const', '').replace('&', '').strip()
        if 'ParameterSet' in t:
            w.role[loc[0]] = 'param'
            for k, v in {**DEG, **dict(params)}.items():
                w.st.set(loc + (k,), V(v, frozenset({('param', k)})))
        elif b in ('double', 'int', 'float', 'long'):
            args.append(V(NOC, frozenset({('arg', p.name)})))
            continue
        else:
            w.role[loc[0]] = 'col' if 'Catalogue' not in t else 'cat'
        args.append(L(loc))
    w.invoke(f, tu, args, None, f.node)
    return w


def writers(rep, prog):
    for q, want in (('trv::io::print_measurement_datatab_to_file', None),
                    ('trv::io::print_binned_vectors_to_file', VECS)):
        for f, tu in prog.by_qual.get(q, ()):
            if f.body is None:
                continue
            rec = [re.sub(r'.*::', '', (p.type or '').replace('&', ''))
                   .strip() for p in f.params if re.search(
                   'Measurements|Vectors', p.type or '')]
            cons = f'{q.split("::")[-1]}({", ".join(rec)})'
            w = writer(prog, f, tu)
            if w.lost or w.st is None:
                rep.undecided('writers', cons, f.loc(), 'output not followed')
                continue
            writer_table(rep, w, f, cons, want)


def writer_table(rep, w, f, cons, want):
    names, row = None, None
    for ln in w.lines():
        s = ''.join(x if isinstance(x, str) else '\0' for x in ln)
        if '[0] ' in s:
            s = s[s.index('[0] '):]
            if '\0' in s:
                rep.undecided('writers', cons, f.loc(), 'header not constant')
                return
            names, idx = header_names(s)
        elif names is not None and '\0' in s and row is None:
            row = [x for x in ln if not isinstance(x, str)]
    if not names or row is None:
        rep.undecided('writers', cons, f.loc(), 'no table found')
        return
    rep.check(len(names) == len(row) and idx == list(range(len(names))),
              'writers', f'{cons}/count', f.loc(),
              f'{cons}: {len(row)} columns under {len(names)} names')
    for i, (n, c) in enumerate(zip(names, row)):
        tags = c[1] or E0
        flds = {t[1] for t in tags if t[0] == 'col'}
        part = {t[1] for t in tags if t[0] == 'part'}
        exp = (want[n], None) if want and n in want else column(
            n, len(names) > 8) if not want else None
        if exp is None or not flds:
            rep.undecided('writers', f'{cons}/{i}', f.loc(), f'{n}: {tags}')
            continue
        if exp[0] == 'degrees':
            rep.bad('writers', f'{cons}/{i}', f.loc(),
                    f'{cons}: column {i} is named {n}: degrees {exp[1]} for '
                    '(ell1, ell2, ELL) = (1, 2, 3)')
            continue
        ok = flds == {exp[0]} and part == ({exp[1]} if exp[1] else set())
        rep.check(ok, 'writers', f'{cons}/{i}', f.loc(),
                  f'{cons}: column {i} is named {n} but holds '
                  f'{", ".join(sorted(flds))} {" ".join(sorted(part))}')
        if c[2][-1] in 'di':
            rep.check(exp[0][0] in 'ni', 'writers', f'{cons}/{i}/fmt',
                      f.loc(), f'{cons}: {n} is written as an integer')


def headers(rep, prog):
    q = 'trv::io::print_measurement_header_to_file'
    for f, tu in prog.by_qual.get(q, ()):
        if f.body is None:
            continue
        ncat = sum('Catalogue' in (p.type or '') for p in f.params)
        for norm in ('none', 'particle', 'mesh', 'mesh-mixed'):
            cons = f'print_measurement_header_to_file/{ncat}/{norm}'
            w = writer(prog, f, tu, {'norm_convention': norm})
            if w.lost or w.st is None:
                rep.undecided('norms', cons, f.loc())
                continue
            for ln in w.lines():
                s = ''.join(x if isinstance(x, str) else '\0' for x in ln)
                alt = 'Normalisation factor alternatives' in s
                if not alt and 'Normalisation factor:' not in s:
                    continue
                at = s.index('Normalisation')
                skip = s[:at].count('\0')
                vals = [{t[1] for t in x[1] or () if t[0] == 'arg'}
                        for x in ln if not isinstance(x, str)][skip:]
                labs = re.findall(r'\0 \(([\w-]+)\)', s[at:])
                if len(labs) != len(vals):
                    rep.undecided('norms', cons, f.loc())
                    continue
                for lab, v in zip(labs, vals):
                    want = {'norm_factor_' + NORMLABEL[lab]} \
                        if lab in NORMLABEL else set()
                    rep.check(
                        v == want and (alt or lab == norm), 'norms',
                        f'{cons}/{lab}', f.loc(),
                        f'with norm_convention = {norm} the factor labelled '
                        f'{lab} is {sorted(v)}')


def header_calls(rep, prog, tier):
    """The factors handed to the header writer are the ones it names."""
    norms = ('particle',) if tier == 'quick' else (
        'none', 'particle', 'mesh', 'mesh-mixed')
    for stat in pymeas.NPOINT:
        for cat in ('survey', 'random', 'sim'):
            for norm in norms:
                g = options.run(prog, {
                    'catalogue_type': cat, 'statistic_type': stat,
                    'norm_convention': norm, 'form': 'full'})
                if g is not None:
                    one_header(rep, mainprog.run(prog, g),
                               f'{stat}, {cat}, {norm}')


def one_header(rep, m, what):
    where = 'src/triumvirate/main/triumvirate.cpp:main'
    for q, tags, args, n in m.calls:
        if not q.endswith('::print_measurement_header_to_file'):
            continue
        for t, name in zip(tags[-3:], ('part', 'mesh', 'meshes')):
            got = {x[1] for x in t if x[0] == 'from' and
                   'normalisation' in x[1]}
            if got:         # a constant stands for one that does not apply
                rep.check(all(g.endswith(NORMSRC[name]) for g in got),
                          'norms', f'main, {what}: {name}', where,
                          f"{what}: the header's norm_factor_{name} is "
                          f'{", ".join(sorted(got))}')


# ------------------------------------------------------------ binned vectors

def records(rep):
    for fn in ('_field.pyx',):
        try:
            t = cy2py.module(fn)
        except OSError:
            continue
        for f in ast.walk(t):
            if isinstance(f, ast.FunctionDef) and \
                    f.name == '_record_binned_vectors':
                one_record(rep, fn, f)


def one_record(rep, fn, f):
    env = {}
    for n in ast.walk(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name):
            env.setdefault(n.targets[0].id, []).append(n.value)

    def attrs(e, depth=0):
        out = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Attribute) and x.attr in \
                    PYVECS.values():
                out.add(x.attr)
            elif isinstance(x, ast.Name) and depth < 3:
                for v in env.get(x.id, ()):
                    out |= attrs(v, depth + 1)
        return out
    for n in ast.walk(f):
        if not isinstance(n, ast.Assign):
            continue
        for t in n.targets:
            if isinstance(t, ast.Subscript) and isinstance(
                    t.slice, ast.Constant) and t.slice.value in PYVECS:
                k = t.slice.value
                got = attrs(n.value)
                where = f'{fn}:{n.lineno}'
                if len(got) != 1:
                    rep.undecided('entries', f'binned vectors/{k}', where)
                else:
                    rep.check(got == {PYVECS[k]}, 'entries',
                              f'binned vectors/{k}', where,
                              f'field {k!r} of the binned vectors is filled '
                              f'from {sorted(got)[0]}')


def check(rep, tier):
    global _PROG
    prog = _PROG = cxx.Program()
    rep.rule('kinds', 'Each vector of a back-end result is filled from '
             'quantities of the kind its name says.')
    rep.rule('dimensions', 'Vectors of the first and second dimension of a '
             'three-point result hold the first and second bin of each '
             'pair (full form).')
    rep.rule('entries', 'Each entry of a returned mapping is the back-end '
             'field of that name; no vector field is dropped.')
    rep.rule('columns', 'Each column of a table saved by Python is the '
             'quantity its header entry names.')
    rep.rule('writers', 'Each column of a table printed by the C++ writers '
             'is the quantity its header entry names.')
    rep.rule('norms', 'Each normalisation factor in a header is the one its '
             'label names and the measurement uses.')
    names = sorted({q.split('::')[-1] for q in pymeas.BACKEND.values()
                    if q in prog.by_qual})
    ex = ProcessPoolExecutor(8)
    res = ex.map(kinds_work, names)
    dim = ex.map(dims_work, [
        (n, sp, 3, 'full', 0, s01.ELLS[-1]) for n, sp in s01.MEAS
        if 'trv::' + n in prog.by_qual])
    python(rep, prog)
    writers(rep, prog)
    headers(rep, prog)
    header_calls(rep, prog, tier)
    records(rep)
    for rows in res:
        for ok, cons, where, detail in rows:
            if ok is None:
                rep.undecided('kinds', cons, where, detail)
            else:
                rep.check(ok, 'kinds', cons, where, detail)
    for rows in dim:
        for ok, cons, where, detail in rows:
            if ok is None:
                rep.undecided('dimensions', cons, where, detail)
            else:
                rep.check(ok, 'dimensions', cons, where, detail)
    ex.shutdown()
    rep.analysed['routines'] = names
    rep.need('kinds', 20)
    rep.need('columns', 50)
    rep.need('entries', 50)
