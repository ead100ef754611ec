"""P02: each parameter key means the same setting everywhere."""
import os
import re

from .. import pysym
from ..absint import NOC, P, V
from ..cxx import AnalysisBroken, PKG, Program
from ..pysym import const, show, subterms
from ..taint import E0, TaintInterp

EXPLANATION = (
    'The backend reader is interpreted abstractly once for every documented '
    'key (and for near-miss spellings of it) in a dependency domain, giving '
    'the members that receive the value of that key; the backend writer '
    'is interpreted to obtain which member is printed under which name; the '
    'Cython reader, fetch-back and sampling/measurement modifiers are '
    'interpreted symbolically, giving the parameter path each backend '
    'member is computed from.  All are compared with the one table of '
    'names, and with the names documented in the two templates.')

AX = {'x': 0, 'y': 1, 'z': 2}
# spelling in files -> member path; every other name is its own member
SPECIAL = {f'{b}_{a}': (b, i) for b in ('boxsize', 'ngrid')
           for a, i in AX.items()}
DERIVED = {'boxsize': {('volume',)}, 'ngrid': {('nmesh',)}}
# Python parameter path -> member path
PYPATH = {
    ('directories', 'catalogues'): ('catalogue_dir',),
    ('directories', 'measurements'): ('measurement_dir',),
    ('files', 'data_catalogue'): ('data_catalogue_file',),
    ('files', 'rand_catalogue'): ('rand_catalogue_file',),
    ('tags', 'output'): ('output_tag',),
    ('wa_orders', 'i'): ('i_wa',), ('wa_orders', 'j'): ('j_wa',),
    ('range', 0): ('bin_min',), ('range', 1): ('bin_max',),
    ('range', -1): ('bin_max',),
}
for _a, _i in AX.items():
    PYPATH['boxsize', _a] = ('boxsize', _i)
    PYPATH['ngrid', _a] = ('ngrid', _i)
for _l in ('ell1', 'ell2', 'ELL'):
    PYPATH['degrees', _l] = (_l,)
# handled in Python itself, by design not handed to the backend
PYONLY = {'catalogue_columns', 'catalogue_dataset', 'save_binned_vectors'}
MOD_SAMPLING = {k: (k,) for k in ('expand', 'alignment', 'boxsize', 'ngrid',
                                  'assignment', 'interlace', 'cutoff_nyq')}
MODIFY = {
    '_modify_sampling_parameters': {
        ('expand',): {'expand'}, ('alignment',): {'alignment'},
        ('padfactor',): {'boxpad', 'gridpad'}, ('padscale',): set(),
        ('boxsize',): {'boxsize'}, ('ngrid',): {'ngrid'},
        ('assignment',): {'assignment'}, ('interlace',): {'interlace'},
        ('cutoff_nyq',): {'cutoff_nyq'}},
    '_modify_measurement_parameters': {
        ('degrees', 'ell1'): {'ell1'}, ('degrees', 'ell2'): {'ell2'},
        ('degrees', 'ELL'): {'ELL'}, ('wa_orders', 'i'): {'i_wa'},
        ('wa_orders', 'j'): {'j_wa'}, ('idx_bin',): {'idx_bin'},
        ('form',): {'form'}, ('range', 0): {'bin_min'},
        ('range', 1): {'bin_max'}, ('range', -1): {'bin_max'},
        ('num_bins',): {'num_bins'}},
}


def member_of(key):
    return SPECIAL.get(key, (key,))


def dotted(m):
    return '.'.join(map(str, m))


VAL = frozenset({'VAL'})
FMT = re.compile(r'%(?:%|[-+ #0]*(\*|\d+)?(?:\.(?:\*|\d+))?'
                 r'(?:hh|h|ll|l|L|z|j|t)?(\[\^?\]?[^\]]*\]|[a-zA-Z]))')


def conversions(fmt):
    return [m for m in FMT.finditer(fmt) if m.group(2)]


class Reader(TaintInterp):
    """The reader on the line `key = value`."""

    def __init__(self, prog, key):
        super().__init__(prog)
        self.key = key
        self.scans = 0
        w = self.models

        def scan(ai, n, args, this, decl):
            fmt = ai.text(args[1]) if len(args) > 1 else None
            if fmt is None:
                for a in args[2:]:
                    ai.put(a, V(NOC, VAL), n)
                return V(NOC, E0)
            ai.scans += 1
            cs = conversions(fmt)
            i = 0
            seen = [V(ai.key, E0), V('=', E0)]
            for j, c in enumerate(cs):
                if c.group(1) == '*':
                    continue
                if 2 + i < len(args):
                    ai.put(args[2 + i], seen[j] if j < 2 else
                           V(NOC, VAL), n)
                i += 1
            return V(min(i, 3), E0)
        w['sscanf'] = scan

        def cmp(ai, n, args, this, decl):
            x, y = ai.text(args[0]), ai.text(args[1])
            if x is None or y is None:
                return V(NOC, E0)
            if len(args) > 2:
                k = args[2].c if isinstance(args[2], V) else NOC
                if not isinstance(k, int):
                    return V(NOC, E0)
                x, y = x[:k], y[:k]
            return V((x > y) - (x < y), E0)
        for f in ('strcmp', 'strncmp', 'strcasecmp'):
            w[f] = cmp

        def length(ai, n, args, this, decl):
            return V(NOC, ai.tags(args[0]))
        w['strlen'] = length

        def number(ai, n, args, this, decl):
            return V(NOC, ai.tags(args[0]))
        for f in ('atoi', 'atof', 'stoi', 'stod', 'strtod', 'strtol'):
            w[f] = number

        def noop(ai, n, args, this, decl):
            return V(NOC, E0)
        w['trv::ParameterSet::validate'] = noop

    def put(self, a, v, n):
        if isinstance(a, P) and a.loc is not None:
            loc = self.deref(a, None, n)
            old = self.st.get(loc)
            if isinstance(v.c, str) or old is None or not isinstance(
                    old, V):
                self.write(loc, v, n)
            else:
                self.write(loc, V(NOC, (old.d or E0) | (v.d or E0)), n)


class Writer(TaintInterp):
    def __init__(self, prog):
        super().__init__(prog)
        self.out = []

        def pr(ai, n, args, this, decl):
            fmt = ai.text(args[1]) if len(args) > 1 else None
            ai.out.append((n, fmt, [ai.tags(a) for a in args[2:]]))
            return V(NOC, E0)
        self.models['fprintf'] = pr

    def start(self, this, members):
        for m, t in members:
            loc = this + m
            self.st.set(loc, V(NOC, frozenset({m})))


def members(prog):
    rec = prog.records.get('trv::ParameterSet')
    if rec is None:
        raise AnalysisBroken('class trv::ParameterSet not found')
    out = []
    for f in rec[0].fields:
        t = f.desugared or f.type or ''
        m = re.search(r'\[(\d+)\]', t)
        if m:
            out += [((f.name, i), t) for i in range(int(m.group(1)))]
        else:
            out.append(((f.name,), t))
    return out


def template_keys(fn):
    path = os.path.join(PKG, 'resources', fn)
    if not os.path.exists(path):
        raise AnalysisBroken(f'template {fn} not found')
    with open(path, encoding='utf-8') as f:
        txt = f.read()
    if fn.endswith('.ini'):
        return [m.group(1) for m in re.finditer(
            r'^(\w+)\s*=', txt, re.M)]
    out, top = [], None
    for ln in txt.splitlines():
        m = re.match(r'^(\w+):\s*(.*?)(\s#.*)?$', ln)
        if m:
            top = m.group(1)
            v = m.group(2).strip()
            if v.startswith('['):
                n = v.count(',') + 1 if v.strip('[] ') else 0
                if n:
                    out += [(top, i) for i in range(n)]
                else:
                    out.append((top,))
            else:
                out.append((top,))
            continue
        m = re.match(r'^\s+(\w+):', ln)
        if m and top:
            if (top,) in out:
                out.remove((top,))
            out.append((top, m.group(1)))
    return out


def read_key(prog, key):
    r = Reader(prog, key)
    this = r.new('this')
    r.run('trv::ParameterSet::read_from_file', [P(('file',))], this,
          pick=lambda f: f.body is not None)
    got = set()
    for rel, v in (r.st.under(this) if r.st is not None else []):
        if isinstance(v, V) and v.d and 'VAL' in v.d:
            if len(rel) > 1 and isinstance(rel[-1], int) and \
                    rel[0] not in ('boxsize', 'ngrid'):
                rel = rel[:1]
            got.add(tuple(rel))
    return got


def check_reader(rep, prog, keys, mem):
    where = 'ParameterSet::read_from_file'
    f = prog.by_qual.get('trv::ParameterSet::read_from_file')
    if not f:
        raise AnalysisBroken('read_from_file not found')
    at = f[0][0].node.loc()
    res = {k: read_key(prog, k) for k in keys}
    if sum(1 for k in keys if res[k]) < len(keys) / 2:
        for k in keys:
            rep.undecided('reader', f'{where}: {k}', at, 'not followed')
        return
    for k in keys:
        want = member_of(k)
        ok = {want} | DERIVED.get(want[0], set())
        got = res[k]
        c = f'{where}: {k}'
        if want not in mem:
            rep.bad('reader', c, at, 'documented key without a setting of '
                    'that name')
        elif want not in got:
            rep.bad('reader', c, at, f'the value does not reach '
                    f'{dotted(want)}' + (', but ' + ', '.join(
                        sorted(map(dotted, got))) if got else ''))
        elif got - ok:
            rep.bad('reader', c, at, 'the value also reaches ' + ', '.join(
                sorted(map(dotted, got - ok))))
        else:
            rep.ok('reader', c, at, dotted(want))
        for near in (k + '_x', 'x' + k, k[:-1]):
            if near in res or not near or member_of(near) in mem:
                continue
            g = read_key(prog, near)
            rep.check(not g, 'near-miss', f'{where}: {near!r} for {k!r}',
                      at, 'a key of another name sets ' + ', '.join(
                          sorted(map(dotted, g))))


def check_writer(rep, prog, keys, mem):
    w = Writer(prog)
    this = w.new('this')
    w.start(this, [(m, t) for m, t in mem.items()])
    fs = [f for f, _ in prog.by_qual.get(
        'trv::ParameterSet::print_to_file', []) if f.params]
    if not fs:
        raise AnalysisBroken('print_to_file not found')
    w.run('trv::ParameterSet::print_to_file', [P(('file',))], this,
          pick=lambda f: f is fs[0])
    seen = {}
    for n, fmt, tags in w.out:
        m = re.match(r'\s*(\w+)\s*=\s*%', fmt or '')
        if not m:
            continue
        seen.setdefault(m.group(1), []).append(
            (n, frozenset().union(*tags) if tags else E0))
    where = 'ParameterSet::print_to_file'
    at = fs[0].node.loc()
    if len(seen) < len(keys) / 2:
        for k in keys:
            rep.undecided('writer', f'{where}: {k}', at, 'not followed')
        return
    for k in sorted(set(keys) | set(seen)):
        want = member_of(k)
        c = f'{where}: {k}'
        if k not in seen:
            rep.bad('writer', c, at, 'a documented parameter is not '
                    'printed')
            continue
        for n, tags in seen[k]:
            if want not in mem:
                rep.undecided('writer', c, n.loc(), 'no such member')
            elif tags == {want}:
                rep.ok('writer', c, n.loc(), dotted(want))
            elif not tags:
                rep.undecided('writer', c, n.loc(), 'value not followed')
            else:
                rep.bad('writer', c, n.loc(), 'prints ' + ', '.join(
                    sorted(map(dotted, tags))))


# ------------------------------------------------------------- Cython side
class CyReader(pysym.PySym):
    def __init__(self):
        super().__init__()
        self.stores = []        # (target, value, node, qual)

    def on_store(self, t, v, node):
        if t[0] in ('attr', 'item'):
            self.stores.append((t, v, node, self.stack[-1][1]))
            # a list literal is read at the store
            if v[0] == 'obj':
                self.stores[-1] = (t, ('list', tuple(
                    self.st.heap[v][1].values())), node, self.stack[-1][1])

    def on_call(self, f, args, kw, node):
        if f[0] == 'attr' and f[2] == 'validate' and is_this(f[1]):
            p = f[1]
            for k in [k for k in self.st.over if k[0] == 'attr' and
                      k[1] == p]:
                del self.st.over[k]
            return ('call', f, tuple(args), tuple(kw))
        return None


def is_params(t):
    return t[0] == 'attr' and t[2] == '_params' or t[0] == 'self' or \
        t[0] == 'arg' and t[2] == 'paramset'


def is_this(t):
    return t[0] == 'attr' and t[2] == 'thisptr' or t[0] == 'call' and \
        t[1] == ('name', '__new__CppParameterSet')


def path_of(t):
    """Parameter path of a term, e.g. ('degrees', 'ell1'), or None."""
    ks = []
    while True:
        if is_params(t) and ks:
            return tuple(reversed(ks))
        if t[0] == 'item':
            if t[2][0] != 'const':
                return None
            ks.append(t[2][1])
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'get' \
                and t[2] and t[2][0][0] == 'const':
            ks.append(t[2][0][1])
            t = t[1][1]
        else:
            return None


def paths_in(t):
    """Longest parameter paths a term is computed from."""
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, frozenset):
            stack.extend(x)
            continue
        if not isinstance(x, tuple) or not x:
            continue
        if isinstance(x[0], str):
            p = path_of(x)
            if p is not None:
                out.add(p)
                if x[0] == 'call' and len(x[2]) > 1:
                    stack.extend(x[2][1:])
                continue
        stack.extend(x)
    return out


def members_in(t):
    """Backend members a term is computed from."""
    out = set()
    for x in subterms(t):
        if x[0] == 'attr' and is_this(x[1]):
            out.add((x[2],))
    return out


def py_member(path):
    if path in PYPATH:
        return PYPATH[path]
    if len(path) == 1:
        return path
    return None


def check_cython(rep, mem, tkeys):
    cy = CyReader()
    cy.run('parameters.pyx', 'ParameterSet._parse_params')
    got = {}
    for t, v, node, q in cy.stores:
        where = f'src/triumvirate/parameters.pyx:{node.lineno}'
        if t[0] == 'attr' and is_this(t[1]):
            m = (t[2],)
            if (m + (0,)) in mem:
                elems = list(v[1]) if v[0] in ('list', 'tuple') else [
                    ('item', v, const(i)) for i in range(3)] \
                    if v[0] != 'comp' else None
                if elems is None:
                    rep.undecided('binding-reader', f'{q}: {t[2]}', where)
                    continue
                if len(elems) != 3:
                    rep.bad('binding-reader', f'{q}: {t[2]}', where,
                            f'{len(elems)} values for three axes')
                for i, e in enumerate(elems):
                    one(rep, q, m + (i,), e, where, got)
            else:
                one(rep, q, m, v, where, got)
        else:
            p = path_of(t)
            src = members_in(v)
            if p is None or not src or p[0] == '_logger':
                continue
            want = py_member(p)
            c = f'{q}: {".".join(map(str, p))} from the backend'
            if want is None:
                rep.undecided('fetch-back', c, where)
            elif {(s[0],) for s in src} == {want[:1]}:
                rep.ok('fetch-back', c, where)
            else:
                rep.bad('fetch-back', c, where, 'takes ' + ', '.join(
                    sorted(map(dotted, src))))
    lost = []
    for p in tkeys:
        want = py_member(p)
        c = f'template parameter {".".join(map(str, p))}'
        at = 'src/triumvirate/resources/params_template.yml'
        if p[0] in PYONLY:
            continue
        if want is None:
            rep.bad('binding-reader', c, at, 'no setting of that name')
        else:
            if want in got:
                rep.ok('binding-reader', c, at)
            else:
                lost.append(c)
    for c in lost:
        if 2 * len(lost) > len(tkeys):
            rep.undecided('binding-reader', c, at)
        else:
            rep.bad('binding-reader', c, at, 'is never handed to the backend')


def one(rep, q, m, v, where, got):
    ps = {p for p in paths_in(v)}
    c = f'{q}: {dotted(m)}'
    # a whole group (e.g. all of boxsize) only feeds derived quantities
    want = {p for p in ps if py_member(p) == m}
    rest = {p for p in ps - want if p not in {(m[0],)}}
    if m in (('volume',), ('nmesh',)):
        grp = 'boxsize' if m == ('volume',) else 'ngrid'
        bad = {p for p in ps if p[0] not in (grp, m[0])}
        rep.check(not bad, 'binding-reader', c, where,
                  'computed from ' + str(sorted(map(str, bad))))
        got[m] = 1
        return
    if rest:
        rep.bad('binding-reader', c, where, 'takes the value of ' +
                ', '.join('.'.join(map(str, p)) for p in sorted(
                    rest, key=str)))
    elif want:
        got[m] = 1
        rep.ok('binding-reader', c, where)
    elif ps:
        rep.undecided('binding-reader', c, where)


class Modifier(pysym.PySym):
    def __init__(self, qual):
        super().__init__()
        self.qual = qual
        self.found = []

    def on_store(self, t, v, node):
        if t[0] != 'item':
            return
        p = path_of(t)
        if p is None:
            return
        if v[0] == 'obj':
            v = ('tuple', tuple(self.st.heap[v][1].values()))
        src, root = set(), None
        for x in subterms(v):
            if x[0] == 'item' and x[1][0] == 'arg' and x[1][2].startswith(
                    'params_') and x[2][0] == 'const':
                src.add(x[2][1])
        self.found.append((p, src, v, node))


def check_modify(rep):
    for q, table in MODIFY.items():
        m = Modifier(q)
        if q not in m.mods['parameters.pyx'].funcs:
            rep.undecided('modifiers', q, '', 'function not found')
            continue
        m.run('parameters.pyx', q)
        seen = set()
        for p, src, v, node in m.found:
            where = f'src/triumvirate/parameters.pyx:{node.lineno}'
            c = f'{q}: {".".join(map(str, p))}'
            if p not in table:
                rep.undecided('modifiers', c, where, 'unlisted parameter')
                continue
            seen.add(p)
            if p == ('padscale',):
                scale = {x[1] for x in subterms(v) if x[0] == 'const'}
                # the scale goes with the pad entry it was asked for by
                rep.check(scale <= {'box', 'grid'}, 'modifiers', c, where,
                          f'set to {scale}')
                continue
            if not src:
                rep.undecided('modifiers', c, where, 'source not followed')
            else:
                rep.check(src <= table[p], 'modifiers', c, where,
                          f'takes {sorted(src)}')
            # the elements of per-axis parameters are in order
            if v[0] == 'tuple' and len(v[1]) == 3:
                idx = [x[2][1] if x[0] == 'item' and x[2][0] == 'const'
                       else None for x in v[1]]
                if None not in idx:
                    rep.check(idx == [0, 1, 2], 'modifiers', c + ' order',
                              where, f'axes taken in the order {idx}')
        if len(seen) >= len(table) / 2:
            for p in table:
                if p not in seen and -1 not in p and not (
                        p == ('range', 1) and ('range', -1) in seen):
                    rep.bad('modifiers', f'{q}: {".".join(map(str, p))}',
                            'src/triumvirate/parameters.pyx',
                            'is never updated')


def check(rep, tier):
    rep.rule('reader', 'The value of each documented key reaches the '
             'setting of that name, and no other, in the backend reader.')
    rep.rule('near-miss', 'A misspelt or longer key sets nothing.')
    rep.rule('writer', 'Every documented key is printed, each name with '
             'the setting of that name.')
    rep.rule('binding-reader', 'Each backend setting is filled from the '
             'Python parameter of that name, each documented parameter is.')
    rep.rule('fetch-back', 'Values fetched back from the backend go to the '
             'parameter of that name.')
    rep.rule('modifiers', 'Sampling and measurement modifiers update the '
             'parameter of the entry given.')
    prog = Program()
    mem = dict(members(prog))
    ini = template_keys('params_template.ini')
    yml = template_keys('params_template.yml')
    if len(ini) < 15 or len(yml) < 15:
        raise AnalysisBroken('templates document too few parameters')
    check_reader(rep, prog, ini, mem)
    check_writer(rep, prog, ini, mem)
    check_cython(rep, mem, yml)
    check_modify(rep)
    rep.analysed.update(ini_keys=len(ini), yml_keys=len(yml),
                        members=len(mem))
    rep.need('reader', 15)
    rep.need('writer', 15)
    rep.need('binding-reader', 15)
