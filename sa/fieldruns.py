"""Runs of the symbolic field interpreter shared by M02 and M03."""
import sys
from concurrent.futures import ProcessPoolExecutor

from . import cxx
from .absint import NOC, L, P, V
from .fieldsim import FieldInterp
from .sym import Poly

PROG = None
BASE = {'use_fftw_wisdom': '', 'assignment': 'tsc', 'assignment_order': 3}
FLAGS = {'f': 'fftw_wisdom_f_imported', 'b': 'fftw_wisdom_b_imported'}
WFILE = {'f': 'forward.wisdom', 'b': 'backward.wisdom'}


class Rows(list):
    def __call__(self, rule, ok, cons, node, detail):
        self.append((rule, ok, cons, node.loc() if hasattr(node, 'loc')
                     else str(node), detail if ok is not True else ''))


def routines(prog):
    """Free functions of the library that work on mesh fields."""
    out = []
    for q, fs in sorted(prog.by_qual.items()):
        f = fs[0][0]
        if not q.startswith('trv::') or q.count('::') != 1 or \
                f.body is None:
            continue
        if any('MeshField' in (k.desugared or k.type or '')
               for k in f.body.walk()):
            out.append(q)
    return out


def interp(prog, interlace, rows, cls=FieldInterp, **kw):
    c = dict(BASE, interlace=interlace)
    c.update(kw)
    return cls(prog, c, rows)


def value(ai, p, made):
    """An argument for parameter p."""
    t = (p.desugared or p.type or '')
    if 'ParameterSet' in t:
        return L(ai.par)
    if 'MeshField' in t:
        return L(made())
    if 'fftw_complex' in t:
        return P(ai.new('weights'), V(0, Poly()))
    if 'vector' in t:
        loc = ai.new('in:' + (p.name or ''))
        ai.st.set(loc + ('*',), V(NOC, Poly.atom(
            ('in', p.name or '', '*'))))
        return L(loc)
    if ai.cat(t.replace('&', '').replace('const', '').strip()) == 'rec' or \
            'ParticleCatalogue' in t or 'Binning' in t or 'Calculator' in t:
        return L(ai.new('in:' + (p.name or '')))
    if t.rstrip().endswith('*'):
        return P(ai.new('in:' + (p.name or '')), V(0, Poly()))
    return V(NOC, Poly.atom(('in', p.name or '?')))


def run_routine(qual, interlace):
    rows = Rows()
    ai = interp(PROG, interlace, rows)
    f, tu = PROG.by_qual[qual][0]
    args = [value(ai, p, lambda: mesh(ai, 'own')) for p in f.params]
    ai.invoke(f, tu, args, None, f.node)
    cover(ai, rows)
    return rows, ai.executed, len(ai.meshes), ai.st is not None


def cover(ai, rows):
    for (fn, kd), sites in ai.writes.items():
        for where, c in sites.items():
            if c is True:
                rows.append(('cover', True, f'{fn}: {kd}', where, ''))
            elif c is None:
                rows.append(('cover', None, f'{fn}: {kd}', where,
                             'index not understood'))
            else:
                rows.append(('cover', False, f'{fn}: ' + (
                    'shadow' if kd == 's' else 'primary') + ' mesh', where,
                    f'the loop over the mesh {c[1]}'))


def ctors(prog, cls):
    return [c for c in prog.by_qual.get(f'trv::{cls}::{cls}', [])
            if c[0].body is not None and not any(
                cls in (p.desugared or p.type or '') for p in c[0].params)]


def build(ai, cls, how, plans=None):
    """Construct an object; how: 'own', 'none' or 'ext'."""
    for f, tu in ctors(ai.prog, cls):
        ext = any('fftw_plan' in (p.desugared or p.type or '')
                  for p in f.params)
        if ext != (how == 'ext'):
            continue
        loc = ai.new(f'{cls} with ' + {
            'own': 'its own plans', 'none': 'no plans',
            'ext': 'external plans'}[how])
        args = []
        k = 0
        for p in f.params:
            t = p.desugared or p.type or ''
            if 'ParameterSet' in t:
                args.append(L(ai.par))
            elif 'fftw_plan' in t:
                args.append(L(plans + (('transform', 'inv_transform')[k],)))
                k += 1
            elif t.replace('const', '').strip() == 'bool':
                args.append(V(how == 'own', Poly.num(int(how == 'own'))))
            else:
                args.append(V('mesh', None))
        for fld in fields(ai.prog, cls):
            init_field(ai, loc, fld)
        ai.invoke(f, tu, args, loc, f.node)
        return loc
    return None


def fields(prog, cls):
    r = prog.records.get('trv::' + cls)
    return r[0].fields if r else []


def init_field(ai, loc, fld):
    """Members that are pointers and have no initial value are garbage."""
    from .absint import field_init
    e = field_init(fld)
    if e is None and ai.cat(fld.desugared or fld.type or '') == 'ptr':
        ai.st.set(loc + (fld.name,), V(NOC, None))


def mesh(ai, how, plans=None):
    return build(ai, 'MeshField', how, plans)


def method(ai, this, name, cls='MeshField', **over):
    """Invoke every overload of a method: yields after each one."""
    for f, tu in ai.prog.by_qual.get(f'trv::{cls}::{name}', []):
        if f.body is None:
            continue
        args = [value(ai, p, over.get('made', lambda: mesh(ai, 'own')))
                for p in f.params]
        ai.invoke(f, tu, args, this, f.node)
        yield f


def methods(prog, cls, prefix):
    out = []
    for q in sorted(prog.by_qual):
        if q.startswith(f'trv::{cls}::{prefix}'):
            out.append(q.split('::')[-1])
    return out


def run_life(how, interlace):
    """Construct a mesh, apply each operation, destroy it."""
    rows = Rows()
    ai = interp(PROG, interlace, rows)
    donor = mesh(ai, 'own')
    m = mesh(ai, how, donor)
    if m is None:
        return rows, 0, 0, True
    fill = [n for n in methods(PROG, 'MeshField', '') if n.startswith(
        ('compute_', 'reset_')) and 'window' not in n]
    for nm in fill:
        for f in method(ai, m, nm):
            if ai.st is None:
                break
            if interlace == 'true':
                p, s = ai.bufs(m)
                ok = ai.synced(ai.content(p), ai.content(s)) if p and s \
                    else None
                rows('sync', ok, f'MeshField::{nm}', f.node,
                     'the operation leaves the shadow mesh different from '
                     'the primary mesh')
            if how != 'none':
                for _ in method(ai, m, 'fourier_transform'):
                    pass
    if how != 'none':
        for nm in methods(PROG, 'MeshField', 'inv_'):
            for f in method(ai, m, nm, made=lambda: donor):
                pass
    before = owned(ai, m)
    for f in method(ai, m, '~MeshField'):
        pass
    gone(ai, rows, before, 'MeshField with ' + {
        'own': 'its own plans', 'none': 'no plans', 'ext': 'external plans'
    }[how], PROG.by_qual['trv::MeshField::~MeshField'][0][0].node)
    cover(ai, rows)
    return rows, ai.executed, len(ai.meshes), ai.st is not None


def run_stats(how, interlace):
    rows = Rows()
    ai = interp(PROG, interlace, rows)
    donor = mesh(ai, 'own')
    s = build(ai, 'FieldStats', how)
    if s is None:
        return rows, 0, 0, True
    for nm in methods(PROG, 'FieldStats', 'compute_'):
        if ai.st is None:
            break
        for f in method(ai, s, nm, 'FieldStats', made=lambda: donor):
            pass
    if ai.st is not None:
        before = owned(ai, s)
        for f in method(ai, s, '~FieldStats', 'FieldStats'):
            pass
        gone(ai, rows, before, 'FieldStats with ' + (
            'its own plan' if how == 'own' else 'no plan'),
            PROG.by_qual['trv::FieldStats::~FieldStats'][0][0].node)
    return rows, ai.executed, 1, ai.st is not None


def owned(ai, obj):
    """Buffers and plans the object created: {location: member}."""
    out = {}
    if ai.st is None:
        return out
    for rel, v in ai.st.under(obj):
        if isinstance(v, P) and v.loc is not None and len(rel) == 1:
            out.setdefault(v.loc, rel[0])
    return out


def gone(ai, rows, before, what, node):
    if ai.st is None:
        rows('release', None, what, node, 'no normal end')
        return
    for loc, m in before.items():
        if 'alloc' in loc[0]:
            v = ai.st.get(loc + ('#freed',))
            rows('release', v is not None, f'{what}: {m}', node,
                 'the buffer is not freed')
        elif loc[0].startswith('plan'):
            v = ai.st.get(loc + ('#alive',))
            alive = v is not None and v.c is True
            if 'external' in what:
                rows('release', alive, f'{what}: {m}', node,
                     'a plan of another mesh is destroyed')
            else:
                rows('release', not alive, f'{what}: {m}', node,
                     'the plan is not destroyed')


# -- wisdom ---------------------------------------------------------------

class Wisdom(FieldInterp):
    def __init__(self, prog, consts, rows, exists, imported):
        super().__init__(prog, consts, rows)
        self.exists, self.imported = exists, imported
        self.log = []

    def initial(self, ai, loc, node):
        for k, m in FLAGS.items():
            if loc[0].startswith('g:') and loc[0].endswith(m):
                return V(self.imported[k], None)
        return super().initial(ai, loc, node)

    def which(self, vals):
        c = vals[0].c if vals and isinstance(vals[0], V) else NOC
        return next((k for k, w in WFILE.items() if w == c), None)

    def fopen(self, n, vals):
        k = self.which(vals)
        self.log.append(('open', k, n))
        if k is not None and self.exists[k]:
            return P(self.new('file', n), V(0, Poly()))
        return P(None) if k is not None else V(NOC, None)

    def wisdom(self, n, name, vals):
        if name.startswith(('fftw_import', 'fftw_export')):
            self.log.append((name[5:11], self.which(vals), n))
        return V(1, Poly.num(1))

    def plan(self, n, vals):
        s = vals[5].c if len(vals) > 5 and isinstance(vals[5], V) else NOC
        self.log.append(('plan', {-1: 'f', 1: 'b'}.get(s), n))
        return super().plan(n, vals)

    def write(self, loc, v, node=None):
        for k, m in FLAGS.items():
            if loc[0].startswith('g:') and loc[0].endswith(m):
                self.log.append(('flag', k, node, getattr(v, 'c', NOC)))
        super().write(loc, v, node)


def run_wisdom(cls, ef, eb, i_f, ib):
    rows = Rows()
    consts = dict(BASE, interlace='true', use_fftw_wisdom='yes',
                  fftw_wisdom_file_f=WFILE['f'],
                  fftw_wisdom_file_b=WFILE['b'])
    ai = Wisdom(PROG, consts, Rows(), {'f': ef, 'b': eb},
                {'f': i_f, 'b': ib})
    build(ai, cls, 'own')
    f = ctors(PROG, cls)[0][0]
    name = {'f': 'forward', 'b': 'backward'}
    for k in 'fb':
        what = f'{cls} constructor: {name[k]} wisdom'
        at = {}
        why = None
        for i, e in enumerate(ai.log):
            if e[0] in ('import', 'export', 'open') and e[1] is None:
                rows('wisdom', None, what, e[2], 'file not understood')
                return rows, 0, 0, True
            if e[1] == k:
                at.setdefault(e[0], []).append(i)
        plan = at.get('plan', [])
        imp, exp, flag = (at.get(x, []) for x in ('import', 'export',
                                                  'flag'))
        node = f.node
        if not plan:
            if (imp or exp or flag) and cls == 'MeshField':
                rows('wisdom', None, what, node, 'no such plan is made')
            elif imp or exp or flag:
                rows('wisdom', False, what, ai.log[(imp + exp + flag)[0]][2],
                     f'{name[k]} wisdom is handled although no {name[k]} '
                     'plan is made')
            continue
        done = {'f': i_f, 'b': ib}[k]
        there = {'f': ef, 'b': eb}[k]
        if not ai.log or not any(e[0] in ('import', 'export')
                                 for e in ai.log) and not (i_f and ib):
            if cls == 'FieldStats':
                continue      # wisdom is optional there
        if done:
            if imp:
                why = 'it is imported again'
        elif there:
            if not imp:
                why = 'the file is there but is not imported'
            elif imp[0] > plan[0]:
                why = 'it is imported after the plan is made'
            elif not flag:
                why = 'it is imported but the status says it is not'
            elif min(flag) < imp[0]:
                why = 'the status is set before the import'
        else:
            if imp:
                why = 'a file that is not there is imported'
            elif not exp:
                why = 'no file is there, and none is exported'
            elif exp[-1] < plan[0]:
                why = 'it is exported before the plan is made'
        if why is None:
            for i in flag:
                if not any(j < i for j in imp + exp):
                    why = 'its status is set without an import or export ' \
                        'of its file'
        if why is None and any(j < plan[0] for j in exp):
            why = 'it is exported before the plan is made'
        where = node
        for i in (imp + exp + flag):
            where = ai.log[i][2] or node
            break
        rows('wisdom', why is None, what, where if hasattr(where, 'loc')
             else node, f'file {"present" if there else "missing"}, '
             f'{"already" if done else "not yet"} imported: {why}')
    return rows, 0, 0, True


def work(job):
    sys.setrecursionlimit(20000)
    kind = job[0]
    fn = {'routine': run_routine, 'life': run_life, 'stats': run_stats,
          'wisdom': run_wisdom}[kind]
    try:
        return (job,) + fn(*job[1:])
    except RecursionError:
        return job, Rows([('plan', None, job[1], '?', 'recursion')]), 0, 0, \
            True


def run(prog, jobs):
    global PROG
    PROG = prog
    with ProcessPoolExecutor(8) as ex:
        yield from ex.map(work, jobs)


def standard(prog, interlaces):
    jobs = [('routine', q, i) for q in routines(prog) for i in interlaces]
    # long ones first
    jobs.sort(key=lambda j: 'bispec' not in j[1])
    for i in interlaces:
        jobs += [('life', h, i) for h in ('own', 'none', 'ext')]
        jobs += [('stats', h, i) for h in ('own', 'none')]
    return jobs


def collect(rep, results, rules):
    """Report the rows of the rules, one finding per construct."""
    n = {'runs': 0, 'transforms': 0, 'meshes': 0}
    fail = {}
    for job, rows, ex, meshes, ended in results:
        n['runs'] += 1
        n['transforms'] += ex
        n['meshes'] += meshes
        seen = set()
        for rule, ok, cons, where, detail in rows:
            if rule not in rules or (rule, ok, cons, where) in seen:
                continue
            seen.add((rule, ok, cons, where))
            tag = ' '.join(str(x) for x in job[1:])
            if ok:
                rep.ok(rule, f'{cons} [{tag}]', where)
            elif ok is None:
                rep.undecided(rule, f'{cons} [{tag}]', where, detail)
            else:
                fail.setdefault((rule, cons), []).append((where, detail))
    for (rule, cons), xs in sorted(fail.items()):
        rep.bad(rule, cons, xs[0][0], xs[0][1])
    rep.analysed.update(n)
