"""R03: files that cannot be opened, read or written are always reported."""
import ast

from .. import cxx, fileio, mainprog, options, pysym, rows
from ..absint import NOC, P, V
from ..pysym import const, isconst

EXPLANATION = (
    'Each function of the back end that opens a file is interpreted, from '
    'source, under the assumption that one particular opening fails (null '
    'handle, failed stream) and everything else is unknown; the main program '
    'is interpreted for each statistic with each of its file operations '
    'failing in each way the operation can. The failed handle must never be '
    'used, and the run must end in an error.')

FILE_ERRORS = ('IOError',)
OPENS = ('fopen', 'stream', 'mkdir')
FAILED = {'fopen': 'the file could not be opened',
          'stream': 'the file could not be opened',
          'mkdir': 'the directory could not be created',
          'fclose': 'the written file could not be closed',
          'ferror': 'a write to the file had failed',
          'wisdom': 'FFTW wisdom could not be imported or exported'}


def open_functions(prog):
    """Functions holding an opening of a file, and those raising IOError."""
    out = {}
    for key, (f, tu) in prog.funcs.items():
        for n in f.body.walk():
            hit = None
            if n.kind in ('CallExpr', 'CXXMemberCallExpr'):
                g, name = tu.callee(n)
                if g is None and name in (
                        'fopen', 'freopen', 'fdopen', 'create_directories',
                        'create_directory', 'mkdir'):
                    hit = 'open'
                elif g is None and name == 'open' and n.kids[0].strip().kids \
                        and fileio.is_stream(
                            (n.kids[0].strip().kids[0].type or '')):
                    hit = 'open'
            elif n.kind == 'VarDecl' and fileio.is_stream(
                    n.desugared or n.type) and not (
                        n.type or '').rstrip().endswith(('&', '*')):
                hit = 'open'
            elif n.kind == 'CXXThrowExpr' and n.kids and \
                    n.kids[0].kind != 'Null' and \
                    fileio.exc_name(n.kids[0].type) in FILE_ERRORS:
                hit = 'throw'
            if hit:
                out.setdefault(key, set()).add(hit)
    return out


def outcome_text(o):
    return f'raising {o[1]}' if o[0] == 'throw' else f'returning {o[1]}'


def check(rep, tier):
    rep.rule('open-failure', 'when an opening fails the handle is not used, '
             'the failure is reported, and the function does not complete '
             'as if it had succeeded')
    rep.rule('write-failure', 'when closing a written file, or importing or '
             'exporting FFTW wisdom, fails, the function reports it')
    rep.rule('rows', 'an entry of a text row is read only where its column '
             'index is known not to be negative and the row to be long '
             'enough')
    rep.rule('failure-handled', 'every way a file operation of the main '
             'program fails ends the program with an error, or (for the '
             'record of used parameters) is reported')
    prog = cxx.Program()
    fns = open_functions(prog)
    rep.analysed['functions_that_open_files_or_raise_IOError'] = len(fns)
    outcomes = {}
    for key, kinds in sorted(fns.items()):
        f, tu = prog.funcs[key]
        if not f.qual.startswith('trv::'):
            continue            # part of the main program, followed there
        outs = function(rep, prog, f, tu)
        for o in outs:
            outcomes.setdefault(f.qual, set()).add(o)
        text_rows(rep, prog, f, tu)
    rep.analysed['failing_operations'] = {
        q: sorted(map(outcome_text, o)) for q, o in outcomes.items()}
    main_program(rep, prog, outcomes)
    python(rep)
    rep.need('open-failure', 3)
    rep.need('failure-handled', 6)


def function(rep, prog, f, tu):
    """Analyse the openings of one function; returns its ways of failing."""
    outs = set()
    a = fileio.FailInterp(prog)
    a.start(f, tu)
    if any(k in ('fopen', 'stream') and (mode or '').startswith('r')
           for k, n, mode in a.sites.values()):
        # the contents of what it reads may be invalid in any way it tests
        for t, st, n in a.escaped:
            outs.add(('throw', t))
    else:
        for t, st, n in a.escaped:
            if t in FILE_ERRORS:
                outs.add(('throw', t))
    for chain, (kind, node, mode) in sorted(a.sites.items()):
        cons = f'{f.qual}/{kind}#{ordinal(a, chain)}'
        rule = 'open-failure' if kind in OPENS else 'write-failure'
        b = fileio.FailInterp(prog, fail=chain)
        b.start(f, tu)
        where = node.loc()
        for n, what in b.used:
            rep.bad(rule, cons, n.loc(),
                    f'{f.qual}: after {FAILED[kind]} at {where} {what}')
        for t, st, n in b.escaped:
            if fileio.marker(st, '#failed') != 0:
                outs.add(('throw', t))
        ok = not b.used
        for st, v in b.ends:
            failed = fileio.marker(st, '#failed')
            if failed == 0:
                continue
            if isinstance(v, fileio.FP) or isinstance(v, P):
                continue        # handed to the caller
            c = v.c if isinstance(v, V) else NOC
            if isinstance(c, int) and not isinstance(c, bool) and c != 0 \
                    and 'int' in (f.type or ''):
                outs.add(('return', c))
                continue
            if isinstance(c, bool) and not c:
                outs.add(('return', False))
                continue
            if mode is not None and mode.startswith('r') and \
                    kind == 'fopen' and fileio.marker(st, '#log') != 0:
                continue        # optional input, reported
            if kind == 'wisdom' and fileio.marker(st, '#warn') != 0:
                continue
            ok = False
            rep.bad(rule, cons, where,
                    f'{f.qual} completes normally, reporting nothing, '
                    f'although {FAILED[kind]} here')
        if ok:
            rep.ok(rule, cons, where)
    return outs


def ordinal(a, chain):
    return sorted(a.sites).index(chain)


def text_rows(rep, prog, f, tu):
    a = rows.RowInterp(prog)
    a.st.set(('#fact', 'init'), V(1, frozenset()))
    a.start(f, tu)
    for k, (node, loc, cells, facts) in enumerate(a.accesses):
        cons = f'{f.qual}/entry {k}'
        if not cells:
            rep.undecided('rows', cons, node.loc(), 'index not followed')
            continue
        nn = all(x for x, y in facts)
        inside = all(y for x, y in facts)
        rep.check(nn and inside, 'rows', cons, node.loc(),
                  f'{f.qual}: an entry of a text row is read although '
                  + ('its column may be missing (negative index)' if not nn
                     else 'the row may have fewer entries'))


SCEN = [('powspec', 'survey'), ('powspec', 'sim'), ('2pcf', 'survey'),
        ('2pcf', 'sim'), ('2pcf-win', 'random'), ('bispec', 'survey'),
        ('bispec', 'sim'), ('3pcf', 'survey'), ('3pcf', 'sim'),
        ('3pcf-win', 'random'), ('3pcf-win-wa', 'random')]
WARN_ENOUGH = ('print_to_file',)


class MainFail(fileio.FailMixin, mainprog.MainInterp):
    def __init__(self, prog, given, fail=None, outcome=None, functions=()):
        mainprog.MainInterp.__init__(self, prog, given)
        fopen = self.models['fopen']
        self.models['trv::sys::if_filepath_is_set'] = \
            lambda *a: V(NOC, frozenset())
        self.setup_fail(prog, fail, outcome, functions)
        self.dom_fopen = fopen


def run_main(prog, given, **kw):
    m = MainFail(prog, given, **kw)
    m.st.set(('g:trv::sys::currTask',), V(0, frozenset()))
    argv = m.new('argv')
    m.run('main', [V(2, frozenset()), P(argv, V(0, frozenset()))],
          pick=lambda f: f.body is not None)
    return m


def main_program(rep, prog, outcomes):
    done = {}
    n = 0
    for stat, cat in SCEN:
        g = options.run(prog, {
            'catalogue_type': cat, 'statistic_type': stat,
            'norm_convention': 'particle', 'form': 'diag'})
        if g is None:
            continue
        g = dict(g)
        for k in ('save_binned_vectors', 'use_fftw_wisdom'):
            g.pop(k, None)
        n += 1
        base = run_main(prog, g, functions=outcomes)
        for chain, (kind, node, mode) in sorted(base.sites.items()):
            cons = f'main/{stat}/{cat}/{kind}#{ordinal(base, chain)}'
            ways = [('open', None)] if kind in FAILED else \
                sorted(outcomes[kind], key=str)
            for w in ways:
                main_fail(rep, prog, g, chain, kind, node, w, cons,
                          outcomes, f'{stat}, {cat}')
    rep.analysed['main_program_scenarios'] = n


def main_fail(rep, prog, g, chain, kind, node, way, cons, outcomes, what):
    m = run_main(prog, g, fail=chain, outcome=way, functions=outcomes)
    where = node.loc()
    how = FAILED[kind] if way[0] == 'open' else \
        f'{kind} fails, {outcome_text(way)}'
    ok = True
    for x, text in m.used:
        ok = False
        rep.bad('failure-handled', cons, x.loc(), f'main ({what}): {how}: '
                f'{text}')
    for t, st, x in m.escaped:
        if fileio.marker(st, '#failed') != 0 and (
                x is node or kind.split('::')[-1] not in WARN_ENOUGH):
            ok = False
            rep.bad('failure-handled', cons, where,
                    f'main ({what}): {how}: nothing catches it')
    for st, v in m.ends:
        if fileio.marker(st, '#failed') == 0:
            continue
        c = v.c if isinstance(v, V) else NOC
        if isinstance(c, int) and c != 0:
            continue
        if kind.split('::')[-1] in WARN_ENOUGH and \
                fileio.marker(st, '#log') != 0:
            continue
        ok = False
        rep.bad('failure-handled', cons, where,
                f'main ({what}): {how}: the program goes on to report '
                'success')
    if ok:
        rep.ok('failure-handled', cons, where)


# ------------------------------------------------------- Python and Cython

BARE = {'open', 'CSVCatalog', 'BinaryCatalog', 'HDFCatalog', 'loadtxt',
        'genfromtxt', 'savetxt', 'savez', 'savez_compressed', 'fromfile'}
NPOPS = {'load', 'save', 'loadtxt', 'genfromtxt', 'savetxt', 'savez',
         'savez_compressed', 'fromfile', 'tofile', 'memmap'}
METHS = {'open', 'read_text', 'write_text', 'read_bytes', 'write_bytes',
         'mkdir', 'makedirs', 'unlink', 'rename', 'tofile', 'touch'}
EXISTS = {'exists', 'is_file', 'isfile', 'is_dir', 'isdir', 'access'}
OSERR = {'OSError', 'IOError', 'EnvironmentError', 'Exception',
         'BaseException', None}


def file_op(node):
    fn = node.func
    if isinstance(fn, ast.Name):
        return fn.id if fn.id in BARE else None
    if isinstance(fn, ast.Attribute):
        root = ast.unparse(fn.value)
        if root in ('np', 'numpy') and fn.attr in NPOPS:
            return ast.unparse(fn)
        if fn.attr == 'read' and root.split('.')[-1] == 'Table':
            return ast.unparse(fn)
        if fn.attr in METHS and root not in ('webbrowser',):
            return ast.unparse(fn)
    return None


class PyFail(pysym.PySym):
    """Interprets one function with one file operation failing."""

    def __init__(self, fail, exc, extra=()):
        super().__init__()
        self.fail, self.exc, self.extra = fail, exc, extra
        self.trys = []
        self.continued = []
        self.escaped = False
        self.ops_after = 0
        self.failed = False

    def inline(self, f):
        return False

    def on_call(self, f, args, kw, node):
        if node is self.fail:
            self.failed = True
            if self.exc is None:         # an existence test: answers no
                return const(False)
            self.raise_()
            return pysym.UNK
        if self.failed and file_op(node):
            self.ops_after += 1
        return None

    def raise_(self):
        if self.st is None:
            return
        if self.trys:
            self.trys[-1].append(self.st)
        else:
            self.escaped = True
        self.st = None

    def catches(self, names):
        return any(n in OSERR or n == self.exc for n in names)

    def s_With(self, s):
        for i in s.items:
            c = i.context_expr
            if isinstance(c, ast.Call) and ast.unparse(c.func).split(
                    '.')[-1] == 'suppress' and self.catches(
                        [ast.unparse(a).split('.')[-1] for a in c.args]):
                self.trys.append([])
                super().s_With(s)
                got = self.trys.pop()
                if got:
                    self.continued.append(s)
                    for g in got:
                        self.st = self.join(self.st, g) \
                            if self.st is not None else g
                return
        super().s_With(s)

    def s_Try(self, s):
        inside = any(n is self.fail for b in s.body for n in ast.walk(b))
        if not inside or self.exc is None:
            super().s_Try(s)
            return
        self.trys.append([])
        self.block(s.body)
        got = self.trys.pop()
        if self.st is not None and s.orelse:
            self.block(s.orelse)
        if got:
            st = got[0]
            for g in got[1:]:
                st = self.join(st, g)
            normal = self.st
            h = next((h for h in s.handlers if self.catches(names_of(h))),
                     None)
            self.st = st
            if h is None:
                self.raise_()
            else:
                if h.name:
                    self.st.frames[-1][h.name] = ('exc', tuple(names_of(h)))
                n = len(self.rets[-1])
                self.block(h.body)
                if self.st is not None or len(self.rets[-1]) > n:
                    self.continued.append(h)
            if normal is not None:
                self.st = self.join(self.st, normal) \
                    if self.st is not None else normal
        if s.finalbody:
            if self.st is not None:
                self.block(s.finalbody)
            elif any(isinstance(x, ast.Return) for b in s.finalbody
                     for x in ast.walk(b)):
                self.continued.append(s)


def names_of(h):
    if h.type is None:
        return [None]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [ast.unparse(t).split('.')[-1] for t in ts]


def own_nodes(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        for k in ast.iter_child_nodes(n):
            if not isinstance(k, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                todo.append(k)


def python(rep):
    rep.rule('python-failure', 'an error raised by a file operation of the '
             'Python layer, or by a function performing one, is not '
             'swallowed; a file found absent is not passed over')
    rep.rule('python-columns', 'a catalogue without a position column is '
             'rejected')
    mods = pysym.modules()
    known = set()           # package functions that raise file errors
    nsites = 0
    done = set()
    for rnd in range(4):
        grown = False
        for mod, m in sorted(mods.items()):
            for q, fn in sorted(m.funcs.items()):
                for n in own_nodes(fn):
                    if not isinstance(n, ast.Call) or id(n) in done:
                        continue
                    nm = file_op(n)
                    ex = None
                    if nm is None and isinstance(n.func, (
                            ast.Name, ast.Attribute)):
                        b = n.func.id if isinstance(n.func, ast.Name) \
                            else n.func.attr
                        if b in known:
                            nm = b
                        elif b in EXISTS:
                            ex = b
                    if nm is None and ex is None:
                        continue
                    done.add(id(n))
                    nsites += 1
                    if site(rep, mod, q, n, nm, ex):
                        b = q.split('.')[-1]
                        if b == '__init__':
                            b = q.split('.')[0]
                        if not b.startswith('__') and b not in known and \
                                b not in ('read', 'load', 'save'):
                            known.add(b)
                            grown = True
        if not grown:
            break
    rep.analysed['python_file_operations'] = nsites
    rep.analysed['python_functions_doing_file_operations'] = sorted(known)
    columns(rep, mods)


def site(rep, mod, q, n, nm, ex):
    cons = f'{mod}.{q}: {nm or ex}()'
    where = f'{mod}:{n.lineno}'
    escapes = False
    for exc in ('FileNotFoundError', 'PermissionError') if nm else (None,):
        p = PyFail(n, exc)
        try:
            p.run(mod, q)
        except cxx.AnalysisBroken:
            raise
        except Exception as e:
            rep.undecided('python-failure', cons, where, repr(e)[:80])
            continue
        if not p.failed:
            rep.undecided('python-failure', cons, where, 'not reached')
            escapes = True
            continue
        if nm:
            escapes |= p.escaped
            ok = not (p.continued and p.st is not None)
            at = p.continued[0].lineno if p.continued else 0
            rep.check(ok, 'python-failure', cons, where,
                      f'{q} goes on as if nothing had happened when {nm}() '
                      f'raises {exc} (handled at line {at})')
        else:
            ok = p.st is None or p.ops_after > 0
            rep.check(ok, 'python-failure', cons, where,
                      f'{q} completes normally, having done nothing, when '
                      f'the file does not exist')
    return escapes


class Columns(pysym.PySym):
    def __init__(self, have, miss=None):
        super().__init__()
        self.miss = miss
        self.have = ('tuple', tuple(const(c) for c in have))
        self.used = False

    def getattr(self, b, a):
        if a in ('colnames', 'columns') and b[0] != 'obj':
            self.used = True
            return self.have
        return super().getattr(b, a)

    def getitem(self, b, k):
        if b[0] in ('call', 'self') and isconst(k) and \
                self.miss == k[1] and self.reads(b) and not any(
                    t[0] == 'item' and t[2] == k for t in self.st.over):
            self.used = True
            self.st = None          # the table has no such column
            return pysym.UNK
        return super().getitem(b, k)

    @staticmethod
    def reads(b):
        return b[0] == 'self' or b[1][-1] in (
            'read', 'Table', 'CSVCatalog', 'BinaryCatalog', 'HDFCatalog')

    def inline(self, f):
        return True


def columns(rep, mods):
    q = 'ParticleCatalogue.read_from_file'
    mod = next((k for k, m in mods.items() if q in m.funcs), None)
    if mod is None:
        rep.undecided('python-columns', q, '', 'not found')
        return
    allc = ['x', 'y', 'z', 'nz', 'ws', 'wc']
    for reader in ('astropy', 'nbodykit'):
        for fmt in ('text', 'fits', 'hdf5', 'binary'):
            for miss in ('x', 'y', 'z', None):
                have = [c for c in allc if c != miss]
                c = Columns(have, miss)
                cons = f'{q}: {miss or "nothing"} missing'
                where = f'{mod}:{mods[mod].funcs[q].lineno}'
                try:
                    c.run(mod, q, {'reader': const(reader),
                                   'format': const(fmt)})
                except cxx.AnalysisBroken:
                    raise
                except Exception as e:
                    rep.undecided('python-columns', cons, where,
                                  repr(e)[:80])
                    continue
                if miss is None:
                    continue
                if c.st is not None and not c.used:
                    rep.undecided('python-columns', cons, where,
                                  'column names not followed')
                    continue
                rep.check(c.st is None, 'python-columns', cons, where,
                          f'reader={reader!r}, format={fmt!r}: completes '
                          f'although column {miss!r} is missing')
