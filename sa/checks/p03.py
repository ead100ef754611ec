"""P03: parameters seen in Python and held by the back end stay in step."""
from .. import pysym, sync
from ..absint import clean
from ..cxx import Program
from .p02 import PYONLY, PYPATH

EXPLANATION = (
    'Flow analysis of every Python and Cython routine that follows '
    'parameter sets, and the dictionaries inside them, through local names, '
    'arguments and results.  A nested write changes one side only until the '
    'parameter set is assigned to or parsed again; no use of the backend '
    'parameters, and no backend validation, may follow in between.  In the '
    'parameter set itself every writer must parse again, parsing must give '
    'each backend member a value on every path or start from a fresh '
    'backend object, and what backend validation derives must be fetched.')

IO = {'catalogue_dir', 'measurement_dir', 'data_catalogue_file',
      'rand_catalogue_file', 'save_binned_vectors',
      'fftw_scheme'}         # changed in GPU builds only


def members(path):
    """Backend members that hold a Python parameter path."""
    if path == ('?',):
        return set()
    out = {m[0] for p, m in PYPATH.items() if p[:len(path)] == path and
           len(path) == len(p)}
    if len(path) > 1 and not out:
        out = {m[0] for p, m in PYPATH.items() if p[:1] == path[:1]}
    if len(path) == 1:
        out |= {path[0]}
    return out


def visible(m):
    return next((p[0] for p, x in PYPATH.items() if x[0] == m), m)


def derived(prog):
    """Members of ParameterSet written by backend validation."""
    out, seen = {}, set()

    def field(n):
        while n is not None:
            n = n.strip()
            if n.kind == 'MemberExpr':
                b = n.kids[0].strip() if n.kids else None
                t = clean((b.type or '') if b is not None else '')
                return n.name if 'ParameterSet' in t else None
            if n.kind == 'ArraySubscriptExpr' or \
                    n.kind == 'CXXOperatorCallExpr' and len(n.kids) == 3:
                n = n.kids[0 if n.kind[0] == 'A' else 1]
                continue
            return None

    def scan(f, tu):
        if f.key in seen or f.body is None:
            return
        seen.add(f.key)
        for n in f.body.walk():
            if n.kind in ('BinaryOperator', 'CompoundAssignOperator') and \
                    (n.d.get('opcode') or '').endswith('=') and n.d.get(
                        'opcode') not in ('==', '<=', '>=', '!='):
                m = field(n.kids[0])
            elif n.kind == 'CXXOperatorCallExpr' and len(n.kids) == 3:
                d, nm = tu.callee(n)
                m = field(n.kids[1]) if nm in (
                    'operator=', 'operator+=') else None
            elif n.kind in ('CallExpr', 'CXXMemberCallExpr'):
                d, nm = tu.callee(n)
                df = prog.definition(d) if d is not None else None
                m = None
                if df is not None:
                    if any('ParameterSet' in (p.type or '')
                           for p in df[0].params) or \
                            'ParameterSet' in (df[0].qual or ''):
                        scan(*df)
            else:
                continue
            if m:
                out.setdefault(m, n.loc())
    for f, tu in prog.by_qual.get('trv::ParameterSet::validate', []):
        scan(f, tu)
    return out


def check(rep, tier):
    prog = Program()
    rep.rule('use', 'Backend parameters are used only when no parameter was '
             'changed on the Python side alone.')
    rep.rule('assignment', 'A method that writes parameters parses and '
             'validates them again before it returns.')
    rep.rule('parse', 'What parsing itself writes is handed over before '
             'validation.')
    rep.rule('stale', 'Parsing leaves no backend member at the value of an '
             'earlier parse.')
    rep.rule('own', 'The parameters held are not shared with the caller.')
    rep.rule('derived', 'Parameters derived by backend validation are '
             'fetched.')
    mods = pysym.modules()
    P = mods[sync.MOD]

    # -- routines ----------------------------------------------------------
    rows = {}

    def use(s, o, bad, node):
        mod, q, f = s.stack[0]
        if s.own and o == 'self':
            q = s.stack[-1][1].split('.')[-1]
            cons = f'{q}: {sync.CLS}'
            k = ('parse', cons)
        else:
            cons = f'{mod}::{q}: {o}'
            k = ('use', cons)
        w = f'{s.stack[-1][0]}:{node.lineno}'
        d = '' if not bad else (
            'used at {} after {} was changed at {}'.format(
                w, ', '.join(sorted({'.'.join(map(str, b[1])) for b in bad})),
                ', '.join(sorted({f'{b[3]}:{b[2]}' for b in bad}))))
        if k not in rows or d:
            rows[k] = (not bad, w, d)

    nfun = 0
    for mn, m in mods.items():
        for q, f in m.funcs.items():
            if mn == sync.MOD and q.startswith(sync.CLS + '.'):
                continue
            nfun += 1
            s = sync.Sync(use, members, PYONLY)
            s.entry(mn, q, f)

    # -- the parameter set -------------------------------------------------
    meth = {q.split('.', 1)[1]: f for q, f in P.funcs.items()
            if q.startswith(sync.CLS + '.')}
    copies, fetched = [], {}
    parser = None
    for q, f in meth.items():
        s = sync.Sync(use, members, PYONLY, own=True)
        out = s.entry(sync.MOD, f'{sync.CLS}.{q}', f)
        copies += [(q,) + c for c in s.copies]
        fetched.update(s.fetched)
        if q == '_parse_params':
            parser = s, out
        if out is None or q in ('_validate', '__dealloc__'):
            continue
        bad = [d for d in out.dirty if d[0] == 'self']
        if bad or q in ('__setitem__', 'update', '__cinit__', '__init__'):
            rep.check(not bad, 'assignment', f'{sync.CLS}.{q}',
                      f'{sync.MOD}:{f.lineno}',
                      'returns without handing over {}'.format(', '.join(
                          sorted({f'{".".join(map(str, d[1]))} written at '
                                  f'line {d[2]}' for d in bad}))))
    for (rule, cons), (ok, w, d) in sorted(rows.items()):
        rep.check(ok, rule, cons, w, d)
    if parser is None:
        rep.undecided('stale', sync.CLS, sync.MOD, 'no parsing method found')
    else:
        s, out = parser
        rep.check(out is not None and out.valid, 'assignment',
                  f'{sync.CLS}._parse_params', sync.MOD,
                  'returns without validation')
        for m, line in sorted(s.ever.items()):
            rep.check(out is None or out.fresh or m in out.must, 'stale',
                      f'{sync.CLS}.{m}', f'{sync.MOD}:{line}',
                      'keeps its earlier value when the parameter is '
                      'left out or reset')
    bad = {}
    for q, how, arg, line in copies:
        bad[q, arg] = (how, line)
    for q in ('__cinit__', '__init__'):
        if q in meth:
            b = [(k[1], v) for k, v in bad.items() if k[0] == q]
            rep.check(not b, 'own', f'{sync.CLS}.{q}',
                      f'{sync.MOD}:{meth[q].lineno}',
                      '; '.join(f'parameters are a{"n" if v[0][0] == "a" else ""} '
                                f'{v[0]} of argument {a} (line {v[1]})'
                                for a, v in b))
    der = derived(prog)
    seen = set(s.ever) if parser else set()
    for m, at in sorted(der.items()):
        if m in IO or visible(m) == m and m not in seen and \
                m not in fetched:
            continue
        if m not in seen:
            # shown only by fetching
            rep.ok('derived', f'{sync.CLS}.{m}', at)
            continue
        rep.check(visible(m) in fetched, 'derived', f'{sync.CLS}.{m}', at,
                  'backend validation changes it, but the value shown in '
                  'Python is not fetched')
    rep.analysed.update({'functions': nfun, 'methods': len(meth),
                         'backend members derived': len(der),
                         'members parsed': len(seen)})
    rep.need('use', 8)
    rep.need('stale', 15)
    rep.need('derived', 8)
