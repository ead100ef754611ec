"""R02: backend errors surface in Python as exceptions."""
from .. import callgraph, cxx, pyx
from ..canon import canon

EXPLANATION = (
    'Whole-program call graph of the C++ back end (clang syntax trees, '
    'resolved callees, constructors, destructors) with a may-throw '
    'propagation that honours enclosing try/catch. Every C++ function '
    'declared to Cython whose definition can let an error out must be '
    'declared with exception translation; no error may leave an OpenMP '
    'region, a destructor or a noexcept function; no function reachable '
    'from a binding may end the process; no handler on the way swallows an '
    'error; and no Cython-level function declared noexcept calls a '
    'translated binding.')


def target_of(prog, graph, ext):
    """Definitions an extern declaration may name."""
    if ext.cls:
        cls = ext.cls[1]
        if ext.name == ext.cls[0]:
            q = cls + '::' + cls.split('::')[-1]
        else:
            q = cls + '::' + ext.cname
    else:
        q = ext.cname
    return [f for f, tu in prog.by_qual.get(q, [])], q


def nargs(ext):
    return len(ext.fd.args)


def check(rep, tier):
    prog = cxx.Program()
    graph = callgraph.CallGraph(prog)
    mt = graph.may_throw()
    conds = callgraph.ThrowConds(graph, mt)
    rep.analysed = {
        'translation_units': [t.path for t in prog.tus],
        'cxx_functions': len(prog.funcs),
        'may_throw_functions': len(mt),
        'cython_modules': pyx.modules(),
    }
    rep.rule('translated', 'a binding whose C++ definition can raise is '
             'declared "except +"')
    rep.rule('omp-escape', 'no error can leave an OpenMP region')
    rep.rule('nothrow-escape', 'no error can leave a destructor or noexcept '
             'function')
    rep.rule('terminator', 'no function reachable from a binding ends the '
             'process')
    rep.rule('swallow', 'no handler reachable from a binding drops an error')
    rep.rule('cython-noexcept', 'no Cython function declared noexcept calls '
             'a translated binding')

    def why(k):
        out, n = [], 0
        while k is not None and n < 12:
            node, what, nxt = mt[k]
            out.append(f'{prog.funcs[k][0].qual} ({what} at {node.loc()})')
            k, n = nxt, n + 1
        return ' -> '.join(out)

    entry = set()
    for m in pyx.modules():
        for e in pyx.externs(m):
            fs, q = target_of(prog, graph, e)
            where = f'src/triumvirate/{m}:{e.line}'
            cons = f'{m}:{q}/{nargs(e)}'
            if not fs:
                if e.cls and e.name == e.cls[0]:
                    # implicit constructor: members' allocation only
                    rep.ok('translated', cons, where, 'implicit constructor')
                else:
                    rep.undecided('translated', cons, where,
                                  'no C++ definition found')
                continue
            # choose overloads by arity when possible
            m2 = [f for f in fs if len(f.params) == nargs(e)] or [
                f for f in fs if len(f.params) >= nargs(e)] or fs
            thr = [f for f in m2 if f.key in mt]
            for f in m2:
                entry.add(f.key)
            if e.translated:
                rep.ok('translated', cons, where, 'except +')
            elif thr:
                rep.bad('translated', cons, where,
                        'declared without "except +" but can raise: '
                        + why(thr[0].key))
            else:
                rep.ok('translated', cons, where, 'cannot raise')
    rep.need('translated', 12)
    # destructors of bound classes run from Python as well
    bound = {e.cls[1] for m in pyx.modules() for e in pyx.externs(m)
             if e.cls}
    for k, (f, tu) in prog.funcs.items():
        if f.node.kind == 'CXXDestructorDecl' and f.cls in bound:
            entry.add(k)

    nreg = 0
    for k, (f, tu) in prog.funcs.items():
        for n in f.body.walk():
            if not (n.kind.startswith('OMP') and
                    n.kind.endswith('Directive')):
                continue
            nreg += 1
            bad = None
            for x in n.walk():
                if x.kind == 'CXXThrowExpr' and not graph.caught(
                        x, n, 'throw'):
                    bad = f'throw at {x.loc()}'
                    break
                if x.kind in ('CallExpr', 'CXXMemberCallExpr',
                              'CXXConstructExpr', 'CXXOperatorCallExpr'):
                    g, name = tu.callee(x)
                    if x.kind == 'CXXConstructExpr':
                        g = callgraph.ctor_of(tu, x)
                    if g is not None and g.key in mt and not graph.caught(
                            x, n):
                        args = x.kids if x.kind == 'CXXConstructExpr' \
                            else x.kids[1:]
                        cs = {callgraph.instantiate(
                            c, [canon(a) for a in args])
                            for c in conds.of(g.key)}
                        if cs <= conds.established(f, tu, x):
                            continue
                        bad = f'call at {x.loc()}: ' + why(g.key)
                        break
                    if g is None and name in callgraph.STD_THROWERS and \
                            not graph.caught(x, n, f'{name}()'):
                        bad = f'{name}() at {x.loc()}'
                        break
            cons = f'{f.qual} {n.kind}'
            if bad:
                rep.bad('omp-escape', cons, n.loc(),
                        'error escapes the parallel region: ' + bad)
            else:
                rep.ok('omp-escape', cons, n.loc())
    rep.need('omp-escape', 30)

    nn = 0
    for k, (f, tu) in prog.funcs.items():
        nothrow = f.node.kind == 'CXXDestructorDecl' or 'noexcept' in (
            f.type or '')
        if not nothrow or 'noexcept(false)' in (f.type or ''):
            continue
        rep.check(k not in mt, 'nothrow-escape', f.qual, f.loc(),
                  '' if k not in mt else 'can raise: ' + why(k))
    rep.need('nothrow-escape', 6)

    seen = graph.reach(entry)
    rep.analysed['reachable_from_bindings'] = len(seen)
    for k in sorted(seen):
        f, tu = prog.funcs[k]
        hit = None
        for n, g, name in graph.edges[k]:
            if g is None and name in callgraph.TERMINATORS or (
                    g is not None and g.key not in graph.edges and
                    name in callgraph.TERMINATORS):
                hit = n
                break
        rep.check(hit is None, 'terminator', f.qual, f.loc(),
                  '' if hit is None else
                  f'ends the process at {hit.loc()}; reached by '
                  + graph.path(seen, k))
        for n in f.body.walk():
            if n.kind != 'CXXCatchStmt':
                continue
            h = n.kids[-1]
            tr = n.parent.kids[0]
            raises = [x for x in tr.walk() if x.kind == 'CXXThrowExpr']
            for x in tr.walk():
                if x.kind in ('CallExpr', 'CXXMemberCallExpr',
                              'CXXConstructExpr'):
                    g, name = tu.callee(x)
                    if x.kind == 'CXXConstructExpr':
                        g = callgraph.ctor_of(tu, x)
                    if g is not None and g.key in mt:
                        raises.append(x)
            rethrow = any(x.kind == 'CXXThrowExpr' for x in h.walk())
            if not rethrow:
                for x in h.walk():
                    if x.kind in ('CallExpr', 'CXXMemberCallExpr'):
                        g, _ = tu.callee(x)
                        if g is not None and g.key in mt:
                            rethrow = True
            rep.check(rethrow or not raises, 'swallow', f.qual, n.loc(),
                      'a handler drops an error raised by repository code '
                      'in its try block')
    rep.need('terminator', 60)
    rep.need('swallow', 0)

    # Cython functions: noexcept, and try blocks that drop errors
    ext_names = set()
    for m in pyx.modules():
        for e in pyx.externs(m):
            ext_names.add(e.name)
    for m in pyx.modules():
        if not m.endswith('.pyx'):
            continue
        for fn in pyx.functions(m):
            called = pyx.called_names(fn.node)
            hit = sorted(called & ext_names)
            if not hit:
                continue
            rep.check(not fn.noexcept, 'cython-noexcept', f'{m}:{fn.name}',
                      f'src/triumvirate/{m}:{fn.line}',
                      f'declared noexcept but calls {", ".join(hit)}')
            for t in pyx.walk(fn.node):
                if pyx.kind(t) != 'TryExceptStatNode':
                    continue
                inner = pyx.called_names(t.body) & ext_names
                if not inner:
                    continue
                for c in t.except_clauses:
                    broad = not c.pattern or any(
                        str(getattr(p, 'name', '')) in (
                            'Exception', 'BaseException', 'RuntimeError')
                        for p in c.pattern)
                    drops = not any(
                        pyx.kind(x) in ('RaiseStatNode', 'ReraiseStatNode')
                        for x in pyx.walk(c.body))
                    rep.check(not (broad and drops), 'swallow',
                              f'{m}:{fn.name}',
                              f'src/triumvirate/{m}:{pyx.line(t)}',
                              f'handler drops errors of {sorted(inner)}')
    rep.need('cython-noexcept', 12)
