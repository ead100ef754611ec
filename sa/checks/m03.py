"""M03: transforms run only on prepared plans, in the right direction,
normalised."""
from .. import cxx
from ..fieldruns import collect, run, standard

EXPLANATION = (
    'Symbolic interpretation of every routine that uses mesh fields, with '
    'all field methods inlined, and of the life of a mesh and of a '
    'statistics object for each way to construct them.  Transform plans and '
    'buffers are typestate objects: at every fftw_execute the plan must '
    'have been created and be alive, its buffers be allocated for the same '
    'mesh, and the content after the enclosing operation must carry the '
    'cell volume once (forward) or the inverse box volume, or inverse mode '
    'count, once (backward).  The constructors are followed for each '
    'combination of wisdom files present and statuses set.')

RULES = {
    'plan': 'Every executed plan is created and alive, and works on '
            'allocated buffers of the mesh it was made for.',
    'norm': 'Every transformed mesh carries its volume factor exactly once, '
            'with the direction of the plan.',
    'wisdom': 'Wisdom is imported before and exported after the plan of its '
              'own direction, and the matching status is set.'}


def names(rep, prog):
    """The forward and backward wisdom files have different names."""
    fmts = {}
    for f, tu in prog.funcs.values():
        if f.body is None:
            continue
        src, lit = {}, {}
        for n in f.body.walk():
            if n.kind == 'CXXOperatorCallExpr' and len(n.kids) == 3 or \
                    n.kind == 'BinaryOperator' and n.op == '=':
                a, b = n.kids[-2].strip(), n.kids[-1].strip()
                if a.kind == 'MemberExpr' and (a.name or '').startswith(
                        'fftw_wisdom_file_'):
                    for k in b.walk():
                        if k.kind == 'DeclRefExpr' and k.ref:
                            src.setdefault(a.name, set()).add(
                                k.ref.get('id'))
            if n.kind == 'CallExpr' and tu.callee(n)[1] in (
                    'snprintf', 'sprintf') and len(n.kids) > 2:
                dst = [k.ref.get('id') for k in n.kids[1].walk()
                       if k.kind == 'DeclRefExpr' and k.ref]
                ls = [k.d.get('value') for k in n.walk()
                      if k.kind == 'StringLiteral']
                for d in dst:
                    lit.setdefault(d, []).append((ls[:1], n))
        for m, ids in src.items():
            for i in ids:
                for ls, n in lit.get(i, ()):
                    fmts.setdefault(m, []).append((tuple(ls), n))
    if len(fmts) < 2 or any(not x[0] for v in fmts.values() for x in v):
        rep.undecided('wisdom', 'names of the wisdom files', '?',
                      'not understood')
        return
    ms = sorted(fmts)
    a, b = ({x[0] for x in fmts[m]} for m in ms[:2])
    rep.check(not a & b, 'wisdom', 'names of the wisdom files',
              fmts[ms[1]][0][1].loc(), f'{ms[0]} and {ms[1]} are the same '
              f'file, {sorted(a & b)}')


def check(rep, tier):
    prog = cxx.Program()
    for r, t in RULES.items():
        rep.rule(r, t)
    jobs = standard(prog, ('false', 'true'))
    for cls in ('MeshField', 'FieldStats'):
        for m in range(16):
            jobs.append(('wisdom', cls) + tuple(
                bool(m >> k & 1) for k in range(4)))
    collect(rep, run(prog, jobs), RULES)
    names(rep, prog)
    rep.need('plan', 20)
    rep.need('norm', 5)
