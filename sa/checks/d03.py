"""D03: products of mesh dimensions live in 64-bit arithmetic."""
from .. import cxx, pyx
from ..absint import clean
from ..degree import Degrees, width

EXPLANATION = (
    'Interprocedural, flow-insensitive inference of the degree in the mesh '
    'dimensions of every arithmetic expression, variable, member, '
    'parameter and return value of the back end.  Every integer product of '
    'degree two or more, and every store, argument, return, loop counter '
    'or conversion that carries such a value, must have a 64-bit type.')

SEEDS = {'ngrid': 1, 'nmesh': 3}


def check(rep, tier):
    prog = cxx.Program()
    rep.rule('wide-product', 'An integer product of two or more mesh '
             'dimensions is computed in a 64-bit type.')
    rep.rule('narrowing', 'No value of degree two or more in the mesh '
             'dimensions is converted to a type below 64 bits.')
    rep.rule('counter', 'A loop counter bounded by a product of mesh '
             'dimensions has a 64-bit type.')
    rep.rule('declared', 'Members that hold a product of mesh dimensions '
             'are declared 64-bit, in C++ and in the bindings.')
    D = Degrees(prog, SEEDS)
    rep.analysed['functions'] = len(D.funcs)
    nodes = 0
    for f, tu in D.funcs:
        cnt = {}
        for n in f.body.walk():
            t = n.desugared or n.type or ''
            if n.kind in ('BinaryOperator', 'CompoundAssignOperator') and \
                    n.op in ('*', '*=', '+', '-', '+=', '-='):
                w = width(t)
                if n.kind[0] == 'C':
                    ct = n.d.get('computeResultType') or {}
                    w2 = width(ct.get('desugaredQualType') or
                               ct.get('qualType') or t)
                    w = min(x for x in (w, w2) if x) if (w or w2) else None
                if w is None:
                    continue
                nodes += 1
                d = D.of(n, tu, f)
                if d < 2:
                    continue
                c = cnt[n.op] = cnt.get(n.op, 0) + 1
                name = f'{f.qual}: {n.op} of degree {d} #{c}'
                rep.check(w >= 64, 'wide-product', name, n.loc(),
                          f'the result of degree {d} in the mesh '
                          f'dimensions has the {w}-bit type {clean(t)}')
            elif n.kind in ('ImplicitCastExpr', 'CStyleCastExpr',
                            'CXXStaticCastExpr', 'CXXFunctionalCastExpr') \
                    and n.d.get('castKind') in ('IntegralCast',
                                                'FloatingToIntegral') \
                    or n.kind in ('CXXStaticCastExpr', 'CStyleCastExpr',
                                  'CXXFunctionalCastExpr') and \
                    n.kids and width(t):
                w = width(t)
                nodes += 1
                if w is None or w == 1 or not n.kids:
                    continue
                d = D.of(n.kids[0], tu, f)
                if d < 2:
                    continue
                sw = width(n.kids[0].desugared or n.kids[0].type or '')
                if sw is not None and sw <= w and w < 64:
                    continue       # already narrow: reported at its source
                c = cnt['c'] = cnt.get('c', 0) + 1
                rep.check(w >= 64, 'narrowing',
                          f'{f.qual}: conversion to {clean(t)} #{c}',
                          n.loc(), f'a value of degree {d} in the mesh '
                          f'dimensions is converted to {w} bits')
    for n, var, bound, tu, f in D.loops:
        d = D.of(bound, tu, f)
        w = width(var.strip().desugared or var.strip().type or '')
        if d >= 2 and w:
            rep.check(w >= 64, 'counter', f'{f.qual}: loop over degree {d}',
                      n.loc(), f'the loop counter has {w} bits')
    members(rep, prog, D)
    rep.analysed['integer_operations'] = nodes
    rep.need('wide-product', 10)
    rep.need('declared', 1)


def members(rep, prog, D):
    big = {}
    for q, (r, tu) in prog.records.items():
        if q.startswith('std'):
            continue
        for fld in r.fields:
            d = SEEDS.get(fld.name, D.deg.get(('m', fld.name), 0))
            t = (fld.desugared or fld.type or '')
            if d >= 2 and width(t.split('[')[0].strip('* ')):
                if t.endswith(']') or '*' in t:
                    continue
                if '/usr' in (r.node.loc() or ''):
                    continue
                big[fld.name] = q
                rep.check(width(t) >= 64, 'declared', f'{q}::{fld.name}',
                          fld.loc(), f'declared {clean(t)} but holds a '
                          f'value of degree {d} in the mesh dimensions')
    # variables and parameters
    for f, tu in D.funcs:
        for n in list(f.params) + [x for x in f.body.walk()
                                   if x.kind == 'VarDecl']:
            d = D.deg.get(('v', f.key, n.id), 0)
            w = width((n.desugared or n.type or '').replace('const ', '')
                      .strip(' &'))
            if d >= 2 and w and w > 1:
                rep.check(w >= 64, 'declared', f'{f.qual}: {n.name}',
                          n.loc(), f'a {w}-bit variable receives a value '
                          f'of degree {d} in the mesh dimensions')
        d = D.deg.get(('r', f.key), 0)
        rt = clean((f.type or '').split('(')[0]).replace('const ', '')
        if d >= 2 and width(rt):
            rep.check(width(rt) >= 64, 'declared', f'{f.qual} return value',
                      f.node.loc(), f'returns a value of degree {d} in '
                      f'{width(rt)} bits')
    for mod in pyx.modules():
        if not mod.endswith('.pxd'):
            continue
        for nm, typ, ln in struct_members(mod):
            if nm in big:
                ok = typ.count('long') == 2 or typ in (
                    'size_t', 'ptrdiff_t', 'int64_t', 'long')
                rep.check(ok, 'declared', f'{mod}: {nm}',
                          f'src/triumvirate/{mod}:{ln}', f'the binding '
                          f'declares {typ} for a 64-bit count')


def struct_members(mod):
    """(name, type text, line) of plain members declared in a .pxd."""
    out = []
    tree = pyx.parse(mod)
    for n in pyx.walk(tree):
        if pyx.kind(n) != 'CVarDefNode':
            continue
        bt = n.base_type
        name = getattr(bt, 'name', None)
        if not isinstance(name, str):
            continue
        ll = getattr(bt, 'longness', 0)
        t = ('long ' * ll + name).strip() if ll > 0 else \
            'short' if ll < 0 else name
        for d in n.declarators:
            nm = pyx.decl_name(d)
            if nm:
                out.append((nm[1] or nm[0], t, pyx.line(n)))
    return out
