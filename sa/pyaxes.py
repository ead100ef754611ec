"""Axis keys 'x', 'y', 'z' of Python and Cython code: a value stored under
the key of an axis, or at its position of a sequence, is of that axis."""
import ast

AX = 'xyz'


def axes(n):
    """Axis keys an expression reads values of."""
    out = set()
    for k in ast.walk(n):
        s = k.slice if isinstance(k, ast.Subscript) else None
        if isinstance(s, ast.Constant) and s.value in ('x', 'y', 'z'):
            out.add(AX.index(s.value))
    return out


class Blank(ast.NodeTransformer):
    def visit_Constant(self, n):
        return ast.Constant('#') if n.value in ('x', 'y', 'z') else n


def shape(n):
    return ast.dump(Blank().visit(ast.parse(ast.unparse(n), mode='eval')))


def names(n):
    """A display of the three axis names."""
    return isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) == 3 and \
        all(isinstance(e, ast.Constant) and e.value in ('x', 'y', 'z')
            for e in n.elts)


def judge(tree, fname):
    """[(ok, construct, line, detail)]"""
    rows = []
    fn = {}
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for k in ast.walk(f):
                fn[id(k)] = f.name

    def row(ok, n, what, detail):
        rows.append((ok, f'{fname}::{fn.get(id(n), "<module>")}: {what}',
                     getattr(n, 'lineno', 0), detail))

    def seq(elts, n, what):
        """Runs of three alike elements of one axis each."""
        tags = [axes(e) if not isinstance(e, ast.Starred)
                else axes(e.value) for e in elts]
        i = 0
        while i + 3 <= len(elts):
            if all(len(t) == 1 for t in tags[i:i + 3]):
                es = [e.value if isinstance(e, ast.Starred) else e
                      for e in elts[i:i + 3]]
                if len({shape(e) for e in es}) == 1:
                    got = [next(iter(t)) for t in tags[i:i + 3]]
                    row(got == [0, 1, 2], n, what,
                        f'values of axes {[AX[g] for g in got]} stand in '
                        'for x, y, z')
                    i += 3
                    continue
            i += 1

    loops = {id(f.iter) for f in ast.walk(tree) if isinstance(f, ast.For)}
    for n in ast.walk(tree):
        if isinstance(n, (ast.List, ast.Tuple)):
            seq(n.elts, n, 'sequence')
            if names(n) and id(n) not in loops:
                got = ''.join(e.value for e in n.elts)
                row(got == AX, n, 'axis names',
                    f'the axes are taken in the order {got}')
        elif isinstance(n, ast.Call):
            seq(n.args, n, 'arguments')
        elif isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and k.value in (
                        'x', 'y', 'z') and axes(v):
                    row(axes(v) == {AX.index(k.value)} or len(axes(v)) == 3,
                        n, f"'{k.value}' entry",
                        f'computed from axes {[AX[g] for g in axes(v)]}')
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                s = t.slice if isinstance(t, ast.Subscript) else None
                if isinstance(s, ast.Constant) and s.value in (
                        'x', 'y', 'z') and axes(n.value):
                    a = axes(n.value)
                    row(a == {AX.index(s.value)} or len(a) == 3, n,
                        f"'{s.value}' entry",
                        f'computed from axes {[AX[g] for g in a]}')
    return rows
