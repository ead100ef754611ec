"""D02: non-cubic boxes and anisotropic meshes are handled axis by axis."""
import gc
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import axes, cxx, pyaxes, pysym

EXPLANATION = (
    'Symbolic interpretation of every C++ function in a domain of exact '
    'polynomials whose atoms carry the coordinate axis they belong to '
    '(elements of arrays of extent three, mesh numbers, loop variables that '
    'run over the mesh numbers of one axis, x/y/z components).  A value '
    'stored for one axis, a coordinate scaled by a cell size, box length or '
    'mesh number, and a coordinate compared with a bound may involve that '
    'axis only (terms alike in all three axes count for none), and each '
    'term of a flattened mesh index must step by the mesh numbers of the '
    'axes after its own.  In Python and Cython modules, values under the '
    "keys 'x', 'y', 'z' or in sequences of three are matched by key.")

_PROG = _FIELDS = None


def work(key):
    sys.setrecursionlimit(20000)
    try:
        return key, axes.analyse(_PROG, key, _FIELDS), None
    except Exception as e:                          # not understood
        return key, [], f'{type(e).__name__}: {e}'


def check(rep, tier):
    global _PROG, _FIELDS
    prog = _PROG = cxx.Program()
    rep.rule('axis', 'A per-axis quantity is computed from quantities of '
             'the same axis.')
    rep.rule('compare', 'A coordinate is compared with quantities of its '
             'own axis.')
    rep.rule('index', 'A flattened cell index is row-major in the mesh '
             'numbers.')
    rep.rule('keys', 'Python values under an axis key, or at its position, '
             'are of that axis.')
    _FIELDS, _ = axes.tables(prog)
    gc.collect()
    gc.freeze()
    keys = [k for k, (f, tu) in prog.funcs.items() if f.body is not None]
    seen, nf, nobl = {}, 0, 0
    with ProcessPoolExecutor(8) as ex:
        for key, rows, err in ex.map(work, keys, chunksize=4):
            f = prog.funcs[key][0]
            if err:
                rep.undecided('axis', f.qual, f.loc(), err)
                continue
            nf += bool(rows)
            nobl += len(rows)
            for rule, ok, cons, at, detail in rows:
                k = (rule, cons if not ok else f'{cons} @ {at}')
                if k not in seen or not ok:
                    seen[k] = (ok, at, detail)
    for (rule, cons), (ok, at, detail) in sorted(seen.items()):
        if ok:
            rep.ok(rule, cons, at)
        else:
            rep.bad(rule, cons, at, detail)
    rep.analysed['functions with per-axis quantities'] = nf
    rep.analysed['C++ evaluations judged'] = nobl
    rep.need('axis', 40)
    rep.need('index', 10)
    n = 0
    for name, m in pysym.modules().items():
        for ok, cons, line, detail in pyaxes.judge(m.tree, name):
            n += 1
            rep.check(ok, 'keys', cons, f'{name}:{line}', detail)
    rep.analysed['axis keys'] = n
