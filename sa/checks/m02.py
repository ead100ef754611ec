"""M02: interlacing applies every mesh operation to both meshes."""
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import cxx
from ..fieldruns import collect, run, standard
from . import m01

EXPLANATION = (
    'Symbolic interpretation, with interlacing on, of every routine that '
    'uses mesh fields (all field methods inlined) and of the life of a mesh '
    'for each way to construct it.  At each forward transform the content of '
    'the shadow mesh must be the image of the content of the primary mesh; '
    'after it the primary mesh must be half the sum of the two transforms '
    'with the phase of the half-cell shift (the formula found is evaluated '
    'for every cell of two small meshes); loops over a mesh must cover it; '
    'the assignment schemes must fill the shadow mesh with the window at '
    'the shifted position (as in M01); and both meshes and their plans must '
    'be released.')

RULES = {
    'sync': 'When the meshes are combined, the shadow mesh has gone through '
            'the same operations as the primary mesh.',
    'combine': 'The combined mesh is half the sum of both transforms with '
               'the phase of the half-cell shift, for every mode.',
    'cover': 'A loop over the cells of a mesh covers every cell.',
    'release': 'Both meshes and the plans made for them are released once.'}

CASES = [(c, o, None) for c in ('0', 'm', 'N-1')
         for o in ('0', '(0,1/2)', '1/2', '(1/2,1)')]


def work(job):
    sys.setrecursionlimit(20000)
    return m01.work(job)


def check(rep, tier):
    prog = m01._PROG = cxx.Program()
    for r, t in RULES.items():
        rep.rule(r, t)
    rep.rule('fill', 'Every assignment scheme fills the shadow mesh as it '
             'fills the primary mesh, shifted by half a cell.')
    fail = {}
    with ProcessPoolExecutor(8) as ex:
        jobs = [c + (s,) for s in m01.ORDER for c in CASES]
        for (cell, off, n, scheme), what, rows in ex.map(work, jobs):
            f = prog.by_qual.get('trv::MeshField::'
                                 f'assign_weighted_field_to_mesh_{scheme}')
            at = f[0][0].loc() if f else '?'
            for rule, ok, mesh, detail in rows:
                if mesh != 'field_s':
                    continue
                k = f'{scheme}: {rule}'
                if ok:
                    rep.ok('fill', f'{k}: {what}', at)
                elif ok is None:
                    rep.undecided('fill', f'{k}: {what}', at, detail)
                else:
                    fail.setdefault(k, (at, f'{what}: {detail}'))
    for k, (at, d) in sorted(fail.items()):
        rep.bad('fill', k, at, 'shadow mesh: ' + d)
    collect(rep, run(prog, standard(prog, ('true',))), RULES)
    rep.need('sync', 5)
    rep.need('combine', 1)
