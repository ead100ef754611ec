"""S03: results do not depend on a data race between threads."""
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import cxx, races

EXPLANATION = (
    'Symbolic interpretation of every function that opens an OpenMP parallel '
    'region, with all repository calls made inside a region inlined.  Every '
    'access to memory that is shared between threads (created before the '
    'region, static or global; data-sharing clauses applied) is recorded '
    'with its symbolic address, protection and barrier phase.  An '
    'unprotected write must have an index that is a different one in every '
    'concurrent iteration (a linear form in the distributed loop variables '
    'that steps like a mixed-radix number, or the thread number), and no '
    'other access of the same phase may reach that location from another '
    'iteration; protected accesses of one location must use the same '
    'protection.  Library functions count as writing what they take by '
    'non-constant pointer or reference.')

_PROG = None


def work(key):
    sys.setrecursionlimit(20000)
    try:
        return key, races.analyse(_PROG, key), None
    except Exception as e:                          # not understood
        return key, None, f'{type(e).__name__}: {e}'


def check(rep, tier):
    global _PROG
    prog = _PROG = cxx.Program()
    rep.rule('write', 'Memory shared between threads is written atomically, '
             'in a critical section, or where no other thread writes.')
    rep.rule('read', 'Memory shared between threads is not read while '
             'another thread may write it.')
    rep.rule('call', 'Functions called from several threads keep no hidden '
             'state.')
    es = races.entries(prog)
    seen, nreg, nacc, locs = {}, 0, 0, set()
    keys = sorted({f.key for f, _ in es}, key=str)
    with ProcessPoolExecutor(8) as ex:
        for key, res, err in ex.map(work, keys):
            f = prog.funcs[key][0]
            if res is None:
                rep.undecided('write', f.qual, f.loc(), err)
                continue
            rows, n, a, ls = res
            nreg += n
            nacc += a
            locs |= ls
            want = sum(1 for x in f.body.walk() if x.kind.startswith('OMP')
                       and 'Parallel' in x.kind)
            if n < want:
                rep.undecided('write', f'{f.qual}: regions', f.loc(),
                              f'{want - n} parallel regions not reached')
            for rule, ok, cons, at, detail in rows:
                k = (rule, cons)
                rank = 0 if ok is False else 1 if ok is None else 2
                if k not in seen or rank < seen[k][0]:
                    seen[k] = (rank, at, detail)
    for (rule, cons), (rank, at, detail) in sorted(seen.items()):
        if rank == 0:
            rep.bad(rule, cons, at, detail)
        elif rank == 1:
            rep.undecided(rule, cons, at, detail)
        else:
            rep.ok(rule, cons, at)
    rep.analysed['functions with parallel regions'] = len(keys)
    rep.analysed['parallel regions'] = nreg
    rep.analysed['shared accesses'] = nacc
    rep.need('write', 10)
