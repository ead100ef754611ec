"""Run one check:  python3-vt -m sa.run [--thorough] R02"""
import importlib
import os
import sys

from . import report


def main():
    rc = 0
    props = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--thorough' in sys.argv:
        os.environ['VERIF_TIER'] = 'thorough'
    for prop in props:
        mod = importlib.import_module(f'sa.checks.{prop.lower()}')
        rc = max(rc, report.run(prop, mod.check, mod.EXPLANATION))
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
