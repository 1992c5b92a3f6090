import argparse
import importlib
import os
import sys
import tempfile
import shutil


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--shards', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    scratch = tempfile.mkdtemp(prefix='vrt-')
    while 'mpc' in scratch:     # the .mpc reader maps that part of a path
        os.rmdir(scratch)
        scratch = tempfile.mkdtemp(prefix='vrt-')
    os.environ['MPLCONFIGDIR'] = scratch
    os.environ['VRT_SCRATCH'] = scratch
    try:
        import logging
        logging.disable(logging.CRITICAL)
        from vrt import core
        sys.path.insert(0, core.REPO)
        import newt
        where = os.path.realpath(newt.__file__)
        if not where.startswith(os.path.realpath(core.REPO)+os.sep):
            print(f'imported {where}, not the tree under test')
            return 2
        mod = importlib.import_module('checks.'+a.prop.lower())
        return core.run_check(mod, a.prop, tier, a.seed, a.shards)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
