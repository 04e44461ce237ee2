import argparse
import os
import sys
import traceback
import warnings


def _main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--limit', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    from . import core
    try:
        if a.replay:
            rc = core.replay(a.replay)
        else:
            rc = core.main(a.property.upper(), a.tier, a.jobs, a.limit)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


_main()
