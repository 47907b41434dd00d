import argparse
import importlib
import os
import sys

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--sub', action='append')
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    mod = importlib.import_module('checks.' + a.pid.lower())
    if a.replay:
        return core.replay(a.replay)
    return core.run_property(a.pid, mod.META, a.tier, a.seed, a.sub, a.jobs)


if __name__ == '__main__':
    code = 3
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)
