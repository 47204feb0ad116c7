#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  - decide one property from /repo's source."""
import argparse
import importlib
import os
import sys
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

from sa import core
from sa.model import Project


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    m = importlib.import_module('props.' + a.prop.lower())
    ctx = core.Ctx(a.prop, a.tier, Project(), int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        m.check(ctx)
    except core.AnchorLost as e:
        print('cannot decide %s: public entry point %s not found' % (a.prop, e))
        return 2
    return core.finish(ctx, t0, m.TECHNIQUE, getattr(m, 'LEVEL', 'other'))


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    def run():
        try:
            rc.append(main())
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(3)
    th = threading.Thread(target=run)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
