#!/usr/bin/env python3
"""./check.py <property id> [--tier quick|thorough] [--root DIR]

Decides one property from the current source of /repo.  Exit 0: holds; 1: VIOLATION; 2: no answer."""
import importlib
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    root = '/repo'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--root' in argv:
        root = argv[argv.index('--root') + 1]
    from vstat import core
    m = importlib.import_module('vstat.rules.' + pid.lower())
    return core.run_check(pid, m.check, tier, ' '.join(m.__doc__.split()), getattr(m, 'ASSUMPTIONS', []), root)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def run():
        rc[0] = main(sys.argv)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
