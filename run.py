#!/usr/bin/env python3-vt
"""run.py <property id>: decide one property on /repo's current tree."""
import importlib
import os
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.setrecursionlimit(200000)
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            os.environ['VERIF_TIER'] = a
    import traceback
    try:
        rc = importlib.import_module(pid.lower()).run(pid)
    except SystemExit as e:
        rc = e.code
    except BaseException:
        # nothing decided: said so, and no alarm raised
        traceback.print_exc()
        import common
        c = common.Check(pid)
        c.add([common.res('check', 'undecided', note='the check could not run: ' + traceback.format_exc()[-1500:])])
        rc = c.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc if rc is not None else 2)


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
