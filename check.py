#!/usr/bin/env python3-vt
"""check.py PROPERTY quick|thorough       decide one property
check.py --replay CFG KIT OP TAPEFILE     rerun one counterexample natively
check.py --random CFG KIT OP N            run one contract natively on N pseudo random inputs"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main(a):
    import driver
    if len(a) == 5 and a[0] in ('--replay', '--random'):
        import shutil
        import tempfile
        w = tempfile.mkdtemp(prefix='vp_replay_')
        try:
            exe, text, err = driver.native_build(a[1], a[2], a[3], w)
            if not exe:
                print(err)
                return 2
            rc, out = driver.native_run(exe, [a[4]] if a[0] == '--replay' else ['--random', a[4]])
            print(out)
            return rc
        finally:
            shutil.rmtree(w, True)
    if len(a) < 1 or a[0] not in driver.table.PROPS:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return driver.Check(a[0], tier).run()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
