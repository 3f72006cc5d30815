#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    os.environ.setdefault('VERIF_SEED', '1')
    try:
        mod = importlib.import_module(pid.lower())
        rc = mod.run(tier)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN: %s' % pid, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') is None:
        os.environ['PYTHONHASHSEED'] = '0'      # the same order of iteration in every run
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.setrecursionlimit(100000)
    import threading
    threading.stack_size(1 << 29)
    t = threading.Thread(target=main)
    t.start()
    t.join()
