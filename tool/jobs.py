"""Run analysis jobs in parallel, each in a forked process with a deep stack, a time limit and a memory limit."""
import os
import pickle
import resource
import select
import signal
import sys
import tempfile
import threading
import time
import traceback


def child(fn, arg, path, mem):
    def go():
        try:
            r = ('ok', fn(arg))
        except BaseException as e:
            r = ('error', '%s: %s' % (type(e).__name__, e), traceback.format_exc())
        with open(path + '.t', 'wb') as f:
            pickle.dump(r, f)
        os.rename(path + '.t', path)
        os._exit(0)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
    except Exception:
        pass
    threading.stack_size(1 << 29)
    sys.setrecursionlimit(100000)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    os._exit(1)


def pmap(fn, args, limit=300, procs=8, mem=12):
    """[(status, result-or-message)] in order; status ok, error or timeout"""
    out = [None] * len(args)
    todo = list(range(len(args)))
    running = {}
    with tempfile.TemporaryDirectory() as d:
        while todo or running:
            while todo and len(running) < procs:
                i = todo.pop(0)
                path = os.path.join(d, str(i))
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    child(fn, args[i], path, mem)
                running[pid] = (i, path, time.time())
            time.sleep(0.02)
            for pid in list(running):
                i, path, t = running[pid]
                p, st = os.waitpid(pid, os.WNOHANG)
                if p == 0:
                    if time.time() - t > limit:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        out[i] = ('timeout', 'more than %d s' % limit)
                        del running[pid]
                    continue
                del running[pid]
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        r = pickle.load(f)
                    out[i] = (r[0], r[1])
                    if r[0] == 'error' and os.environ.get('VERIF_DEBUG'):
                        print(r[2], file=sys.stderr)
                else:
                    out[i] = ('error', 'the analysis process died')
    return out
