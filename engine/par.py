"""Runs the parts of a check in parallel child processes and merges their reports."""
import os
import pickle
import signal
import sys
import time
import traceback


def run(rep, tasks, jobs=None, limit=600):
    """tasks: list of (name, function(rep)); every function runs in a forked child with its own report"""
    jobs = jobs or min(8, os.cpu_count() or 4)
    todo = list(tasks)
    live = {}
    failed = []
    sys.stdout.flush()
    sys.stderr.flush()
    import gc
    gc.freeze()
    while todo or live:
        while todo and len(live) < jobs:
            name, fn = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    rep.clear()
                    fn(rep)
                    data = pickle.dumps(rep.pack())
                except BaseException as e:
                    data = pickle.dumps(('error', name, '%s: %s' % (type(e).__name__, e), traceback.format_exc()))
                    code = 1
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                os._exit(code)
            os.close(w)
            live[r] = (pid, name, time.time(), [])
        import select
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            pid, name, t, buf = live[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            del live[r]
            os.waitpid(pid, 0)
            try:
                d = pickle.loads(b''.join(buf))
            except Exception:
                d = ('error', name, 'the child process was ended', '')
            if isinstance(d, tuple):
                failed.append(d[1:])
            else:
                rep.merge(d)
        for r in list(live):
            pid, name, t, buf = live[r]
            if time.time() - t > limit or rep.viol and time.time() - t > 90 and os.environ.get('VERIF_TIER') != 'thorough' and not todo:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                failed.append((name, 'time limit' if time.time() - t > limit else 'stopped at the violations found', ''))
    for name, msg, tb in failed:
        rep.notes['part %s gave no answer: %s' % (name, msg[:200])] = 1
        sys.stderr.write('part %s: %s\n%s\n' % (name, msg, tb[-1500:]))
    rep.count('parts', len(tasks))
    rep.count('parts without an answer', len(failed))
    if failed and len(failed) == len(tasks):
        from .report import Broken
        raise Broken('no part of the check gave an answer: %s' % (failed[0][1],))
    return failed
