"""forked processes"""
import os, pickle, signal
from .core import Viol


def in_child(fn, limit=60):
    """run fn() in a forked process, give back what it returns"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(limit)
        try:
            try:
                out = ('ok', fn())
            except Viol as e:
                out = ('viol', str(e))
            except BaseException as e:
                import traceback
                out = ('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-800:]))
            data = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        return ('died', st)
    return pickle.loads(data)
