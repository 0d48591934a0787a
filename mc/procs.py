"""Running a function in a forked process."""
import logging
import os
import pickle
import select
import signal
import sys
import time


def forked(fn, limit=50):
    """The result of fn in a forked process."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit + 5)
            logging.disable(logging.NOTSET)
            logging.getLogger("RSM").handlers[:] = []
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.time() + limit
    try:
        while True:
            if not select.select([r], [], [], max(0, deadline - time.time()))[0]:
                return None
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    return pickle.loads(b"".join(chunks)) if chunks else None
