"""Run part of an execution in a child process, so that it starts from the state right after import."""
import os
import pickle
import signal
import traceback

from . import explore


class Seen:
    """An outcome as it was seen in the child."""
    error = None

    def __init__(self, key):
        self._key = key

    def key(self):
        return self._key

    def __repr__(self):
        return "raised %s" % self._key[1] if self._key[0] == "raise" else str(self._key[1])


def isolated(x, fn, *args):
    """fn(x, *args) in a child; its choices, calls and verdict count for x. -> what fn returned (must pickle)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            value = msg = err = None
            n = len(x.calls)
            try:
                value = fn(x, *args)
            except explore.Violation as v:
                msg = str(v)
            except explore.Divergence:
                err = traceback.format_exc()
            except Exception:  # noqa: BLE001
                if len(x.calls) > n:
                    msg = "unreadable result: " + traceback.format_exc()[-600:]
                else:
                    err = traceback.format_exc()
            calls = [(m, explore.short(explore.plain((a, k)), 2000), o.key()) for m, a, k, o in x.calls[n:]]
            with os.fdopen(w, "wb") as f:
                pickle.dump((value, msg, err, calls, x.choices, x.points), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except explore.Hang:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise explore.Violation("the process running it died")
    value, msg, err, calls, x.choices, x.points = pickle.loads(data)
    if err:
        raise RuntimeError(err)
    for n, a, k in calls:
        x.note(n, (a,), {}, Seen(k))
    if msg is not None:
        raise explore.Violation(msg)
    return value
