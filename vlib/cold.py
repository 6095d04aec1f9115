"""Runs functions in forked children, so that this process never has."""
import os
import pickle
import signal
import sys

from vlib import core


def call(fn, cpu=150):
    """The function's result; its exception is raised as an AssertionError."""
    reading, writing = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(reading)
            for s, t in ((signal.SIGVTALRM, signal.ITIMER_VIRTUAL), (signal.SIGALRM, signal.ITIMER_REAL)):
                signal.signal(s, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
            signal.setitimer(signal.ITIMER_REAL, 400)
            try:
                out = True, fn()
            except BaseException as exc:
                out = False, core.describe(exc)
            text = pickle.dumps(out)
            with os.fdopen(writing, "wb") as f:
                f.write(text)
        finally:
            os._exit(0)
    os.close(writing)
    try:
        with os.fdopen(reading, "rb") as f:
            text = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    assert text, f"the process ended with status {status} (the call did not return, if that is -26 or -14)"
    ok, result = pickle.loads(text)
    if not ok:
        error = result["error"].removeprefix("AssertionError: ")
        raise AssertionError(f"{error} [{'; '.join(result['frames'])}]")
    return result
