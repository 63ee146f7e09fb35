"""Run a function in a forked copy of this (pristine) process and return its result."""
import ctypes
import os
import pickle
import select
import signal
import struct
import sys
import traceback

import seams


class ChildFailure(Exception):
    """A child gave no result: crash, timeout or exception.  `library` is set when it was the library's own code that
    raised, in a use no property module expects to fail."""
    library = None


def from_library(e):
    """What the library did when an unexpected exception (not an injected one) comes from it: raised itself, or returned
    something the property module cannot read as what the library documents; None for trouble of the harness's own."""
    import boot
    if "injected" in str(e) or not isinstance(e, Exception):
        return None
    where, last, tb = None, "", e.__traceback__
    while tb is not None:
        c = tb.tb_frame.f_code
        if c in boot.CODES:
            where = c.co_qualname
        elif c.co_filename.startswith(boot.HERE):
            where = None                               # the library called back into the harness
            last = c.co_filename[len(boot.HERE):].lstrip("/")
        tb = tb.tb_next
    if where:
        return "raised", "the library failed in an undisturbed use: %s: %r" % (where, e)
    if isinstance(e, (ValueError, TypeError, LookupError, AttributeError, ArithmeticError)) and last.startswith(("props/", "obs", "packing", "geometry")):
        return "unreadable", "what the library returned does not have the documented form: %r (read in %s)" % (e, last)
    return None


EXIT_FD = None
_LIBC = ctypes.CDLL(None)


def die_with_parent():
    try:
        _LIBC.prctl(1, signal.SIGKILL)
    except Exception:
        pass


def _send(w, data):
    seams.SIM = None
    os.write(w, struct.pack("<Q", len(data)))
    view = memoryview(data)
    while view:
        n = os.write(w, view[:1 << 20])
        view = view[n:]


def exit_with(val):
    """A simulated process crash: the child stops here and now (no unwinding, no clean-up); val is what is left of it."""
    code = 1
    try:
        _send(EXIT_FD, pickle.dumps((True, val), protocol=5))
        code = 0
    finally:
        os._exit(code)


def isolated(fn, *args, timeout=150.0):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            die_with_parent()
            global EXIT_FD
            EXIT_FD = w
            os.dup2(DEVNULL, 0)
            if not os.environ.get("DST_DEBUG"):
                os.dup2(DEVNULL, 1)
                os.dup2(DEVNULL, 2)
            try:
                data = pickle.dumps((True, fn(*args)), protocol=5)
            except BaseException as e:
                data = pickle.dumps((False, (traceback.format_exc(), from_library(e))), protocol=5)
            _send(w, data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = seams.REAL_MONO() + timeout
    try:
        while True:
            left = deadline - seams.REAL_MONO()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                raise ChildFailure("timeout after %.0f s" % timeout)
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) - 8 != struct.unpack("<Q", buf[:8])[0]:
        e = ChildFailure("child died (status %d)" % status)
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE):
            e.library = ("crashed", "the process died of signal %d in an undisturbed use" % os.WTERMSIG(status))
        raise e
    ok, val = pickle.loads(bytes(buf[8:]))
    if not ok:
        e = ChildFailure(val[0])
        e.library = val[1]
        raise e
    return val


DEVNULL = os.open(os.devnull, os.O_RDWR)
