"""Locks for library code that run under the simulator's scheduler (no thread ever blocks for real)."""
import seams


class SimLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def _me(self):
        s = seams.SIM
        return ("t", s.current_thread()) if s is not None else ("main", 0)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = seams.SIM
        if s is not None:
            s.yield_point("lock")
        while True:
            if self.owner is None:
                self.owner, self.depth = me, 1
                return True
            if self.reentrant and self.owner == me:
                self.depth += 1
                return True
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if s is None or not s.block_on(self):
                from sim import Deadlock
                raise Deadlock("lock never released")

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


class SimRLock(SimLock):
    reentrant = True
