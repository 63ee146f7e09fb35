"""A disk that survives crashes the way real ones do: only synced data and synced names are certain to be there."""
import errno


class SimDisk:
    """Files live in a cache until fsync; renames are atomic but only certain after the directory is synced."""

    def __init__(self, rng, durable=None, faults=(), on_step=None):
        self.rng = rng
        self.names = dict(durable or {})        # directory as the running program sees it: name -> file object
        self.names = {k: [bytes(v), bytes(v)] for k, v in self.names.items()}     # [content, synced content or None]
        self.old = {k: v for k, v in self.names.items()}                          # directory as last synced
        self.faults = list(faults)              # [(step, kind)]
        self.step = 0
        self.on_step = on_step or (lambda disk, what: None)
        self.fired = []

    def _tick(self, what):
        self.step += 1
        self.on_step(self, what)
        for s, kind in self.faults:
            if s == self.step:
                self.fired.append((kind, what))
                return kind
        return None

    def write(self, name, data):
        """Append data to a file (created if missing)."""
        kind = self._tick("write")
        f = self.names.setdefault(name, [b"", None])
        if kind == "enospc" or kind == "short":
            n = self.rng.randrange(len(data) + 1) if data else 0
            f[0] += data[:n]
            if kind == "short":
                return n
            raise OSError(errno.ENOSPC, "No space left on device")
        if kind == "eio":
            raise OSError(errno.EIO, "Input/output error")
        f[0] += data
        return len(data)

    def fsync(self, name):
        if self._tick("fsync") is not None:
            raise OSError(errno.EIO, "Input/output error")
        f = self.names[name]
        f[1] = f[0]

    def rename(self, a, b):
        if self._tick("rename") is not None:
            raise OSError(errno.EIO, "Input/output error")
        self.names[b] = self.names.pop(a)

    def unlink(self, name):
        self._tick("unlink")
        self.names.pop(name, None)

    def syncdir(self):
        if self._tick("syncdir") is not None:
            raise OSError(errno.EIO, "Input/output error")
        self.old = dict(self.names)

    def read(self, name):
        return self.names[name][0]

    def after_crash(self):
        """What the next process finds: name -> bytes."""
        r = self.rng
        entries = {}
        for name in sorted(set(self.old) | set(self.names)):
            a, b = self.old.get(name), self.names.get(name)
            f = b if a is b or r.random() < 0.5 else a     # an unsynced change of the directory may be lost
            if f is None:
                continue
            data, synced = f
            if synced != data:                              # unsynced contents: lost, torn or (by luck) there
                base = synced if synced is not None else b""
                k = r.random()
                if k < 0.3:
                    data = base
                elif k < 0.8:
                    data = data[:r.randint(min(len(base), len(data)), len(data))]
                    if r.random() < 0.4 and data:           # a sector that was never written
                        p = r.randrange(len(data))
                        data = data[:p] + b"\0" * (len(data) - p)
            entries[name] = data
        return entries
