"""Simulated disk under the Python file stack.

open() for paths below the simulated root returns the standard buffering and
text layers over SimRaw, a raw file whose every operation is a numbered fault
point.  Directory operations (rename, unlink, ...) are fault points too.  After
a simulated kill the disk is frozen: buffered data that had not reached a raw
write is lost, as in a killed process.  Backing store is a scratch directory."""
import builtins, errno, io, os, shutil

class Killed(BaseException):
    """The simulated process died here."""

_real_open, _real_io_open = builtins.open, io.open
_os = {n: getattr(os, n) for n in ("replace", "rename", "unlink", "remove", "link", "fsync", "truncate", "mkdir")}

class Disk:
    def __init__(self, root):
        self.root = os.path.realpath(root) + "/"
        self.ops = []            # (kind, name)
        self.dead = False
        self.plan = None         # f(i, kind, name, n) -> None | action tuple
        self.bufsize = 8192
        self.full = False        # persistent ENOSPC
        self.bad = set()         # names with persistent read errors
        self.open_raws = set()

    def inside(self, p):
        try: p = os.fspath(p)
        except TypeError: return None
        if isinstance(p, bytes): p = os.fsdecode(p)
        q = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
        return q if q.startswith(self.root) else None

    def name(self, p): return p[len(self.root):]

    def op(self, kind, name, n=0):
        """Registers a fault point; returns the planned action or None."""
        if self.dead: return ("dead",)
        i = len(self.ops)
        self.ops.append((kind, name))
        a = self.plan(i, kind, name, n) if self.plan else None
        if a and a[0] == "kill":
            self.dead = True
        return a

    # -------------------------------------------------------------- patches
    def __enter__(self):
        disk = self
        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            p = None if isinstance(file, int) else disk.inside(file)
            if p is None: return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            m = mode.replace("b", "").replace("t", "")
            w = any(c in m for c in "wax+")
            a = disk.op("open-w" if w else "open-r", disk.name(p))
            if a:
                if a[0] == "dead": raise Killed()
                if a[0] == "kill": raise Killed()
                if a[0] == "err": raise OSError(a[1], os.strerror(a[1]), str(file))
            raw = SimRaw(disk, p, m)
            bs = disk.bufsize if buffering in (-1, 1) else buffering
            if buffering == 0:
                return raw
            if "+" in m: b = io.BufferedRandom(raw, bs)
            elif w: b = io.BufferedWriter(raw, bs)
            else: b = io.BufferedReader(raw, bs)
            if "b" in mode: return b
            t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline)
            t.mode = mode
            return t
        def wrap(name):
            real = _os[name]
            def f(p, *a, **k):
                if isinstance(p, int):
                    if disk.dead: raise Killed()
                    return real(p, *a, **k)
                q = disk.inside(p)
                if q is None: return real(p, *a, **k)
                act = disk.op(name, disk.name(q))
                if act:
                    if act[0] == "dead": raise Killed()
                    if act[0] == "kill":
                        if act[1]: real(p, *a, **k)
                        raise Killed()
                    if act[0] == "err": raise OSError(act[1], os.strerror(act[1]), str(p))
                return real(p, *a, **k)
            return f
        builtins.open = sim_open
        io.open = sim_open
        for n in _os: setattr(os, n, wrap(n))
        return self

    def __exit__(self, *a):
        builtins.open, io.open = _real_open, _real_io_open
        for n in _os: setattr(os, n, _os[n])
        # whatever the code left open dies with the process
        self.dead = True
        for r in list(self.open_raws): r.really_close()

    def freeze(self): self.dead = True

    def snapshot(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with _real_open(p, "rb") as h: out[p[len(self.root):]] = h.read()
        return out

class SimRaw(io.FileIO):
    def __init__(self, disk, path, mode):
        self.disk, self.rel, self.dirty = disk, disk.name(path), False
        self._closed_once = False
        io.FileIO.__init__(self, path, mode)
        self.w = any(c in mode for c in "wax+")
        disk.open_raws.add(self)
    def write(self, data):
        d = self.disk
        mv = memoryview(data).cast("B")
        n = len(mv)
        if d.dead: return n
        if d.full: d.op("write", self.rel, n); raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        a = d.op("write", self.rel, n)
        if a is None: return io.FileIO.write(self, mv)
        k = min(n, max(0, a[-1])) if a[0] in ("kill", "full", "short") else 0
        if a[0] == "kill":
            if k: io.FileIO.write(self, mv[:k])
            raise Killed()
        if a[0] == "full":             # the disk fills up inside this write
            d.full = a[1]              # persistent?
            if k: return io.FileIO.write(self, mv[:k])
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if a[0] == "short": return io.FileIO.write(self, mv[:max(1, k)])
        if a[0] == "err": raise OSError(a[1], os.strerror(a[1]))
        return io.FileIO.write(self, mv)
    def _read(self, n):
        d = self.disk
        if d.dead: return ("eof",)
        if self.rel in d.bad: d.op("read", self.rel, n); raise OSError(errno.EIO, os.strerror(errno.EIO))
        a = d.op("read", self.rel, n)
        if a:
            if a[0] == "kill": raise Killed()
            if a[0] == "err":
                if a[2]: d.bad.add(self.rel)
                raise OSError(a[1], os.strerror(a[1]))
            if a[0] == "short": return ("short", max(1, min(n, a[-1])))
        return None
    def readinto(self, b):
        mv = memoryview(b).cast("B")
        r = self._read(len(mv))
        if r is None: return io.FileIO.readinto(self, b)
        if r[0] == "eof": return 0
        return io.FileIO.readinto(self, mv[:r[1]])
    def read(self, n=-1):
        if n is None or n < 0: return self.readall()
        r = self._read(n)
        if r is None: return io.FileIO.read(self, n)
        if r[0] == "eof": return b""
        return io.FileIO.read(self, r[1])
    def readall(self):
        r = self._read(1 << 20)
        if r and r[0] == "eof": return b""
        return io.FileIO.readall(self)
    def truncate(self, size=None):
        if self.disk.dead: return size
        return io.FileIO.truncate(self, size)
    def really_close(self):
        self.disk.open_raws.discard(self)
        self._closed_once = True
        try: io.FileIO.close(self)
        except Exception: pass
    def close(self):
        if self._closed_once or self.closed: return
        self._closed_once = True
        a = None
        try: a = self.disk.op("close-w" if self.w else "close-r", self.rel)
        finally: self.really_close()
        if a:
            if a[0] == "kill": raise Killed()
            if a[0] == "err": raise OSError(a[1], os.strerror(a[1]))
