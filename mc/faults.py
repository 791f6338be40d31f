"""Interposition on file operations: every file-system effect of the code under test becomes a numbered point at which
the process can die, the operation can fail, or another process can look at the disk."""
import builtins
import io
import os
import shutil
from contextlib import contextmanager

FUNCS = ["replace", "rename", "remove", "unlink", "makedirs", "mkdir", "fsync", "link", "truncate", "open", "write", "close"]


class Points:
    def __init__(self, root, at=None, action=None, observer=None):
        self.root, self.at, self.action, self.observer = os.path.abspath(root), at, action, observer
        self.n = 0
        self.log = []

    def hit(self, what):
        k = self.n
        self.n += 1
        self.log.append(what)
        if self.observer is not None:
            self.observer(k, what)
        if self.at == k:
            if self.action == "crash":
                os._exit(77)
            raise self.action


class File:
    """a binary file whose writes are torn at several points; what is not flushed is lost in a crash"""

    def __init__(self, f, pts, name):
        self._f, self._p, self._name = f, pts, name

    def write(self, b):
        b = bytes(b) if isinstance(b, (memoryview, bytearray)) else b
        n = len(b)
        self._p.hit(f"write {self._name}: nothing of {n}")
        cuts = sorted({c for c in (1, n // 2, n - 1) if 0 < c < n}) if n > 64 else []
        last = 0
        for c in cuts:
            self._f.write(b[last:c])
            self._f.flush()
            last = c
            self._p.hit(f"write {self._name}: {c} of {n}")
        self._f.write(b[last:])
        self._p.hit(f"write {self._name}: all, buffered")
        return n

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        self._f.flush()
        self._p.hit(f"flushed {self._name}")

    def close(self):
        if not self._f.closed:
            try:
                self._p.hit(f"close {self._name}")
            finally:
                self._f.close()
            self._p.hit(f"closed {self._name}")

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is not None:
            self._f.close()
            return False
        self.close()

    def __getattr__(self, k):
        return getattr(self._f, k)


@contextmanager
def interposed(pts):
    import dill

    o_open, o_io = builtins.open, io.open
    orig = {n: getattr(os, n) for n in FUNCS}
    o_dump, o_dumps = dill.dump, dill.dumps
    o_move, o_copy = shutil.move, shutil.copyfile

    def inside(p):
        try:
            return os.path.abspath(os.fspath(p)).startswith(pts.root)
        except TypeError:
            return False

    def my_open(file, mode="r", *a, **k):
        if not inside(file) or not any(c in mode for c in "wax+"):
            return o_open(file, mode, *a, **k)
        pts.hit(f"open {os.path.basename(str(file))} {mode}")
        f = o_open(file, mode, *a, **k)
        try:
            pts.hit(f"opened {os.path.basename(str(file))}")
        except BaseException:
            f.close()
            raise
        return File(f, pts, os.path.basename(str(file)))

    def wrap(n):
        def g(*a, **k):
            if n in ("write", "close", "fsync") or (n == "open" and not (len(a) > 1 and a[1] & (os.O_WRONLY | os.O_RDWR))) or not (a and inside(a[0])):
                return orig[n](*a, **k)
            pts.hit(f"before os.{n}")
            r = orig[n](*a, **k)
            pts.hit(f"after os.{n}")
            return r

        return g

    def d_dumps(*a, **k):
        pts.hit("before pickling")
        r = o_dumps(*a, **k)
        pts.hit("after pickling")
        return r

    def d_dump(*a, **k):
        pts.hit("before pickling to a file")
        return o_dump(*a, **k)

    builtins.open = io.open = my_open
    for n in FUNCS:
        setattr(os, n, wrap(n))
    dill.dumps, dill.dump = d_dumps, d_dump
    try:
        yield pts
    finally:
        builtins.open, io.open = o_open, o_io
        for n in FUNCS:
            setattr(os, n, orig[n])
        dill.dump, dill.dumps = o_dump, o_dumps
