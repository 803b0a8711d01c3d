"""A scratch directory whose directory creations, opens and writes can fail.

The files are real (below a directory made for the run), so whatever way the code under test chooses to reach
the disk, it reaches it through the patched entry points."""
import builtins
import errno
import io
import os
import shutil
import tempfile


class File:
    """A file whose writes stop with a disk error after some bytes (the bytes before are kept: a torn file)."""

    def __init__(self, disk, f, path):
        self.__dict__.update(_disk=disk, _f=f, _path=path)

    def write(self, s):
        k = self._disk.take('write')
        if k is not None:
            self._f.write(s[:len(s) // 2])
            self._f.flush()
            raise OSError(k, os.strerror(k), self._path)
        return self._f.write(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def close(self):
        if self._f.closed:
            return
        k = self._disk.take('close')
        self._f.close()
        if k is not None:
            raise OSError(k, os.strerror(k), self._path)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, n):
        return getattr(self._f, n)


class Disk:
    KINDS = {'mkdir': (errno.ENOSPC, errno.EACCES), 'open': (errno.ENOSPC, errno.EMFILE, errno.EACCES),
             'write': (errno.ENOSPC, errno.EIO), 'close': (errno.EIO,)}

    def __init__(self, faults):
        self.root = tempfile.mkdtemp(prefix='verifsim')
        self.arm = {}             # operation -> [calls to let pass, errno]
        self.count = faults       # counter of injected faults
        self.before_mkdir = None

    def remove(self):
        assert os.path.basename(self.root).startswith('verifsim')
        shutil.rmtree(self.root, ignore_errors=True)

    def mine(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        return isinstance(p, str) and os.path.abspath(p).startswith(self.root)

    def take(self, op):
        a = self.arm.get(op)
        if a is None:
            return None
        if a[0] > 0:
            a[0] -= 1
            return None
        del self.arm[op]
        self.count[f'disk error in {op}'] += 1
        return a[1]

    def install(self, patcher):
        mkdir, open_ = os.mkdir, builtins.open

        def sim_mkdir(path, *a, **kw):
            if self.mine(path):
                k = self.take('mkdir')
                if k is not None:
                    raise OSError(k, os.strerror(k), os.fspath(path))
                if self.before_mkdir:
                    self.before_mkdir(os.path.abspath(os.fspath(path)), mkdir)
            return mkdir(path, *a, **kw)

        def sim_open(path, mode='r', *a, **kw):
            if self.mine(path) and set(mode) & set('wax+'):
                k = self.take('open')
                if k is not None:
                    raise OSError(k, os.strerror(k), os.fspath(path))
                return File(self, open_(path, mode, *a, **kw), os.fspath(path))
            return open_(path, mode, *a, **kw)
        patcher.set(os, 'mkdir', sim_mkdir)
        patcher.set(builtins, 'open', sim_open)
        patcher.set(io, 'open', sim_open)
        return self

    def snapshot(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as g:
                    out[os.path.relpath(p, self.root)] = g.read()
        return out
