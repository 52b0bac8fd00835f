"""File system seam: real files in a scratch directory of the run, behind
wrappers that yield, fail, cut writes short and crash.

Only paths below the scratch directory are simulated.  Nothing else is ever
written: a simulated thread that tries to change the file system anywhere else
ends the run as a violation ("escaped").
"""
import builtins
import errno
import io
import os

from . import core

_real = {}


class SimFile(io.RawIOBase):

    """An unbuffered file whose calls can fail."""

    def __init__(self, fs, path, mode):
        self.fs = fs
        self.path = path
        self.f = _real['FileIO'](path, mode)
        self.name = path
        self.mode = self.f.mode
        self.ino = os.fstat(self.f.fileno()).st_ino

    def fileno(self):
        return self.f.fileno()

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return self.f.seekable()

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        self.fs.op('truncate', self.path)
        self.fs.dirty(self.ino)
        return self.f.truncate(*a)

    def readinto(self, b):
        fs = self.fs
        fs.op('read', self.path)
        n = len(b)
        if n > 1 and fs.fault('short-read', fs.p_short):
            n = 1 + fs.w.draw(n, 'fs')
        d = self.f.read(n)
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        fs = self.fs
        b = bytes(b)
        n = len(b)

        def part():
            # a crash leaves a prefix behind
            self.fs.dirty(self.ino)
            self.f.write(b[:fs.w.draw(n + 1, 'fs')])
        fs.op('write', self.path, part)
        fs.dirty(self.ino)
        if n > 1 and fs.fault('short-write', fs.p_short):
            n = 1 + fs.w.draw(n, 'fs')
        if n and fs.fault('disk-full', fs.p_full):
            self.f.write(b[:fs.w.draw(n, 'fs')])
            fs.failed(errno.ENOSPC, self.path)
        return self.f.write(b[:n])

    def close(self):
        if not self.closed:
            fs = self.fs
            try:
                super(SimFile, self).close()
                if not fs.w.quiet:
                    fs.op('close', self.path, errors=False)
            finally:
                self.f.close()


class FS(object):

    def __init__(self, w, root):
        self.w = w
        self.root = os.path.realpath(root)
        self.p_eio = 0.0
        self.p_full = 0.0
        self.p_short = 0.0
        self.crash_at = None        # crash at the n-th operation from now
        self.count = 0
        self.unsynced = {}          # inode -> content when last synced
        self.errors = {}            # thread name -> faults injected
        self.on_crash = None
        w.fs = self

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def fault(self, kind, p):
        if p and self.w.fault(kind, p, 'fs'):
            me = self.w.current.name
            self.errors[me] = self.errors.get(me, 0) + 1
            return True
        return False

    def failed(self, code, path):
        raise OSError(code, os.strerror(code), str(path))

    def op(self, kind, path, on_crash=None, errors=True):
        w = self.w
        w.yield_point('fs-' + kind)
        self.count += 1
        if self.crash_at is not None and self.count >= self.crash_at:
            self.crash_at = None
            if on_crash is not None:
                on_crash()
            w.count_fault('process-crash')
            w.note('crash in %s %s' % (kind, path))
            if self.on_crash is not None:
                self.on_crash(w.current.group)
            w.die()
        if errors and self.fault('disk-error', self.p_eio):
            self.failed(errno.EIO, path)

    def dirty(self, ino):
        if ino not in self.unsynced:
            self.unsynced[ino] = None

    def synced(self, ino):
        self.unsynced.pop(ino, None)

    def power_loss(self):
        """What was not synced may be lost: file data, not names."""
        w = self.w
        n = 0
        for d, dirs, files in os.walk(self.root):
            for name in sorted(files):
                p = os.path.join(d, name)
                st = _real['stat'](p)
                if st.st_ino in self.unsynced:
                    k = w.draw(3, 'fs')
                    if k and st.st_size:
                        n += 1
                        w.count_fault('unsynced-data-lost')
                        size = 0 if k == 1 else w.draw(st.st_size, 'fs')
                        with _real['FileIO'](p, 'r+') as f:
                            f.truncate(size)
                        w.note('power loss: %s cut to %d bytes' % (
                            p[len(self.root):], size))
        self.unsynced.clear()
        return n


def _fs():
    w = core.WORLD
    if w is None or w.me() is None:
        return None
    return getattr(w, 'fs', None)


def _wrap(name, kind, npaths=1, write=True):
    real = _real[name] = getattr(os, name)

    def call(*args, **kw):
        fs = _fs()
        if fs is not None and args:
            inside = [fs.inside(a) for a in args[:npaths]]
            if all(inside):
                # (a failure to look at a file is not simulated: tests for
                # its existence cannot report it)
                fs.op(kind, args[0], errors=write or name != 'stat')
            elif write and not isinstance(args[0], int):
                raise core.Violation('escaped', '%s%r touches the file '
                                     'system outside the scratch directory'
                                     % (name, args[:npaths]))
        return real(*args, **kw)
    call.__name__ = name
    setattr(os, name, call)


def _fsync(name):
    real = _real[name] = getattr(os, name)

    def call(fd):
        fs = _fs()
        if fs is not None:
            n = fd if isinstance(fd, int) else fd.fileno()
            fs.op('fsync', 'fd')
            r = real(n)
            fs.synced(os.fstat(n).st_ino)
            return r
        return real(fd)
    setattr(os, name, call)


def _open(file, mode='r', buffering=-1, encoding=None, errors=None,
          newline=None, closefd=True, opener=None):
    fs = _fs()
    if fs is None or isinstance(file, int):
        return _real['open'](file, mode, buffering, encoding, errors,
                             newline, closefd, opener)
    if not fs.inside(file):
        if set(mode) & set('wax+'):
            raise core.Violation('escaped', 'open(%r, %r) outside the '
                                 'scratch directory' % (file, mode))
        return _real['open'](file, mode, buffering, encoding, errors,
                             newline, closefd, opener)
    fs.op('open', file)
    rmode = mode.replace('b', '').replace('t', '').replace('U', '')
    raw = SimFile(fs, os.fspath(file), rmode)
    if set(rmode) & set('wx'):
        fs.dirty(raw.ino)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in rmode:
        f = io.BufferedRandom(raw, size)
    elif set(rmode) & set('wax'):
        f = io.BufferedWriter(raw, size)
    else:
        f = io.BufferedReader(raw, size)
    if 'b' in mode:
        return f
    return io.TextIOWrapper(f, encoding, errors, newline)


def install():
    _real['open'] = builtins.open
    _real['FileIO'] = io.FileIO
    for n in ('remove', 'unlink', 'mkdir', 'rmdir', 'truncate', 'chmod'):
        _wrap(n, n)
    for n in ('rename', 'replace', 'link'):
        _wrap(n, 'rename', 2)
    for n in ('stat', 'listdir', 'scandir', 'lstat'):
        _wrap(n, n, 1, False)
    for n in ('fsync', 'fdatasync'):
        _fsync(n)
    builtins.open = io.open = _open
