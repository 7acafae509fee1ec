"""A simulated disk under the file functions of Python.

Operations on files below a scratch directory are numbered; a plan says at which
ones the disk fails (before or in the middle of the effect), the user interrupts,
or another process acts.  Removing files never fails."""

import builtins
import errno
import io
import os
import posix

REAL = {}
DISK = None

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

class Disk():
    def __init__(self, root, plan=(), other=None):
        self.root = os.path.realpath(root) + os.sep
        self.plan = {int(k): v for k, v in dict(plan).items()}
        self.k = 0
        self.log = []
        self.full = False       # every write fails from now on
        self.other = other      # another process: other(op, path)
        self.busy = False
        self.injected = []
    def inside(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if not isinstance(path, str):
            return False
        return (os.path.abspath(path) + os.sep).startswith(self.root)
    def step(self, op, path, effect, partial=None, interruptible=True):
        """Perform an operation, or what the plan says instead."""
        if self.busy:
            return effect()
        k = self.k
        self.k += 1
        self.log.append((op, os.path.basename(str(path))))
        fault = self.plan.get(k)
        if fault and fault[0] == 'full':
            self.full = True
            self.injected.append((k, op, 'full'))
        if self.full and op in ('write', 'create', 'mkdir', 'copy'):
            if partial:
                partial()
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), str(path))
        if fault and fault[0] == 'error':
            code = getattr(errno, fault[1])
            if fault[1] == 'EXDEV' and op != 'rename':
                code = errno.EIO
            self.injected.append((k, op, errno.errorcode[code]))
            if partial and fault[2]:
                partial()
            raise OSError(code, os.strerror(code), str(path))
        if fault and fault[0] == 'interrupt' and interruptible:
            self.injected.append((k, op, 'interrupt'))
            if fault[2] and op != 'mkdir':
                r = effect()
                if hasattr(r, 'close') and op in ('create', 'open'):
                    r.close()
            elif partial:
                partial()
            raise KeyboardInterrupt('injected')
        r = effect()
        if self.other:
            self.busy = True
            try:
                self.other(op, str(path))
            finally:
                self.busy = False
        return r
    def tool(self, what):
        """A step of the drawing tool: may fail or be interrupted."""
        self.step(what, what, lambda: None)

class Writer():
    """A file open for writing, whose writes are steps of the disk."""
    def __init__(self, disk, f, path):
        self.__dict__.update(_disk=disk, _f=f, _path=path)
    def write(self, data):
        f = self._f
        def half():
            f.write(data[:len(data)//2])
        return self._disk.step('write', self._path, lambda: f.write(data), half)
    def __getattr__(self, name):
        return getattr(self._f, name)
    def __setattr__(self, name, value):
        setattr(self._f, name, value)
    def __enter__(self):
        self._f.__enter__()
        return self
    def __exit__(self, *args):
        return self._f.__exit__(*args)
    def __iter__(self):
        return iter(self._f)

def _open(file, mode='r', *args, **kwargs):
    f = REAL['open']
    d = DISK
    if d is None or not d.inside(file):
        return f(file, mode, *args, **kwargs)
    if any(c in mode for c in 'wax+'):
        r = d.step('create', file, lambda: f(file, mode, *args, **kwargs))
        return Writer(d, r, file)
    return d.step('open', file, lambda: f(file, mode, *args, **kwargs))

def _os_open(path, flags, *args, **kwargs):
    f = REAL['os.open']
    d = DISK
    if d is None or not d.inside(path) or not flags & WRITE:
        return f(path, flags, *args, **kwargs)
    return d.step('create', path, lambda: f(path, flags, *args, **kwargs),
        interruptible=False)

def _path_op(name, op, interruptible=True):
    def g(path, *args, **kwargs):
        f = REAL['os.' + name]
        d = DISK
        if d is None or not d.inside(path):
            return f(path, *args, **kwargs)
        return d.step(op, path, lambda: f(path, *args, **kwargs),
            interruptible=interruptible)
    g.__name__ = name
    return g

def _rename(name):
    def g(src, dst, *args, **kwargs):
        f = REAL['os.' + name]
        d = DISK
        if d is None or not (d.inside(src) or d.inside(dst)):
            return f(src, dst, *args, **kwargs)
        return d.step('rename', dst, lambda: f(src, dst, *args, **kwargs))
    g.__name__ = name
    return g

def _removal(name):
    # Tells the other process what is gone.
    def g(path, *args, **kwargs):
        f = REAL['os.' + name]
        d = DISK
        r = f(path, *args, **kwargs)
        if d is not None and not d.busy and not kwargs.get('dir_fd') \
                and d.inside(path) and d.other:
            d.busy = True
            try:
                d.other('remove', str(path))
            finally:
                d.busy = False
        return r
    g.__name__ = name
    return g

def _sendfile(out, in_, offset, count, *args, **kwargs):
    f = REAL['os.sendfile']
    d = DISK
    if d is None:
        return f(out, in_, offset, count, *args, **kwargs)
    return d.step('copy', 'copy', lambda: f(out, in_, offset, count, *args, **kwargs),
        lambda: f(out, in_, offset, min(count, 40)))

def install():
    REAL['open'] = builtins.open
    builtins.open = _open
    io.open = _open
    REAL['os.open'] = os.open
    os.open = _os_open
    for n, op, i in (('mkdir', 'mkdir', False), ('chmod', 'chmod', True),
            ('utime', 'utime', True)):
        REAL['os.' + n] = getattr(os, n)
        setattr(os, n, _path_op(n, op, i))
    for n in ('rename', 'replace', 'link', 'symlink'):
        REAL['os.' + n] = getattr(os, n)
        setattr(os, n, _rename(n))
    for n in ('unlink', 'remove', 'rmdir'):
        REAL['os.' + n] = getattr(os, n)
        setattr(os, n, _removal(n))
    if hasattr(os, 'sendfile'):
        REAL['os.sendfile'] = os.sendfile
        os.sendfile = _sendfile

class mounted():
    def __init__(self, disk):
        self.disk = disk
    def __enter__(self):
        global DISK
        DISK = self.disk
        return self.disk
    def __exit__(self, *args):
        global DISK
        DISK = None
