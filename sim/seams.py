# -*- coding: utf-8 -*-
"""
The seams: every door through which the code under test reaches the operating
system is replaced, before that code is imported, by a door to the simulated
world of the current process (`cur()`).

Replaced: builtin open/file, os.*, sys.stdout/stderr (per process), time.time,
time.sleep, os.urandom, random seed, os.getpid, directory listing order, the
default hash of objects, weakref dictionaries, threading locks, warnings output.
"""

import __builtin__
import errno
import os
import random
import sys
import time
import types
import warnings

import java.lang

from world import (World, Proc, SimCrash, SimHang, HarnessError, oserr, b,
                   Handle)

_real = {}
_cur = [None]           # the running simulated process
_installed = [False]

REPO = _real_repo = os.environ.get("DST_REPO", "/repo")


def cur():
    p = _cur[0]
    if p is None:
        raise HarnessError("code under test ran outside a simulated process")
    return p


class SimFile(object):
    """
    Replacement for the builtin file type: user-space buffering on top of the
    system calls of the current process.
    """

    def __init__(self, name, mode="r", buffering=-1):
        self._init(name, mode, buffering)

    def _init(self, name, mode="r", buffering=-1, handle=None):
        self.closed = True
        self.name = name
        self.mode = mode
        self.encoding = None
        self.errors = None
        self.newlines = None
        self.softspace = 0
        if not isinstance(mode, basestring):
            raise TypeError("mode must be a string")
        m = mode.replace("b", "").replace("t", "").replace("U", "")
        if not m and "U" in mode:
            m = "r"
        base = m[:1]
        if base not in ("r", "w", "a") or m[1:] not in ("", "+"):
            raise ValueError("mode string must begin with one of 'r', 'w', "
                             "'a' or 'U', not '%s'" % mode)
        plus = "+" in m
        self._r = base == "r" or plus
        self._w = base != "r" or plus
        self._universal = "U" in mode
        p = cur()
        self._p = p
        if handle is None:
            handle = p.sys_open(name, mode, create=base != "r",
                                trunc=base == "w", append=base == "a",
                                readable=self._r, writable=self._w)
        self._h = handle
        self._wbuf = []
        self._wlen = 0
        self._rbuf = ""
        self._bufsize = p.world.bufsize if buffering < 0 else buffering
        self.closed = False
        p.open_files.append(self)

    @classmethod
    def _from_handle(cls, handle, mode, name="<fdopen>"):
        f = cls.__new__(cls)
        f._init(name, mode, -1, handle)
        return f

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    # writing
    def write(self, s):
        self._check()
        if not self._w:
            raise IOError(errno.EBADF, "File not open for writing")
        if isinstance(s, unicode):
            s = s.encode("ascii")
        elif isinstance(s, str):
            pass
        elif isinstance(s, (bytearray, buffer)):
            s = str(s)
        else:
            raise TypeError("expected a string or character buffer, not %s"
                            % type(s).__name__)
        self._wbuf.append(s)
        self._wlen += len(s)
        if self._wlen > self._bufsize:
            self._drain(False)

    def _drain(self, everything):
        data = "".join(self._wbuf)
        self._wbuf = []
        self._wlen = 0
        size = max(self._bufsize, 1)
        if self._rbuf:
            self._h.pos -= len(self._rbuf)
            self._rbuf = ""
        while data and (everything or len(data) > self._bufsize):
            chunk = data[:size]
            n = self._p.sys_write(self._h, chunk)
            data = data[n:]
        if data:
            self._wbuf = [data]
            self._wlen = len(data)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        self._check()
        if self._w:
            self._drain(True)

    # reading
    def _fill(self, n):
        "read from the kernel until n bytes are buffered or end of file"
        size = max(self._bufsize, 16)
        while n < 0 or len(self._rbuf) < n:
            s = self._p.sys_read(self._h, size)
            if not s:
                return
            self._rbuf += s

    def _startread(self):
        self._check()
        if not self._r:
            raise IOError(errno.EBADF, "File not open for reading")
        if self._wbuf:
            self._drain(True)

    def _take(self, n):
        s, self._rbuf = self._rbuf[:n], self._rbuf[n:]
        return s

    def read(self, n=-1):
        self._startread()
        if n is None:
            n = -1
        self._fill(n)
        s = self._take(len(self._rbuf) if n < 0 else n)
        if self._universal:
            s = s.replace("\r\n", "\n").replace("\r", "\n")
        return s

    def readline(self, limit=-1):
        self._startread()
        while True:
            i = self._rbuf.find("\n")
            if i >= 0:
                n = i + 1
                break
            if 0 <= limit <= len(self._rbuf):
                n = limit
                break
            size = max(self._bufsize, 16)
            s = self._p.sys_read(self._h, size)
            if not s:
                n = len(self._rbuf)
                break
            self._rbuf += s
        if limit >= 0:
            n = min(n, limit)
        s = self._take(n)
        if self._universal:
            s = s.replace("\r\n", "\n").replace("\r", "\n")
        return s

    def readlines(self, hint=None):
        return list(iter(self.readline, ""))

    def xreadlines(self):
        return self

    def __iter__(self):
        self._check()
        return self

    def next(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def seek(self, off, whence=0):
        self._check()
        if self._wbuf:
            self._drain(True)
        if whence == 0:
            pos = off
        elif whence == 1:
            pos = self._h.pos - len(self._rbuf) + off
        else:
            pos = len(self._h.inode.data) + off
        if pos < 0:
            raise IOError(errno.EINVAL, "Invalid argument")
        self._rbuf = ""
        self._h.pos = pos

    def tell(self):
        self._check()
        if self._wbuf:
            if self._h.append:
                return len(self._h.inode.data) + self._wlen
            return self._h.pos + self._wlen
        return self._h.pos - len(self._rbuf)

    def truncate(self, size=None):
        self._check()
        if self._wbuf:
            self._drain(True)
        self._p.sys_truncate(self._h, self.tell() if size is None else size)

    def close(self):
        if self.closed:
            return
        err = None
        try:
            if self._w:
                self._drain(True)
        finally:
            self.closed = True
            if self in self._p.open_files:
                self._p.open_files.remove(self)
            if not self._p.dead:
                self._p.sys_close(self._h)

    def fileno(self):
        self._check()
        for fd, h in self._p.fds.items():
            if h is self._h:
                return fd
        fd = 3
        while fd in self._p.fds:
            fd += 1
        self._p.fds[fd] = self._h
        return fd

    def isatty(self):
        return False

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *exc):
        self.close()

    def __repr__(self):
        return "<%s file %r, mode %r>" % (
            "closed" if self.closed else "open", self.name, self.mode)


class SimStd(SimFile):
    "standard output or error of a simulated process"

    def __init__(self, proc, name, mode="w"):
        self._p = proc
        self.name = name
        self.mode = mode
        self.closed = False
        self.softspace = 0
        self.encoding = None
        self.errors = None
        self.newlines = None
        self.chunks = []
        self.full = None        # raise ENOSPC after that many bytes
        self.count = 0
        self._r = mode == "r"
        self._w = not self._r
        self.log_steps = False

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if isinstance(s, unicode):
            s = s.encode("ascii")
        elif not isinstance(s, str):
            if isinstance(s, (bytearray, buffer)):
                s = str(s)
            else:
                raise TypeError("expected a string or character buffer, not %s"
                                % type(s).__name__)
        if self._p.dead:
            raise SimCrash(self._p.name)
        if self.full is not None and self.count + len(s) > self.full:
            room = max(0, self.full - self.count)
            self.chunks.append(s[:room])
            self.count += room
            self._p.world.fired("ENOSPC:" + self.name, self._p, self.name)
            self._p.fired.append("ENOSPC")
            raise oserr(IOError, errno.ENOSPC)
        self.chunks.append(s)
        self.count += len(s)

    def getvalue(self):
        return "".join(self.chunks)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def read(self, n=-1):
        return ""

    def readline(self, n=-1):
        return ""

    def fileno(self):
        return {"<stdin>": 0, "<stdout>": 1, "<stderr>": 2}[self.name]

    def __repr__(self):
        return "<open file '%s', mode '%s'>" % (self.name, self.mode)


class Tee(object):
    "sys.stdout/stderr: the stream of the running process, or the real one"

    def __init__(self, which, real):
        self.__dict__["which"] = which
        self.__dict__["real"] = real

    def _t(self):
        p = _cur[0]
        if p is None:
            return self.real
        return getattr(p, self.which)

    def __getattr__(self, name):
        return getattr(self._t(), name)

    def __setattr__(self, name, value):
        setattr(self._t(), name, value)


def sim_open(name, mode="r", buffering=-1):
    return SimFile(name, mode, buffering)


# --------------------------------------------------------------------------
# os
# --------------------------------------------------------------------------

def _fd(p, fd):
    if not isinstance(fd, (int, long)):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
    try:
        return p.fds[fd]
    except KeyError:
        raise oserr(OSError, errno.EBADF)


def os_open(path, flags, mode=0o777):
    p = cur()
    acc = flags & 3
    h = p.sys_open(path, "fd", cls=OSError,
                   excl=bool(flags & os.O_EXCL),
                   create=bool(flags & os.O_CREAT),
                   trunc=bool(flags & os.O_TRUNC),
                   append=bool(flags & os.O_APPEND),
                   readable=acc in (os.O_RDONLY, os.O_RDWR),
                   writable=acc in (os.O_WRONLY, os.O_RDWR),
                   perm=mode)
    fd = 3
    while fd in p.fds:
        fd += 1
    p.fds[fd] = h
    h.fd = fd
    return fd


def os_fdopen(fd, mode="r", bufsize=-1):
    p = cur()
    h = _fd(p, fd)
    return SimFile._from_handle(h, mode)


def os_read(fd, n):
    p = cur()
    return p.sys_read(_fd(p, fd), n)


def os_write(fd, s):
    p = cur()
    if fd in (1, 2):
        (p.stdout if fd == 1 else p.stderr).write(s)
        return len(s)
    return p.sys_write(_fd(p, fd), str(s))


def os_close(fd):
    p = cur()
    h = _fd(p, fd)
    p.fds.pop(h.fd if h.fd in p.fds else fd, None)
    p.sys_close(h)


def os_fsync(fd):
    p = cur()
    p.step("fsync", _fd(p, fd).path)


def os_fstat(fd):
    p = cur()
    return p.sys_fstat(_fd(p, fd))


def os_ftruncate(fd, n):
    p = cur()
    p.sys_truncate(_fd(p, fd), n)


def os_lseek(fd, pos, how):
    h = _fd(cur(), fd)
    h.pos = {0: 0, 1: h.pos, 2: len(h.inode.data)}[how] + pos
    return h.pos


def os_access(path, mode):
    p = cur()
    p.step("access", b(path))
    node = p.fs.lookup(path, True, p.cwd)
    if node is None:
        return False
    want = 0
    if mode & os.R_OK:
        want |= 0o400
    if mode & os.W_OK:
        want |= 0o200
    if mode & getattr(os, "X_OK", 1):
        want |= 0o100
    return node.mode & want == want


def os_getcwd():
    p = cur()
    p.step("getcwd")
    return p.cwd


def os_utime(path, times):
    p = cur()
    p.step("utime", b(path))
    node = p.fs.lookup(path, True, p.cwd)
    if node is None:
        raise oserr(OSError, errno.ENOENT, path)
    node.mtime = times[1] if times else p.world.now


def _refuse(name):
    def refused(*args, **kwargs):
        raise oserr(OSError, errno.EPERM, name)
    return refused


def _umask(m):
    p = cur()
    old, p.umask = p.umask, m
    return old


OS_PATCH = {
    "open": os_open, "fdopen": os_fdopen, "read": os_read, "write": os_write,
    "close": os_close, "fsync": os_fsync, "fdatasync": os_fsync,
    "fstat": os_fstat, "ftruncate": os_ftruncate, "lseek": os_lseek,
    "stat": lambda p: cur().sys_stat(p),
    "lstat": lambda p: cur().sys_stat(p, False),
    "listdir": lambda p: cur().sys_listdir(p),
    "rename": lambda a, b_: cur().sys_rename(a, b_),
    "remove": lambda p: cur().sys_unlink(p),
    "unlink": lambda p: cur().sys_unlink(p),
    "link": lambda a, b_: cur().sys_link(a, b_),
    "mkdir": lambda p, mode=0o777: cur().sys_mkdir(p, mode),
    "rmdir": lambda p: cur().sys_rmdir(p),
    "symlink": lambda a, b_: cur().sys_symlink(a, b_),
    "readlink": lambda p: cur().sys_readlink(p),
    "chdir": lambda p: cur().sys_chdir(p),
    "chmod": lambda p, m: cur().sys_chmod(p, m),
    "lchmod": lambda p, m: None,
    "chown": lambda p, u, g: None,
    "lchown": lambda p, u, g: None,
    "utime": os_utime,
    "access": os_access,
    "getcwd": os_getcwd,
    "getcwdu": lambda: os_getcwd().decode("utf-8"),
    "getpid": lambda: 4242 + cur().number,
    "getppid": lambda: 1,
    "getuid": lambda: 1000,
    "geteuid": lambda: 1000,
    "getgid": lambda: 1000,
    "getegid": lambda: 1000,
    "umask": _umask,
    "urandom": lambda n: "".join(chr(cur().world.rng.below(256))
                                 for _ in range(n)),
    "isatty": lambda fd: False,
}
for _n in ("system", "popen", "popen2", "popen3", "popen4", "kill", "fork",
           "execv", "execve", "execvp", "execl", "spawnl", "spawnv", "_exit",
           "pipe", "wait", "waitpid", "setsid", "setpgrp", "closerange"):
    OS_PATCH[_n] = _refuse(_n)


# --------------------------------------------------------------------------
# time
# --------------------------------------------------------------------------

def sim_time():
    p = _cur[0]
    if p is None:
        return _real["time"]()
    w = p.world
    clock = getattr(w, "clock", None)
    if clock is not None:
        return clock()
    return w.now


class Door(object):
    "a plain callable: a function set on a Java module becomes a method"

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *args):
        return self.fn(*args)


def sim_sleep(s):
    p = _cur[0]
    if p is None:
        return _real["sleep"](s)
    w = p.world
    hook = getattr(w, "sleep_hook", None)
    if hook is not None:
        return hook(s)
    w.now += s
    w.slept += s


# --------------------------------------------------------------------------
# hashing: the default hash of an object is its address, i.e. arbitrary
# --------------------------------------------------------------------------

_idbase = [0]
_hseed = [0]


def sim_hash(self):
    x = (id(self) - _idbase[0]) * 0x9E3779B1 + _hseed[0]
    x &= 0xFFFFFFFF
    x = ((x ^ (x >> 16)) * 0x45D9F3B) & 0xFFFFFFFF
    x = ((x ^ (x >> 16)) * 0x45D9F3B) & 0xFFFFFFFF
    return int((x ^ (x >> 16)) & 0x7FFFFFFF)


def patch_hash(cls):
    try:
        if cls.__hash__ is object.__hash__:
            cls.__hash__ = sim_hash
    except (AttributeError, TypeError):
        pass


# --------------------------------------------------------------------------
# loading the code under test
# --------------------------------------------------------------------------

_codes = {}             # module name -> (code, path, is package)
_scripts = {}
_pcodes = {}
points = [False]


def _scan():
    lib = REPO + "/lib"
    todo = ["daeso"]
    while todo:
        rel = todo.pop()
        full = lib + "/" + rel.replace(".", "/")
        for fn in sorted(_real["listdir"](full)):
            p = full + "/" + fn
            if fn.endswith(".py"):
                name = rel if fn == "__init__.py" else rel + "." + fn[:-3]
                _codes[name] = [None, p, fn == "__init__.py", None]
            elif _real["isdir"](p) and fn != "__pycache__":
                if _real["exists"](p + "/__init__.py"):
                    todo.append(rel + "." + fn)


def _code(name):
    ent = _codes[name]
    if ent[0] is None:
        f = _real["open"](ent[1])
        try:
            src = f.read()
        finally:
            f.close()
        ent[0] = compile(src.rstrip() + "\n", ent[1], "exec")
        ent[3] = src
    if points[0]:
        # with a chance for other threads before every statement
        if name not in _pcodes:
            import threads
            _pcodes[name] = threads.transform(ent[3].rstrip() + "\n", ent[1])
        return [_pcodes[name]] + ent[1:3]
    return ent[:3]


STUBS = {}              # name -> callable(module)


class Importer(object):

    def find_module(self, fullname, path=None):
        if fullname in _codes or fullname in STUBS:
            return self
        # relative imports inside a package, e.g. "from LRUStock import *"
        return None

    def load_module(self, fullname):
        if fullname in sys.modules:
            return sys.modules[fullname]
        m = types.ModuleType(fullname)
        m.__loader__ = self
        if fullname in STUBS:
            m.__file__ = "<stub %s>" % fullname
            m.__path__ = []
            sys.modules[fullname] = m
            STUBS[fullname](m)
            return m
        code, path, ispkg = _code(fullname)
        m.__file__ = path
        if ispkg:
            m.__path__ = [path.rsplit("/", 1)[0]]
            m.__package__ = fullname
        else:
            m.__package__ = fullname.rpartition(".")[0]
        sys.modules[fullname] = m
        try:
            exec code in m.__dict__
        except BaseException:
            del sys.modules[fullname]
            raise
        for v in m.__dict__.values():
            if isinstance(v, type) and v.__module__ == fullname:
                patch_hash(v)
        return m


def drop_modules():
    for name in list(sys.modules):
        if (name == "daeso" or name.startswith("daeso.") or
            name == "daeso_nl" or name.startswith("daeso_nl.")):
            del sys.modules[name]


def script(name):
    if name not in _scripts:
        path = REPO + "/bin/" + name
        f = _real["open"](path)
        try:
            src = f.read()
        finally:
            f.close()
        _scripts[name] = compile(src.rstrip() + "\n", path, "exec")
    return _scripts[name]


def _showwarning(message, category, filename, lineno, file=None, line=None):
    p = _cur[0]
    if p is not None:
        p.warnings.append((category.__name__, str(message)))
        p.stderr.write("warning: %s: %s\n" % (category.__name__, message))


def install():
    if _installed[0]:
        return
    _installed[0] = True
    # modules the code under test needs and that must keep the real doors
    import networkx                                             # noqa
    import glob, tempfile, shutil, zipfile, codecs, copy        # noqa
    import cStringIO, StringIO, pickle, cPickle, gettext        # noqa
    import textwrap, string, re, threading, Queue, logging      # noqa
    import xml.etree.cElementTree, xml.etree.ElementTree        # noqa
    import xml.parsers.expat, linecache, traceback, locale      # noqa
    import weakref, decimal, collections, fnmatch, operator     # noqa
    import encodings.utf_8, encodings.ascii, encodings.latin_1  # noqa
    import encodings.utf_8_sig, zlib, binascii, struct, stat    # noqa
    import subprocess, pprint, itertools, functools, heapq      # noqa
    import unicodedata, optparse, difflib, math, datetime       # noqa
    import errno as _e, io                                      # noqa

    _real["open"] = __builtin__.open
    _real["file"] = __builtin__.file
    _real["time"] = time.time
    _real["sleep"] = time.sleep
    _real["listdir"] = os.listdir
    _real["isdir"] = os.path.isdir
    _real["exists"] = os.path.exists
    for n in OS_PATCH:
        _real.setdefault(n, getattr(os, n, None))
    _scan()
    for n in _codes:
        pass

    __builtin__.open = sim_open
    __builtin__.file = SimFile
    for n, f in OS_PATCH.items():
        setattr(os, n, f)
    os.listdir = OS_PATCH["listdir"]
    import io as _io
    _real["io.open"] = _io.open
    _io.open = _io_open
    time.time = Door(sim_time)
    time.sleep = Door(sim_sleep)
    time.clock = time.time
    tempfile._os = os
    tempfile._set_cloexec = lambda fd: None
    tempfile.tempdir = "/tmp"
    warnings.showwarning = _showwarning
    import linecache
    linecache.getline = _getline
    linecache.getlines = lambda fn, g=None: _lines(fn)
    linecache.checkcache = lambda fn=None: None
    sys.stdout = Tee("stdout", sys.stdout)
    sys.stderr = Tee("stderr", sys.stderr)
    import gcsim
    sys.modules["weakref"] = gcsim.make_module()
    import threads
    threads.install()
    sys.meta_path.insert(0, Importer())
    sys.dont_write_bytecode = True


_srclines = {}


def _lines(fn):
    "source lines for tracebacks, from the real file system"
    if fn not in _srclines:
        try:
            f = _real["open"](fn)
            try:
                _srclines[fn] = f.readlines()
            finally:
                f.close()
        except (IOError, OSError):
            _srclines[fn] = []
    return _srclines[fn]


def _getline(fn, n, g=None):
    ls = _lines(fn)
    return ls[n - 1] if 0 < n <= len(ls) else ""


class _TextIO(object):
    "io.open in text mode on a SimFile"

    def __init__(self, f, encoding, errors):
        self._f = f
        self._e = encoding or "utf-8"
        self._errors = errors or "strict"
        self.encoding = self._e
        self.name = f.name
        self.mode = f.mode

    def read(self, n=-1):
        s = self._f.read().decode(self._e, self._errors)
        return s if n is None or n < 0 else s[:n]

    def write(self, s):
        if not isinstance(s, unicode):
            raise TypeError("must be unicode, not str")
        self._f.write(s.encode(self._e, self._errors))
        return len(s)

    def readline(self):
        return self._f.readline().decode(self._e, self._errors)

    def __iter__(self):
        return iter(self.readline, u"")

    def readlines(self):
        return list(self)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __getattr__(self, name):
        return getattr(self._f, name)


def _io_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True):
    if isinstance(file, (int, long)):
        f = os_fdopen(file, mode.replace("t", ""))
    else:
        f = SimFile(file, mode.replace("t", ""), buffering)
    if "b" in mode:
        return f
    return _TextIO(f, encoding, errors)


# --------------------------------------------------------------------------
# running something as a simulated process
# --------------------------------------------------------------------------

class Outcome(object):
    """
    kind: ok | exc | exit | crash | hang
    """

    def __init__(self, kind, value=None, exc=None, tb=None):
        self.kind = kind
        self.value = value
        self.exc = exc
        self.tb = tb

    @property
    def failed(self):
        "the operation told its caller that it failed"
        if self.kind == "exc":
            return True
        return self.kind == "exit" and self.value not in (None, 0)

    def __repr__(self):
        if self.kind == "exc":
            try:
                return "exc(%s: %s)" % (type(self.exc).__name__, self.exc)
            except java.lang.Throwable:
                return "exc(%s)" % type(self.exc).__name__
        return "%s(%r)" % (self.kind, self.value)


class Running(object):
    "with Running(proc): ... runs code as that process"

    def __init__(self, proc, fresh=True):
        self.proc = proc
        self.fresh = fresh

    def __enter__(self):
        p = self.proc
        self.prev = _cur[0]
        if not hasattr(p, "stdout"):
            p.stdin = SimStd(p, "<stdin>", "r")
            p.stdout = SimStd(p, "<stdout>")
            p.stderr = SimStd(p, "<stderr>")
            p.warnings = []
        _cur[0] = p
        self.saved = (sys.stdin, sys.stdout, sys.stderr, sys.argv)
        sys.stdin, sys.stdout, sys.stderr = p.stdin, p.stdout, p.stderr
        if self.fresh:
            drop_modules()
        return p

    def __exit__(self, *exc):
        sys.stdin, sys.stdout, sys.stderr, sys.argv = self.saved
        _cur[0] = self.prev


def begin_run(world):
    "reset everything that could leak from one simulated run to the next"
    _idbase[0] = id(object())
    _hseed[0] = world.hseed & 0xFFFFFFFF
    random.seed(world.hseed & 0x7FFFFFFF)
    import tempfile
    tempfile._name_sequence = None
    points[0] = False
    drop_modules()


def attempt(proc, fn, fresh=True, end=False):
    """
    Run fn() inside proc and classify how it ended.
    """
    import traceback
    with Running(proc, fresh):
        try:
            v = fn()
            out = Outcome("ok", v)
        except SimCrash:
            out = Outcome("crash")
        except SimHang, e:
            out = Outcome("hang", str(e))
        except SystemExit, e:
            out = Outcome("exit", e.code)
            if isinstance(e.code, basestring):
                proc.stderr.chunks.append(e.code + "\n")
        except HarnessError:
            raise
        except (Exception, KeyboardInterrupt), e:
            # Jython cannot format messages with characters beyond a byte
            try:
                tb = traceback.format_exc()
            except java.lang.Throwable:
                tb = "".join(traceback.format_tb(sys.exc_info()[2]))
            out = Outcome("exc", None, e, tb)
        if proc.dead and out.kind != "hang":
            out = Outcome("crash")
        if end:
            proc.end()
    return out


def run_tool(proc, name, argv):
    "run a script of bin/ as __main__ in a fresh process, to its end"
    def go():
        sys.argv = [REPO + "/bin/" + name] + list(argv)
        g = {"__name__": "__main__", "__file__": sys.argv[0],
             "__builtins__": __builtin__}
        exec script(name) in g
    return attempt(proc, go, fresh=True, end=True)
