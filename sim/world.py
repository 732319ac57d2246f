# -*- coding: utf-8 -*-
"""
The simulated world: an in-memory file system with POSIX semantics, processes
with user-space file buffers, a clock, and a fault injector.

Everything the code under test does to the outside goes through `Proc.step`,
which numbers the system calls of a process (1, 2, ...) and decides - from the
fault list of the plan only - whether the call fails, is torn, or is the last
thing the process ever does.  There is no real I/O behind any of it.
"""

import errno
import hashlib
import os as _os
import posixpath

from prng import Rng, mix

S_IFDIR, S_IFREG, S_IFLNK = 0o040000, 0o100000, 0o120000


class SimCrash(BaseException):
    "the simulated process is killed; nothing may catch this and go on"


class SimHang(BaseException):
    "the step or line budget of a simulated process is used up"


class HarnessError(Exception):
    "the harness itself is wrong"


def oserr(cls, no, path=None):
    if path is None:
        return cls(no, _strerror(no))
    return cls(no, _strerror(no), path)


_STR = {errno.ENOENT: "No such file or directory",
        errno.EACCES: "Permission denied",
        errno.EEXIST: "File exists",
        errno.ENOTDIR: "Not a directory",
        errno.EISDIR: "Is a directory",
        errno.ENOSPC: "No space left on device",
        errno.EIO: "Input/output error",
        errno.EROFS: "Read-only file system",
        errno.EMFILE: "Too many open files",
        errno.ENOTEMPTY: "Directory not empty",
        errno.EINVAL: "Invalid argument",
        errno.ELOOP: "Too many levels of symbolic links",
        errno.EBADF: "Bad file descriptor",
        errno.EPIPE: "Broken pipe",
        errno.EXDEV: "Cross-device link",
        errno.EINTR: "Interrupted system call",
        errno.ENOMEM: "Cannot allocate memory",
        errno.EPERM: "Operation not permitted"}


def _strerror(no):
    return _STR.get(no, "error %d" % no)


def b(path):
    "paths are byte strings inside the simulator"
    if isinstance(path, unicode):
        return path.encode("utf-8")
    if not isinstance(path, str):
        raise TypeError("coercing to Unicode: need string or buffer, %s found"
                        % type(path).__name__)
    if "\0" in path:
        raise TypeError("must be encoded string without NULL bytes, not str")
    return path


class Inode(object):
    __slots__ = ("kind", "data", "entries", "target", "mode", "ino", "mtime",
                 "nlink", "parent", "special")

    def __init__(self, kind, ino, mode):
        self.kind = kind            # f, d, l
        self.ino = ino
        self.mode = mode
        self.data = ""
        self.entries = None
        self.target = None
        self.mtime = 0.0
        self.nlink = 1
        self.parent = None
        self.special = None         # e.g. "full": /dev/full
        if kind == "d":
            self.entries = {}


class SimFS(object):

    def __init__(self, world):
        self.world = world
        self.ino = 1
        self.root = self._new("d", 0o755)
        self.root.parent = self.root
        self.version = 0

    def _new(self, kind, mode):
        self.ino += 1
        n = Inode(kind, self.ino, mode)
        n.mtime = self.world.now
        return n

    # ------------------------------------------------------------------
    # raw access for the harness: no steps, no faults, no permissions
    # ------------------------------------------------------------------

    def walk(self, path, follow=True, cwd="/", depth=0, cls=OSError):
        """-> (parent inode, last name, inode or None)"""
        path = b(path)
        if depth > 40:
            raise oserr(cls, errno.ELOOP, path)
        if path == "":
            raise oserr(cls, errno.ENOENT, path)
        if not path.startswith("/"):
            path = cwd.rstrip("/") + "/" + path
        trailing = path.endswith("/") and path.strip("/") != ""
        parts = [p for p in path.split("/") if p not in ("", ".")]
        if not parts:
            return self.root, "", self.root
        cur = self.root
        curpath = ""
        for i, part in enumerate(parts):
            last = i == len(parts) - 1
            if cur.kind != "d":
                raise oserr(cls, errno.ENOTDIR, path)
            if part == "..":
                nxt = cur.parent
                if last:
                    return nxt.parent, "..", nxt
                cur = nxt
                curpath = posixpath.dirname(curpath)
                continue
            nxt = cur.entries.get(part)
            if nxt is None:
                if last:
                    return cur, part, None
                raise oserr(cls, errno.ENOENT, path)
            if nxt.kind == "l" and (not last or follow or trailing):
                t = nxt.target
                if not t.startswith("/"):
                    t = (curpath or "") + "/" + t
                rest = parts[i + 1:]
                full = "/".join([t] + rest)
                if trailing:
                    full += "/"
                return self.walk(full, follow, "/", depth + 1, cls)
            if last:
                if trailing and nxt.kind != "d":
                    raise oserr(cls, errno.ENOTDIR, path)
                return cur, part, nxt
            cur = nxt
            curpath = curpath + "/" + part
        raise HarnessError("walk")

    def lookup(self, path, follow=True, cwd="/"):
        try:
            return self.walk(path, follow, cwd)[2]
        except OSError:
            return None

    def mkdirs(self, path):
        cur = self.root
        for part in [p for p in b(path).split("/") if p]:
            nxt = cur.entries.get(part)
            if nxt is None:
                nxt = self._new("d", 0o755)
                nxt.parent = cur
                cur.entries[part] = nxt
            while nxt.kind == "l":
                nxt = self.lookup(nxt.target)
            cur = nxt
        return cur

    def put(self, path, data):
        path = b(path)
        self.mkdirs(posixpath.dirname(path))
        parent, name, node = self.walk(path)
        if node is None:
            node = self._new("f", 0o644)
            node.parent = parent
            parent.entries[name] = node
        if isinstance(data, unicode):
            data = data.encode("utf-8")
        node.data = data
        return node

    def get(self, path, cwd="/"):
        n = self.lookup(path, True, cwd)
        if n is None or n.kind != "f":
            return None
        return n.data

    def symlink(self, target, path):
        self.mkdirs(posixpath.dirname(b(path)))
        parent, name, node = self.walk(path, follow=False)
        if node is not None:
            del parent.entries[name]
        n = self._new("l", 0o777)
        n.target = b(target)
        n.parent = parent
        parent.entries[name] = n

    def unlink(self, path):
        parent, name, node = self.walk(path, follow=False)
        if node is not None:
            del parent.entries[name]

    def rename(self, old, new):
        p1, n1, node = self.walk(old, follow=False)
        p2, n2, _ = self.walk(new, follow=False)
        del p1.entries[n1]
        p2.entries[n2] = node
        node.parent = p2

    def listing(self, path="/", follow=False):
        "every file below path: {path: data or -> target or None for a dir}"
        out = {}
        start = self.lookup(path)
        if start is None:
            return out
        stack = [(b(path).rstrip("/"), start)]
        while stack:
            p, n = stack.pop()
            if n.kind == "d":
                if p:
                    out[p] = None
                for k in n.entries:
                    stack.append((p + "/" + k, n.entries[k]))
            elif n.kind == "l":
                out[p] = "-> " + n.target
            else:
                out[p] = n.data
        return out

    def files(self, path="/"):
        return dict((k, v) for (k, v) in self.listing(path).items()
                    if v is not None and not v.startswith("-> "))


class Handle(object):
    "a kernel-level open file"
    __slots__ = ("inode", "pos", "readable", "writable", "append", "path",
                 "closed", "fd")

    def __init__(self, inode, path, readable, writable, append):
        self.inode = inode
        self.path = path
        self.pos = 0
        self.readable = readable
        self.writable = writable
        self.append = append
        self.closed = False
        self.fd = -1


# Which errors a system call can plausibly fail with
ERRS = {
    "open_r": [errno.EIO, errno.EACCES, errno.ENOENT, errno.EMFILE],
    "open_w": [errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EMFILE],
    "read": [errno.EIO],
    "write": [errno.ENOSPC, errno.EIO],
    "close_w": [errno.EIO, errno.ENOSPC],
    "close": [],
    "rename": [errno.EACCES, errno.EIO, errno.ENOSPC],
    "unlink": [errno.EACCES],
    "mkdir": [errno.ENOSPC, errno.EACCES],
    "rmdir": [errno.EACCES],
    "symlink": [errno.EACCES],
    # glob and os.path.exists/islink of the standard library take failing
    # listdir and stat calls for an answer, so these are not made to fail
    "listdir": [],
    "chdir": [errno.EACCES],
    "stat": [],
    "getcwd": [],
    "readlink": [],
    "chmod": [errno.EACCES],
    "truncate": [errno.EIO],
    "fsync": [errno.EIO],
    "access": [],
    "utime": [],
}


class Proc(object):
    """
    One simulated operating system process.  `faults` is a list of dicts
      {"at": n, "f": "crash" | "err" | "intr" | "short", "a": int}
    which strike at the n-th system call of this process; {"k": kind} restricts
    counting to one kind of system call.
    """

    def __init__(self, world, name, cwd="/", faults=(), budget=200000):
        self.world = world
        self.fs = world.fs
        self.name = name
        self.cwd = cwd
        self.steps = 0
        self.kindsteps = {}
        self.dead = False
        self.finished = False
        self.faults = [dict(f) for f in faults]
        self.fired = []
        self.budget = budget
        self.open_files = []        # SimFile objects with user-space buffers
        self.fds = {}
        self.umask = 0o022
        self.hooks = []             # (kind, callable) run before a step

    # --- fault injection ------------------------------------------------

    def step(self, kind, path="", n=0):
        """
        Count one system call; returns None or a fault ("torn"/"short", a).
        Raises the injected error, or SimCrash.
        """
        if self.finished:
            raise HarnessError("system call of a finished process")
        if self.dead:
            raise SimCrash(self.name)
        self.steps += 1
        k = self.kindsteps.get(kind, 0) + 1
        self.kindsteps[kind] = k
        w = self.world
        w.steps += 1
        w.log(self.name, self.steps, kind, path, n)
        if self.steps > self.budget:
            self.dead = True
            raise SimHang("%d system calls" % self.steps)
        hit = None
        for f in self.faults:
            if f.get("done"):
                continue
            if "k" in f:
                if f["k"] != kind or f["at"] != k:
                    continue
            elif f["at"] != self.steps:
                continue
            hit = f
            break
        for hk, fn in list(self.hooks):
            if hk == kind or hk == "*":
                fn(self, kind, path)
        if hit is None:
            return None
        f = hit["f"]
        a = hit.get("a", 0)
        if f == "crash":
            hit["done"] = True
            w.fired("crash:" + kind, self, path)
            self.fired.append("crash")
            if kind == "write" and n:
                return ("crash", a % (n + 1))
            if kind in ("rename", "open_w", "unlink", "mkdir", "truncate") and a % 2:
                return ("crash", 1)
            self.dead = True
            raise SimCrash(self.name)
        if f == "err":
            errs = ERRS[kind]
            if not errs:
                hit["done"] = True
                w.fired("none:" + kind, self, path)
                return None
            no = errs[a % len(errs)]
            if "sticky" not in hit:
                hit["done"] = True
            w.fired("%s:%s" % (errno.errorcode[no], kind), self, path)
            self.fired.append(errno.errorcode[no])
            if kind == "write" and n and no == errno.ENOSPC:
                return ("enospc", (a // 7) % n)
            cls = IOError if kind in ("open_r", "open_w", "read", "write",
                                      "close", "close_w") else OSError
            raise oserr(cls, no, path or None)
        if f == "intr":
            # Control-C: the call does not happen
            hit["done"] = True
            w.fired("interrupt:" + kind, self, path)
            self.fired.append("interrupt")
            raise KeyboardInterrupt()
        if f == "short":
            hit["done"] = True
            if kind in ("read",) and n > 1:
                w.fired("short:" + kind, self, path)
                self.fired.append("short")
                return ("short", 1 + a % (n - 1))
            w.fired("none:" + kind, self, path)
            return None
        raise HarnessError("unknown fault " + repr(f))

    def crash_now(self):
        self.dead = True
        raise SimCrash(self.name)

    # --- system calls ---------------------------------------------------

    def _walk(self, path, follow=True, cls=OSError):
        return self.fs.walk(path, follow, self.cwd, 0, cls)

    def sys_open(self, path, mode, cls=IOError, excl=False, create=None,
                 trunc=None, append=False, readable=True, writable=False,
                 perm=0o666):
        path = b(path)
        f = self.step("open_w" if writable else "open_r", path)
        parent, name, node = self._walk(path, True, cls)
        if node is None:
            if not create:
                raise oserr(cls, errno.ENOENT, path)
            if not parent.mode & 0o200:
                raise oserr(cls, errno.EACCES, path)
            node = self.fs._new("f", perm & ~self.umask)
            node.parent = parent
            parent.entries[name] = node
        elif excl:
            raise oserr(cls, errno.EEXIST, path)
        elif node.kind == "d":
            # opening a directory for reading fails at open() in Jython and
            # CPython 2 file()
            raise oserr(cls, errno.EISDIR, path)
        else:
            if readable and not node.mode & 0o400:
                raise oserr(cls, errno.EACCES, path)
            if writable and not node.mode & 0o200:
                raise oserr(cls, errno.EACCES, path)
            if trunc:
                node.data = ""
                node.mtime = self.world.now
        if f:
            self.crash_now()
        h = Handle(node, path, readable, writable, append)
        self.world.opened[h] = self
        return h

    def sys_read(self, h, n):
        f = self.step("read", h.path, n)
        if h.closed:
            raise oserr(IOError, errno.EBADF)
        if f and f[0] == "short":
            n = f[1]
        data = h.inode.data[h.pos:h.pos + n]
        h.pos += len(data)
        return data

    def _put(self, h, data):
        node = h.inode
        d = node.data
        if h.append:
            h.pos = len(d)
        if h.pos == len(d):
            node.data = d + data
        else:
            if h.pos > len(d):
                d = d + "\0" * (h.pos - len(d))
            node.data = d[:h.pos] + data + d[h.pos + len(data):]
        h.pos += len(data)
        node.mtime = self.world.now

    def sys_write(self, h, data):
        f = self.step("write", h.path, len(data))
        if h.closed:
            raise oserr(IOError, errno.EBADF)
        if f is None:
            if h.inode.special == "full" or self.world.disk_full(len(data)):
                raise oserr(IOError, errno.ENOSPC)
            self._put(h, data)
            return len(data)
        if f[0] == "crash":
            self._put(h, data[:f[1]])
            self.crash_now()
        if f[0] == "enospc":
            self._put(h, data[:f[1]])
            raise oserr(IOError, errno.ENOSPC)
        raise HarnessError(repr(f))

    def sys_close(self, h):
        if h.closed:
            return
        try:
            self.step("close_w" if h.writable else "close", h.path)
        finally:
            h.closed = True
            self.world.opened.pop(h, None)

    def sys_truncate(self, h, n):
        f = self.step("truncate", h.path)
        d = h.inode.data
        h.inode.data = d[:n] + "\0" * (n - len(d))
        if f:
            self.crash_now()

    def _stat(self, node):
        kind = {"f": S_IFREG, "d": S_IFDIR, "l": S_IFLNK}[node.kind]
        size = len(node.data) if node.kind == "f" else 4096
        t = node.mtime
        return _os.stat_result((kind | node.mode, node.ino, 1, node.nlink,
                                1000, 1000, size, t, t, t))

    def sys_stat(self, path, follow=True):
        path = b(path)
        self.step("stat", path)
        node = self._walk(path, follow)[2]
        if node is None:
            raise oserr(OSError, errno.ENOENT, path)
        return self._stat(node)

    def sys_fstat(self, h):
        self.step("stat", h.path)
        return self._stat(h.inode)

    def sys_listdir(self, path):
        path = b(path)
        self.step("listdir", path)
        node = self._walk(path)[2]
        if node is None:
            raise oserr(OSError, errno.ENOENT, path)
        if node.kind != "d":
            raise oserr(OSError, errno.ENOTDIR, path)
        return self.world.order(sorted(node.entries))

    def sys_rename(self, old, new):
        old, new = b(old), b(new)
        f = self.step("rename", old + " -> " + new)
        if f is None or f[1]:
            p1, n1, node = self._walk(old, False)
            if node is None:
                raise oserr(OSError, errno.ENOENT, old)
            p2, n2, dst = self._walk(new, False)
            if dst is not None:
                if dst.kind == "d" and node.kind != "d":
                    raise oserr(OSError, errno.EISDIR, new)
                if dst.kind == "d" and dst.entries:
                    raise oserr(OSError, errno.ENOTEMPTY, new)
                if node.kind == "d" and dst.kind != "d":
                    raise oserr(OSError, errno.ENOTDIR, new)
            if not (p1.mode & 0o200 and p2.mode & 0o200):
                raise oserr(OSError, errno.EACCES, new)
            if dst is not node:
                del p1.entries[n1]
                p2.entries[n2] = node
                node.parent = p2
        if f:
            self.crash_now()

    def sys_unlink(self, path):
        path = b(path)
        f = self.step("unlink", path)
        parent, name, node = self._walk(path, False)
        if node is None:
            raise oserr(OSError, errno.ENOENT, path)
        if node.kind == "d":
            raise oserr(OSError, errno.EISDIR, path)
        if not parent.mode & 0o200:
            raise oserr(OSError, errno.EACCES, path)
        del parent.entries[name]
        if f:
            self.crash_now()

    def sys_link(self, old, new):
        old, new = b(old), b(new)
        self.step("rename", old + " => " + new)
        _, _, node = self._walk(old, False)
        if node is None:
            raise oserr(OSError, errno.ENOENT, old)
        parent, name, dst = self._walk(new, False)
        if dst is not None:
            raise oserr(OSError, errno.EEXIST, new)
        parent.entries[name] = node
        node.nlink += 1

    def sys_mkdir(self, path, mode=0o777):
        path = b(path)
        f = self.step("mkdir", path)
        parent, name, node = self._walk(path, False)
        if node is not None:
            raise oserr(OSError, errno.EEXIST, path)
        if not parent.mode & 0o200:
            raise oserr(OSError, errno.EACCES, path)
        n = self.fs._new("d", mode & ~self.umask)
        n.parent = parent
        parent.entries[name] = n
        if f:
            self.crash_now()

    def sys_rmdir(self, path):
        path = b(path)
        self.step("rmdir", path)
        parent, name, node = self._walk(path, False)
        if node is None:
            raise oserr(OSError, errno.ENOENT, path)
        if node.kind != "d":
            raise oserr(OSError, errno.ENOTDIR, path)
        if node.entries:
            raise oserr(OSError, errno.ENOTEMPTY, path)
        del parent.entries[name]

    def sys_symlink(self, target, path):
        path = b(path)
        self.step("symlink", path)
        parent, name, node = self._walk(path, False)
        if node is not None:
            raise oserr(OSError, errno.EEXIST, path)
        n = self.fs._new("l", 0o777)
        n.target = b(target)
        n.parent = parent
        parent.entries[name] = n

    def sys_readlink(self, path):
        path = b(path)
        self.step("readlink", path)
        node = self._walk(path, False)[2]
        if node is None:
            raise oserr(OSError, errno.ENOENT, path)
        if node.kind != "l":
            raise oserr(OSError, errno.EINVAL, path)
        return node.target

    def sys_chdir(self, path):
        path = b(path)
        self.step("chdir", path)
        node = self._walk(path)[2]
        if node is None:
            raise oserr(OSError, errno.ENOENT, path)
        if node.kind != "d":
            raise oserr(OSError, errno.ENOTDIR, path)
        if not node.mode & 0o100:
            raise oserr(OSError, errno.EACCES, path)
        # canonical path of the directory
        names = []
        n = node
        while n is not self.fs.root:
            for k, v in n.parent.entries.items():
                if v is n:
                    names.append(k)
                    break
            n = n.parent
        self.cwd = "/" + "/".join(reversed(names))

    def sys_chmod(self, path, mode):
        path = b(path)
        self.step("chmod", path)
        node = self._walk(path)[2]
        if node is None:
            raise oserr(OSError, errno.ENOENT, path)
        node.mode = mode & 0o7777

    # --- end of the process --------------------------------------------

    def end(self):
        """
        Normal end of the process: the interpreter flushes and closes what is
        still open (errors there are ignored, as the interpreter does).  A
        crashed process loses its user-space buffers.
        """
        if not self.dead:
            for f in list(self.open_files):
                try:
                    f.close()
                except (IOError, OSError, ValueError, KeyboardInterrupt):
                    pass
                except SimCrash:
                    break
        for h in [h for h, p in self.world.opened.items() if p is self]:
            h.closed = True
            self.world.opened.pop(h, None)
        self.open_files = []
        self.fds.clear()
        self.finished = True


class World(object):

    def __init__(self, seed, bufsize=4096, shuffle_listing=True, now=1.0e9):
        self.seed = seed
        self.rng = Rng("world", seed)
        self.hseed = self.rng.bits()
        self.now = now
        self.bufsize = bufsize
        self.steps = 0
        self.trace = []
        self.keep_trace = True
        self.md5 = hashlib.md5()
        self.fault_counts = {}
        self.shuffle_listing = shuffle_listing
        self.quota = None
        self.fs = SimFS(self)
        self.fs.mkdirs("/tmp")
        self.opened = {}
        self.procs = []
        self.probes = {}
        self.slept = 0.0

    def log(self, *ev):
        self.md5.update(repr(ev))
        if self.keep_trace and len(self.trace) < 4000:
            self.trace.append(ev)

    def fired(self, what, proc, path):
        self.fault_counts[what] = self.fault_counts.get(what, 0) + 1
        self.log("FAULT", what, proc.name, proc.steps, path)

    def probe(self, what, n=1):
        self.probes[what] = self.probes.get(what, 0) + n

    def order(self, names):
        if self.shuffle_listing:
            return self.rng.shuffle(list(names))
        return list(names)

    def disk_full(self, n):
        if self.quota is None:
            return False
        if n > self.quota:
            return True
        self.quota -= n
        return False

    def spawn(self, name, cwd="/", faults=(), budget=200000):
        p = Proc(self, name, cwd, faults, budget)
        p.number = len(self.procs)
        self.procs.append(p)
        return p
