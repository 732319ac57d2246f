# -*- coding: utf-8 -*-
"""
Simulated processes that run at the same time: each in a thread of its own, of
which one at a time runs.  Before every system call the plan may say that it
is another one's turn.  Each has its own modules, working directory and
standard streams; they share nothing but the file system.

plan: [[n, k]...]   before the n-th system call (counted over all processes)
                    switch to the k-th of the other processes
"""
import sys

import seams
import threads
from world import HarnessError


def _mods():
    return dict((n, m) for n, m in sys.modules.items()
                if n.split(".")[0] in ("daeso", "daeso_nl"))


class Turns(threads.Sched):

    def _save(self):
        import tempfile
        return (seams._cur[0], sys.stdin, sys.stdout, sys.stderr, sys.argv,
                _mods())

    def _restore(self, ctx):
        seams._cur[0], sys.stdin, sys.stdout, sys.stderr, sys.argv, m = ctx
        for n in _mods():
            del sys.modules[n]
        sys.modules.update(m)

    def _switch(self, x):
        ctx = self._save()
        try:
            threads.Sched._switch(self, x)
        finally:
            self._restore(ctx)

    def block(self):
        raise HarnessError("processes share no locks")


class Watch(object):
    """
    Which contents the files had, at which time, and who gave them to them.
    versions: path -> [(time, process or None, inode number, data or None)]
    """

    MUTATING = ("open_w", "write", "rename", "unlink", "truncate", "link",
                "symlink", "mkdir", "rmdir")

    def __init__(self, fs):
        self.fs = fs
        self.now = 0
        self.dirty = None
        self.versions = {}
        self.writes = []            # times at which something changed
        self.reads = []             # times at which a file was opened
        for p in fs.files():
            self.versions[p] = [(0, None) + self.state(p)]

    def state(self, path):
        n = self.fs.lookup(path, False)
        if n is None or n.kind != "f":
            return (0, None)
        return (n.ino, str(n.data))

    def look(self):
        if self.dirty is None:
            return
        who, self.dirty = self.dirty, None
        new = False
        for p in set(self.fs.files()) | set(self.versions):
            s = self.state(p)
            vs = self.versions.get(p)
            if vs is None:
                vs = self.versions[p] = [(0, None, 0, None)]
            if vs[-1][2:] != s:
                vs.append((self.now, who) + s)
                new = True
        if new:
            self.writes.append(self.now)

    def hook(self, proc, kind, path):
        self.look()
        self.now += 1
        if kind == "open_r":
            self.reads.append(self.now)
        if kind in self.MUTATING or kind in ("close", "close_w"):
            self.dirty = proc.name

    def attach(self, proc):
        proc.hooks.append(("*", self.hook))
