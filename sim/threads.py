# -*- coding: utf-8 -*-
"""
Simulated threads: real threads of which one at a time runs, until the plan
says that another one is due.  Every statement of the code under test is
a point at which that may happen, and so are the operations on locks.

plan: [[point, k]...]  at this point (counted over all threads) switch to the
                       k-th of the other threads that can run
"""
import __builtin__
import ast
import operator
import sys
import thread
import threading

from java.lang import Thread, Runnable
from java.util.concurrent import Semaphore

import seams
from world import SimHang

_active = [None]


class _Run(Runnable):

    def __init__(self, f):
        self.f = f

    def run(self):
        self.f()


class SimThread(object):

    def __init__(self, n, fn):
        self.n = n
        self.fn = fn
        self.sem = Semaphore(0)
        self.state = "ready"
        self.error = None
        self.allocs = 0


class Sched(object):

    def __init__(self, preempt=(), pick=None, budget=40000, alloc=()):
        self.preempt = {}
        for at, k in preempt:
            self.preempt[at] = k
        self.pick = pick
        self.budget = budget
        self.threads = []
        self.points = 0
        self.switches = 0
        self.cur = None
        self.done = Semaphore(0)
        self.aborting = None
        self.alloc = dict(((a, b), 1) for a, b in alloc)
        self.failed = 0
        self.trail = []

    def spawn(self, fn):
        t = SimThread(len(self.threads), fn)
        self.threads.append(t)
        return t

    # -- running

    def run(self):
        "run all threads to their end"
        if not self.threads:
            return
        old, _active[0] = _active[0], self
        try:
            ts = []
            for t in self.threads:
                j = Thread(_Run(lambda t=t: self._main(t)))
                j.setDaemon(True)
                ts.append(j)
                j.start()
            self.cur = self.threads[0]
            self.cur.sem.release()
            self.done.acquire()
            for j in ts:
                j.join()
        finally:
            _active[0] = old
        for t in self.threads:
            if t.error is not None:
                raise t.error[0], t.error[1], t.error[2]

    def _main(self, t):
        t.sem.acquire()
        try:
            if not self.aborting:
                t.fn()
        except SimHang:
            if not self.aborting:
                self.aborting = "hang"
        except:
            t.error = sys.exc_info()
            self.aborting = self.aborting or "error"
        finally:
            t.state = "done"
            self._next(t)

    def _next(self, t):
        "t cannot go on: another thread is due"
        ready = [x for x in self.threads if x.state == "ready"]
        if not ready:
            rest = [x for x in self.threads if x.state == "blocked"]
            if rest:
                if not self.aborting:
                    self.aborting = "deadlock"
                ready = rest[:1]
                rest[0].state = "ready"
        if not ready:
            self.cur = None
            self.done.release()
            return
        if self.pick is not None and len(ready) > 1:
            x = ready[self.pick.below(len(ready))]
        else:
            x = ready[0]
        self._go(x)

    def _go(self, x):
        self.cur = x
        self.switches += 1
        self.trail.append((self.points, x.n))
        x.sem.release()

    def _switch(self, x):
        me = self.cur
        self._go(x)
        me.sem.acquire()
        self._check()

    def _check(self):
        if self.aborting:
            raise SimHang(self.aborting)

    # -- points

    def point(self):
        me = self.cur
        self._check()
        self.points += 1
        if self.points > self.budget:
            self.aborting = "hang"
            raise SimHang("no end in sight")
        k = self.preempt.get(self.points)
        if k is not None:
            others = [x for x in self.threads
                      if x.state == "ready" and x is not me]
            if others:
                self._switch(others[k % len(others)])

    def block(self):
        "until somebody calls wake"
        me = self.cur
        me.state = "blocked"
        self._next(me)
        me.sem.acquire()
        self._check()

    def wake(self, t):
        if t.state == "blocked":
            t.state = "ready"

    def allocation(self):
        "an object is created; the plan may say that memory has run out"
        t = self.cur
        if t is None:
            return
        t.allocs += 1
        if (t.n, t.allocs) in self.alloc:
            self.failed += 1
            raise MemoryError()


def active():
    return _active[0]


def point():
    if _active[0] is not None and _active[0].cur is not None:
        _active[0].point()


def allocation():
    if _active[0] is not None:
        _active[0].allocation()


_iops = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul,
         "Div": operator.idiv, "Mod": operator.imod, "BitOr": operator.ior,
         "BitAnd": operator.iand, "BitXor": operator.ixor}


def iop(name, a, b):
    "x.y += z is not atomic"
    point()
    return _iops[name](a, b)


class Points(ast.NodeTransformer):
    """
    make every statement of the code under test a point
    """

    def call(self, name, at):
        e = ast.parse(name + "()").body[0]
        for n in (e, e.value, e.value.func):
            ast.copy_location(n, at)
        return e

    def block(self, body, init=False):
        out = []
        for s in body:
            out.append(self.call("__sim_point__", s))
            if init:
                init = False
                out.append(self.call("__sim_alloc__", s))
            out.append(self.visit(s))
        return out

    def visit_AugAssign(self, node):
        t = node.target
        op = type(node.op).__name__
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                and op in _iops:
            new = ast.parse("%s.%s = __sim_iop__('%s', %s.%s, 0)" % (
                t.value.id, t.attr, op, t.value.id, t.attr)).body[0]
            for n in ast.walk(new):
                ast.copy_location(n, node)
            args = list(new.value.args)
            args[2] = node.value
            new.value.args = args
            return new
        return node

    def visit_FunctionDef(self, node):
        node.body = self.block(node.body, node.name == "__init__")
        return node

    def generic_visit(self, node):
        keep = isinstance(node, (ast.Module, ast.ClassDef))
        for n in ("body", "orelse", "finalbody"):
            b = getattr(node, n, None)
            if isinstance(b, list):
                if keep:
                    setattr(node, n, [self.visit(s) for s in b])
                else:
                    setattr(node, n, self.block(b))
        for h in getattr(node, "handlers", None) or ():
            h.body = self.block(h.body)
        return node


def transform(source, path):
    return compile(Points().visit(ast.parse(source, path)), path, "exec")


def _me():
    s = _active[0]
    return s.cur if s is not None and s.cur is not None else None


# --------------------------------------------------------------------------
# what the threading module offers
# --------------------------------------------------------------------------

class SimLock(object):
    reentrant = False

    def __init__(self, *args):
        self.owner = None
        self.count = 0
        self.waiting = []

    def acquire(self, blocking=1):
        point()
        me = _me() or "main"
        while self.count and not (self.reentrant and self.owner is me):
            if not blocking:
                return False
            if me == "main":
                raise SimHang("blocked for ever")
            self.waiting.append(me)
            _active[0].block()
        self.owner = me
        self.count += 1
        return True

    def release(self):
        me = _me() or "main"
        if not self.count or (self.reentrant and self.owner is not me):
            if self.reentrant:
                raise RuntimeError("cannot release un-acquired lock")
            raise thread.error("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            ws, self.waiting = self.waiting, []
            for t in ws:
                _active[0].wake(t)
            point()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return bool(self.count)

    def _is_owned(self):
        return bool(self.count) and self.owner is (_me() or "main")


class SimRLock(SimLock):
    reentrant = True


class SimCondition(object):

    def __init__(self, lock=None):
        self.lock = lock or SimRLock()
        self.acquire = self.lock.acquire
        self.release = self.lock.release
        self.waiting = []

    def __enter__(self):
        return self.lock.acquire()

    def __exit__(self, *exc):
        self.lock.release()

    def wait(self, timeout=None):
        n = self.lock.count
        me = _me()
        for _ in range(n):
            self.lock.release()
        if timeout is None:
            if me is None:
                raise SimHang("blocked for ever")
            self.waiting.append(me)
            while me in self.waiting:
                _active[0].block()
        else:
            point()
        for _ in range(n):
            self.lock.acquire()

    def notify(self, n=1):
        ws, self.waiting = self.waiting[:n], self.waiting[n:]
        for t in ws:
            _active[0].wake(t)

    def notifyAll(self):
        self.notify(len(self.waiting))
    notify_all = notifyAll


class SimEvent(object):

    def __init__(self):
        self.cond = SimCondition()
        self.flag = False

    def isSet(self):
        return self.flag
    is_set = isSet

    def set(self):
        with self.cond:
            self.flag = True
            self.cond.notifyAll()

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        with self.cond:
            while not self.flag:
                self.cond.wait(timeout)
                if timeout is not None:
                    break
        return self.flag


class SimSemaphore(object):

    def __init__(self, value=1):
        self.cond = SimCondition()
        self.value = value

    def acquire(self, blocking=1):
        with self.cond:
            while not self.value:
                if not blocking:
                    return False
                self.cond.wait()
            self.value -= 1
        return True

    def release(self):
        with self.cond:
            self.value += 1
            self.cond.notify()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def install():
    __builtin__.__sim_point__ = point
    __builtin__.__sim_alloc__ = allocation
    __builtin__.__sim_iop__ = iop
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading.Condition = SimCondition
    threading.Event = SimEvent
    threading.Semaphore = threading.BoundedSemaphore = SimSemaphore
    thread.allocate_lock = thread.allocate = SimLock
