# -*- coding: utf-8 -*-
"""
A simulated garbage collector.

Weak references of the code under test are handed out by this module.  An
object behind a weak reference dies when a collection, which only the harness
triggers, finds it unreachable from the roots: the objects the harness says the
user holds, plus the module globals of the code under test.
"""

import sys
import types
import weakref as _weak

from java.util import IdentityHashMap

_wvds = []              # weak dictionaries of this run
_refs = []


def reset():
    del _wvds[:]
    del _refs[:]


class WeakValueDictionary(object):
    """
    dict from key to weakly held value
    """

    def __init__(self, *args, **kw):
        self._dst_strong = {}
        _wvds.append(self)
        if args or kw:
            self.update(*args, **kw)

    def _d(self):
        return self._dst_strong

    def __getitem__(self, k):
        return self._dst_strong[k]

    def __setitem__(self, k, v):
        self._dst_strong[k] = v

    def __delitem__(self, k):
        del self._dst_strong[k]

    def __len__(self):
        return len(self._dst_strong)

    def __contains__(self, k):
        return k in self._dst_strong
    has_key = __contains__

    def __iter__(self):
        return iter(self._dst_strong.keys())
    iterkeys = __iter__

    def __repr__(self):
        return "<WeakValueDictionary>"

    def __cmp__(self, other):
        return cmp(id(self), id(other))

    def get(self, k, d=None):
        return self._dst_strong.get(k, d)

    def setdefault(self, k, d=None):
        return self._dst_strong.setdefault(k, d)

    def pop(self, *a):
        return self._dst_strong.pop(*a)

    def popitem(self):
        return self._dst_strong.popitem()

    def clear(self):
        self._dst_strong.clear()

    def update(self, *a, **k):
        for m in a:
            if hasattr(m, "keys"):
                for x in m.keys():
                    self[x] = m[x]
            else:
                for x, v in m:
                    self[x] = v
        for x in k:
            self[x] = k[x]

    def copy(self):
        return WeakValueDictionary(self)

    def keys(self):
        return self._dst_strong.keys()

    def values(self):
        return self._dst_strong.values()

    def items(self):
        return self._dst_strong.items()

    def itervalues(self):
        return iter(self._dst_strong.values())

    def iteritems(self):
        return iter(self._dst_strong.items())

    def valuerefs(self):
        return [ref(v) for v in self.values()]
    itervaluerefs = valuerefs


class ref(object):

    def __init__(self, obj, callback=None):
        self._dst_obj = obj
        self._dst_cb = callback
        _refs.append(self)

    def __call__(self):
        return self._dst_obj

    def __eq__(self, other):
        return (isinstance(other, ref) and
                (self is other or self._dst_obj == other._dst_obj))

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._dst_obj)


KeyedRef = ref


class WeakKeyDictionary(dict):
    pass            # held strongly: keys of such a table never vanish early


def make_module():
    m = types.ModuleType("weakref")
    for n in dir(_weak):
        if not n.startswith("__"):
            setattr(m, n, getattr(_weak, n))
    m.WeakValueDictionary = WeakValueDictionary
    m.ref = ref
    return m


_ATOMS = (str, unicode, int, long, float, bool, complex, types.NoneType,
          types.EllipsisType)


def reachable(roots, modules=True):
    """
    -> IdentityHashMap of everything strongly reachable from the roots
    """
    seen = IdentityHashMap()
    stack = list(roots)
    if modules:
        for name in sorted(sys.modules):
            if name == "daeso" or name.startswith("daeso."):
                m = sys.modules[name]
                if m is not None:
                    stack.append(m.__dict__)
    while stack:
        o = stack.pop()
        if o is None or isinstance(o, _ATOMS):
            continue
        if seen.containsKey(o):
            continue
        seen.put(o, True)
        if isinstance(o, (WeakValueDictionary, ref)):
            if isinstance(o, WeakValueDictionary):
                stack.extend(o._dst_strong.keys())
            continue
        if isinstance(o, dict):
            try:
                pairs = dict.items(o)
            except TypeError:       # a namespace, kept in another type
                pairs = o.items()
            for k, v in pairs:
                stack.append(k)
                stack.append(v)
        elif isinstance(o, (list, tuple)):
            stack.extend(tuple.__iter__(o) if isinstance(o, tuple)
                         else list.__iter__(o))
        elif isinstance(o, (set, frozenset)):
            stack.extend(list(o))
        elif isinstance(o, types.FunctionType):
            if o.func_defaults:
                stack.extend(o.func_defaults)
            for c in o.func_closure or ():
                try:
                    stack.append(c.cell_contents)
                except (ValueError, AttributeError):
                    pass
            stack.append(o.__dict__)
            continue
        elif isinstance(o, types.MethodType):
            stack.append(o.im_self)
            stack.append(o.im_func)
            continue
        elif isinstance(o, (staticmethod, classmethod)):
            try:
                stack.append(o.__get__(None, object))
            except Exception:
                pass
            continue
        elif isinstance(o, types.GeneratorType):
            fr = o.gi_frame
            if fr is not None:
                stack.append(dict(fr.f_locals))
            continue
        elif isinstance(o, types.ModuleType):
            continue
        elif isinstance(o, type):
            if str(getattr(o, "__module__", "")).startswith("daeso"):
                stack.append(dict(o.__dict__))
            continue
        d = getattr(o, "__dict__", None)
        if isinstance(d, dict) or (d is not None and hasattr(d, "items")):
            try:
                stack.append(dict(d))
            except Exception:
                pass
        for c in type(o).__mro__ if hasattr(type(o), "__mro__") else ():
            for s in getattr(c, "__slots__", ()) or ():
                if isinstance(s, str):
                    try:
                        stack.append(getattr(o, s))
                    except AttributeError:
                        pass
    return seen


def collect(roots):
    "one collection; -> number of objects that died"
    seen = reachable(roots)
    dead = 0
    for w in list(_wvds):
        for k, v in w._dst_strong.items():
            if v is not None and not isinstance(v, _ATOMS) and \
                    not seen.containsKey(v):
                del w._dst_strong[k]
                dead += 1
    for r in list(_refs):
        if r._dst_obj is not None and not seen.containsKey(r._dst_obj):
            r._dst_obj = None
            dead += 1
            if r._dst_cb:
                r._dst_cb(r)
    return dead
