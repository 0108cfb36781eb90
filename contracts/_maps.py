"""dicts whose keys are numbers or any other value, by what is known of the keys used"""
from pyvc.engine import *
from pyvc import instr

ABSENT = object()

def ctx():
    from pyvc import engine
    return engine.CTX

def same_key(a, b):
    if a is b: return True
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same_key(x, y) for x, y in zip(a, b))
    return instr.truth(instr.h_eq(a, b))

class Map:
    """a dict with any keys: make(k) is what it has at the first use of k (ABSENT if the key is not in it); `view` is the list of
    the (key, value) pairs it has before being changed, for the loops over it"""
    _vc_ghost = True
    def __init__(self, name, make, view=None):
        memo = []
        def base(k):
            for kk, v in memo:
                if same_key(kk, k): return v
            memo.append((k, make(k)))
            return memo[-1][1]
        self.name, self.base, self.view, self.writes = name, base, view, ()
    def at(self, k):
        for kk, v in reversed(self.writes):
            if same_key(kk, k): return v
        return self.base(k)
    def __contains__(self, k): return self.at(k) is not ABSENT
    def __getitem__(self, k):
        v = self.at(k)
        if v is ABSENT: raise KeyError(k)
        return v
    def get(self, k, d=None):
        v = self.at(k)
        return d if v is ABSENT else v
    def __setitem__(self, k, v):
        # a dict that is put in this one may have any keys too
        if type(v) is dict and not v: v = Map('new', lambda k: ABSENT)
        self.writes = self.writes + ((k, v),)
    def __delitem__(self, k):
        self[k]
        self.writes = self.writes + ((k, ABSENT),)
    def setdefault(self, k, v=None):
        o = self.at(k)
        if o is not ABSENT: return o
        self[k] = v
        return self.writes[-1][1]
    def pop(self, k, *d):
        v = self.at(k)
        if v is ABSENT:
            if d: return d[0]
            raise KeyError(k)
        self.writes = self.writes + ((k, ABSENT),)
        return v
    def listed(self):
        if self.view is None or self.writes: ctx().abort(Unsupported('elements of %s' % self.name))
        return self.view
    def mapped(self, what, f):
        v = self.listed()
        r = SList(self.name + what, v.n, lambda i: f(v.at(i)), v.loop)
        r.of = self
        return r
    def items(self): return self.mapped('.items', lambda kv: kv)
    def values(self): return self.mapped('.values', lambda kv: kv[1])
    def keys(self): return self.mapped('.keys', lambda kv: kv[0])
    def _vc_iter(self): return self.keys()
    def _vc_len(self):
        if self.view is None or self.writes: ctx().abort(Unsupported('length of %s' % self.name))
        return self.view.n
    def __bool__(self): return bool(self._vc_len() > 0)
    def __iter__(self): ctx().abort(Unsupported('elements of %s' % self.name))
    def update(self, o):
        for k, v in o.items(): self[k] = v
    def _vc_isinstance(self, t): return issubclass(dict, t)

def any_map(name, value):
    """a dict that may have any key; value(k) is what it has for k if it does"""
    def make(k): return value(k) if ctx().choose(2, 'in ' + name) else ABSENT
    return Map(name, make)

def only_change(m, k, v):
    """the only change of the map is that k has v (ABSENT: is no longer in it)"""
    if not m.writes: return m.at(k) is v
    return all(same_key(kk, k) for kk, _ in m.writes) and m.writes[-1][1] is v

def unchanged(m):
    """every key has what it had"""
    return all(m.at(k) is m.base(k) for k, _ in m.writes)
