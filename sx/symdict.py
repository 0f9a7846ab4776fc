"""Dictionaries, sets and memoisation whose keys may be symbolic: a symbolic key has no hash to look up, so keys are compared one by one."""
from __future__ import annotations
import functools as _ft
import types

from . import core
from .core import Sym, SymBool


def plain(k):
    """no symbolic value can hide in the key or its equality"""
    if isinstance(k, Sym):
        return False
    if isinstance(k, tuple):
        return all(plain(x) for x in k)
    if isinstance(k, (str, bytes, int, float, type(None), type)):
        return True
    if isinstance(k, frozenset):
        return all(plain(x) for x in k)
    return not isinstance(type(k).__hash__, types.FunctionType) or type(k).__module__.startswith('enum')


def check_hashable(k):
    if isinstance(k, tuple):
        for x in k:
            check_hashable(x)
    elif type(k).__hash__ is None:
        raise TypeError(f"unhashable type: '{type(k).__name__}'")


def key_equal(a, b):
    """the two keys name the same entry: equal hashes and equal"""
    from . import loader
    if a is b:
        return True
    if isinstance(a, (Sym, int, float)) and isinstance(b, (Sym, int, float)):
        return bool(a == b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(key_equal(x, y) for x, y in zip(a, b))
    if plain(a) and plain(b):
        return a == b
    if type(a) is not type(b):
        return False
    if not bool(loader.hash_equal(loader.force_hash(a), loader.force_hash(b))):
        return False
    return bool(a == b)


class SymDict(dict):
    """the entries stay in an ordinary dictionary under the key object that was stored first"""
    def __init__(self, *a, **k):
        dict.__init__(self)
        self._odd = False
        self.update(*a, **k)

    def _key(self, k):
        """(found, stored key)"""
        check_hashable(k)
        if not self._odd and plain(k):
            return dict.__contains__(self, k), k
        for s in dict.keys(self):
            if key_equal(s.k if isinstance(s, Box) else s, k):
                return True, s
        return False, k

    def __setitem__(self, k, v):
        f, s = self._key(k)
        if not f and not plain(k):
            self._odd = True
            s = Box(k)
        dict.__setitem__(self, s, v)

    def __getitem__(self, k):
        f, s = self._key(k)
        if not f:
            raise KeyError(k)
        return dict.__getitem__(self, s)

    def __contains__(self, k):
        return self._key(k)[0]

    def __delitem__(self, k):
        f, s = self._key(k)
        if not f:
            raise KeyError(k)
        dict.__delitem__(self, s)

    def get(self, k, d=None):
        f, s = self._key(k)
        return dict.__getitem__(self, s) if f else d

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
            return d
        return self[k]

    _none = object()

    def pop(self, k, d=_none):
        f, s = self._key(k)
        if f:
            return dict.pop(self, s)
        if d is SymDict._none:
            raise KeyError(k)
        return d

    def popitem(self):
        s, v = dict.popitem(self)
        return (s.k if isinstance(s, Box) else s), v

    def update(self, *a, **k):
        if a:
            src = a[0]
            if hasattr(src, 'keys'):
                for x in src.keys():
                    self[x] = src[x]
            else:
                for x, v in src:
                    self[x] = v
        for x, v in k.items():
            self[x] = v

    def __iter__(self):
        return iter([s.k if isinstance(s, Box) else s for s in dict.keys(self)])

    def keys(self):
        return list(iter(self))

    def items(self):
        return [(s.k if isinstance(s, Box) else s, v) for s, v in dict.items(self)]

    def copy(self):
        return SymDict(self)

    def __or__(self, o):
        d = SymDict(self)
        d.update(o)
        return d

    def __eq__(self, o):
        return isinstance(o, dict) and len(self) == len(o) and all(k in o and o[k] == v for k, v in self.items())

    def __ne__(self, o):
        return not self == o
    __hash__ = None


class Box:
    """identity-hashed holder of a symbolic key"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


class SymSet:
    def __init__(self, it=()):
        self.d = SymDict()
        for x in it:
            self.d[x] = None

    def add(self, x):
        if x not in self.d:
            self.d[x] = None

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        self.d.pop(x)

    def pop(self):
        if not self.d:
            raise KeyError('pop from an empty set')
        return self.d.popitem()[0]

    def clear(self):
        self.d.clear()
        self.d._odd = False

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SymSet(self)

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __or__(self, o):
        return SymSet(list(self) + list(o))
    __ror__ = __or__

    def union(self, *o):
        r = SymSet(self)
        r.update(*o)
        return r

    def __and__(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return SymSet([x for x in self if x in o])
    __rand__ = intersection = __and__

    def __sub__(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return SymSet([x for x in self if x not in o])
    difference = __sub__

    def __rsub__(self, o):
        return SymSet(o) - self

    def __le__(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return all(x in o for x in self)
    issubset = __le__

    def __ge__(self, o):
        return all(x in self for x in o)
    issuperset = __ge__

    def __eq__(self, o):
        return isinstance(o, (SymSet, set, frozenset)) and len(self) == len(o) and self <= o

    def __ne__(self, o):
        return not self == o

    def isdisjoint(self, o):
        return not any(x in self for x in o)
    __hash__ = None


class _DictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, dict)

    def __eq__(cls, o):
        return o is cls or o is dict or o is SymDict

    def __hash__(cls):
        return hash(dict)

    def __call__(cls, *a, **k):
        return SymDict(*a, **k)

    def __getitem__(cls, x):
        return dict[x]


class DictShim(metaclass=_DictMeta):
    @staticmethod
    def fromkeys(it, v=None):
        return SymDict([(k, v) for k in it])


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (set, SymSet))

    def __eq__(cls, o):
        return o is cls or o is set or o is SymSet

    def __hash__(cls):
        return hash(set)

    def __call__(cls, *a):
        return SymSet(*a)

    def __getitem__(cls, x):
        return set[x]


class SetShim(metaclass=_SetMeta):
    pass


def make_dict(pairs):
    d = SymDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize) and not isinstance(maxsize, int):
        return lru_cache(128)(maxsize)

    def deco(f):
        store = SymDict()

        @_ft.wraps(f)
        def g(*a, **k):
            key = (a, tuple(k.items()))
            if typed:
                key += (tuple(type(x) for x in a),)
            if key in store:
                v = store.pop(key)
                store[key] = v
                return v
            v = f(*a, **k)
            if maxsize != 0:
                store[key] = v
            if maxsize is not None and len(store) > maxsize:
                store.pop(store.keys()[0])
            return v
        g.cache_clear = store.clear
        g.__wrapped__ = f
        return g
    return deco


def functools_shim():
    m = types.ModuleType('functools')
    m.__dict__.update({k: v for k, v in _ft.__dict__.items() if not k.startswith('__')})
    m.lru_cache = lru_cache
    m.cache = lambda f: lru_cache(None)(f)
    return m
