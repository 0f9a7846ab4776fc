"""Loads /repo's current source, symbolically (custom builtins) or plainly."""
from __future__ import annotations
import ast
import builtins
import importlib
import math as _m
import os
import sys
import re
import types

from . import core, symmath, symdict
from .core import Sym, SymFloat, SymInt, SymBool, Unsupported, lift

SRC = os.environ.get('VERIF_SRC', '/repo/src')
PKG = 'pyrusgeom'

_code = {}


def code_of(name):
    """(code, path, is_pkg) of a module of the package, compiled from the current source"""
    if name in _code:
        return _code[name]
    rel = name.replace('.', '/')
    p = os.path.join(SRC, rel + '.py')
    pkg = False
    if not os.path.exists(p):
        p = os.path.join(SRC, rel, '__init__.py')
        pkg = True
        if not os.path.exists(p):
            raise ImportError('No module named ' + name)
    with open(p, encoding='utf-8') as f:
        src = f.read()
    _code[name] = ((compile(src, p, 'exec', dont_inherit=True), compile(symbolic_containers(ast.parse(src, p)), p, 'exec', dont_inherit=True)), p, pkg)
    return _code[name]


class _Containers(ast.NodeTransformer):
    """displays of dictionaries and sets build the containers of symdict"""
    def visit_Dict(self, n):
        self.generic_visit(n)
        els = [ast.Tuple([v] if k is None else [k, v], ast.Load()) for k, v in zip(n.keys, n.values)]
        return ast.Call(ast.Name('__sx_dict__', ast.Load()), [ast.Tuple(els, ast.Load())], [])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('__sx_dict__', ast.Load()), [ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('__sx_set__', ast.Load()), [ast.Tuple(n.elts, ast.Load())], [])

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('__sx_set__', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])


def symbolic_containers(tree):
    new = _Containers().visit(tree)
    return ast.fix_missing_locations(new)


# ------------------------------------------------------------------ builtin stand-ins

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymFloat))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SymFloat))

    def __eq__(cls, o):
        return o is cls or o is float or o is SymFloat

    def __hash__(cls):
        return hash(float)

    def __call__(cls, x=0.0):
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, SymInt):
            return SymFloat(x.r)
        if isinstance(x, SymBool):
            return float(bool(x))
        if isinstance(x, (int, float, str)):
            return float(x)
        f = getattr(type(x), '__float__', None)
        if f is not None:
            return f(x)
        return float(x)


class FloatShim(metaclass=_FloatMeta):
    fromhex = staticmethod(float.fromhex)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, SymInt))

    def __eq__(cls, o):
        return o is cls or o is int or o is SymInt

    def __hash__(cls):
        return hash(int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            return core.trunc_of(x)
        if isinstance(x, SymBool):
            return int(bool(x))
        if not isinstance(x, (int, float, str, bytes)):
            f = getattr(type(x), '__int__', None) or getattr(type(x), '__trunc__', None)
            if f is not None:
                return f(x)
        return int(x, *a)


class IntShim(metaclass=_IntMeta):
    from_bytes = staticmethod(int.from_bytes)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __eq__(cls, o):
        return o is cls or o is bool or o is SymBool

    def __hash__(cls):
        return hash(bool)

    def __call__(cls, x=False):
        return bool(x)


class BoolShim(metaclass=_BoolMeta):
    pass


class SymHash(int):
    """hash value of a symbolic object: numerically 0, remembers what was hashed"""
    def __new__(cls, payload):
        s = int.__new__(cls, 0)
        s.payload = payload
        return s

    def _op(self, name, o, rev=False):
        o = o.payload if isinstance(o, SymHash) else ('c', o)
        return SymHash((name, o, self.payload) if rev else (name, self.payload, o))


for _n in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'lshift', 'rshift', 'mod', 'floordiv'):
    def _mk(n):
        def f(self, o):
            return self._op(n, o)

        def g(self, o):
            return self._op(n, o, True)
        return f, g
    _f, _g = _mk(_n)
    setattr(SymHash, f'__{_n}__', _f)
    setattr(SymHash, f'__r{_n}__', _g)


def has_sym(x):
    if isinstance(x, (Sym, SymHash)):
        return True
    if isinstance(x, str):
        return '<sym#' in x
    if isinstance(x, (tuple, frozenset)):
        return any(has_sym(y) for y in x)
    return False


FORCE = False


def force_hash(x):
    """the hash with what was hashed, also of a concrete object"""
    global FORCE
    old, FORCE = FORCE, True
    try:
        h = getattr(type(x), '__hash__', None)
        return h(x) if isinstance(h, types.FunctionType) else sym_hash(x)
    finally:
        FORCE = old


def text_payload(s):
    """what a text with symbolic numbers in it consists of: equal texts have the same literal parts, kinds, formats and numbers"""
    parts = re.split(r'<sym#(\d+)>', s)
    out = ['s']
    for i, p in enumerate(parts):
        if i % 2:
            v, kind, spec = core.PRINTED[int(p)]
            out += [kind, spec, v]
        else:
            out.append(p)
    return tuple(out)


def sym_hash(x):
    if isinstance(x, SymHash):
        return x
    if has_sym(x) or FORCE and isinstance(x, (int, float, tuple)):
        if isinstance(x, tuple):
            return SymHash(('t',) + tuple(sym_hash(y).payload if has_sym(y) or FORCE and isinstance(y, tuple) else ('n', y) for y in x))
        if isinstance(x, str):
            return SymHash(text_payload(x))
        return SymHash(('n', x))
    h = getattr(type(x), '__hash__', None)
    if h is not None and isinstance(h, types.FunctionType):
        return h(x)
    return hash(x)


def hash_equal(a, b):
    """solver condition under which two hashes agree"""
    pa = a.payload if isinstance(a, SymHash) else None
    pb = b.payload if isinstance(b, SymHash) else None
    if pa is None and pb is None:
        return a == b
    if pa is None or pb is None:
        return False
    return _pe(pa, pb)


def _pe(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return core.b_and(*[_pe(x, y) for x, y in zip(a, b)])
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    r = a == b
    return r


def sym_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymFloat) or type(x) is float:
            return FloatShim
        if isinstance(x, SymInt) or type(x) is int:
            return IntShim
        if isinstance(x, SymBool) or type(x) is bool:
            return BoolShim
        return type(x)
    return type(*a)


_MATH = None


def math_shim():
    global _MATH
    if _MATH is None:
        _MATH = symmath.module()
    return _MATH


ALLOWED_EXTERNAL = None


class Lib:
    """one fresh copy of the package, executed under the given builtins"""

    def __init__(self, symbolic=True):
        self.symbolic = symbolic
        self.mods = {}
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        b['print'] = lambda *a, **k: None
        b['open'] = self._no_open
        b['input'] = self._no_open
        if symbolic:
            b['float'] = FloatShim
            b['int'] = IntShim
            b['bool'] = BoolShim
            b['hash'] = sym_hash
            b['type'] = sym_type
            b['pow'] = self._pow
            b['dict'] = symdict.DictShim
            b['set'] = symdict.SetShim
            b['__sx_dict__'] = symdict.make_dict
            b['__sx_set__'] = symdict.SymSet
        self.builtins = b

    @staticmethod
    def _no_open(*a, **k):
        raise Unsupported('I/O in the code under test')

    @staticmethod
    def _pow(a, b, mod=None):
        if mod is not None:
            return pow(a, b, mod)
        return a ** b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__name__'] if globals.get('__path__') is not None else globals['__name__'].rpartition('.')[0]
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            name = base + ('.' + name if name else '')
        if name == PKG or name.startswith(PKG + '.'):
            m = self.load(name)
            if not fromlist:
                return self.mods[name.split('.')[0]]
            for f in fromlist:
                if f == '*':
                    continue
                if not hasattr(m, f):
                    try:
                        self.load(name + '.' + f)
                    except ImportError:
                        pass
            return m
        if self.symbolic:
            if name == 'math':
                return math_shim()
            if name == 'functools':
                return symdict.functools_shim()
            if name in ('numpy', 'cmath', 'decimal', 'struct', 'random', 'statistics'):
                raise Unsupported('import ' + name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent = name.rpartition('.')[0]
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        code, path, pkg = code_of(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__builtins__ = self.builtins
        self.mods[name] = m
        # annotations evaluated by typing/dataclasses look the module up in sys.modules
        old = sys.modules.get(name)
        sys.modules[name] = m
        try:
            exec(code[self.symbolic], m.__dict__)
        finally:
            if old is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = old
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            setattr(self.mods[parent], leaf, m)
        return m

    _names = {
        'AngleDeg': 'angle_deg', 'Vector2D': 'vector_2d', 'Line2D': 'line_2d', 'Ray2D': 'ray_2d',
        'Segment2D': 'segment_2d', 'Triangle2D': 'triangle_2d', 'Circle2D': 'circle_2d',
        'Rect2D': 'rect_2d', 'Size2D': 'size_2d', 'Sector2D': 'sector_2d', 'Polygon2D': 'polygon_2d',
        'Matrix2D': 'matrix_2d', 'ConvexHull': 'convex_hull', 'Region2D': 'region_2d', 'MethodType': 'convex_hull',
    }

    def __getattr__(self, n):
        if n in Lib._names:
            c = getattr(self.load(PKG + '.' + Lib._names[n]), n)
            return c
        if n == 'sm':
            return self.load(PKG + '.soccer_math')
        if n == 'mv':
            return self.load(PKG + '.math_values')
        raise AttributeError(n)

    def mod(self, leaf):
        return self.load(PKG + '.' + leaf)
