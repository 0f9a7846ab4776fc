"""The harness-facing context: one harness, run symbolically or on concrete inputs."""
from __future__ import annotations
import math
import re
import time
from fractions import Fraction

import z3

from . import core, loader, solve, symmath
from .core import (Sym, SymFloat, SymInt, SymBool, EngineStop, Infeasible, Unsupported, Violated,
                   b_and, b_or, b_not, b_iff, lift, compare, quick_solve, sneg)
from .poly import Poly, Rat

CASES = {}          # (prop, name) -> Case


# a number in a text: a symbolic one, or a literal that is no part of a word
NUMBER = re.compile(r'(?<![\w.<#])(?:<sym#(\d+)>|([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?))(?!\w)')


class Case:
    def __init__(self, prop, name, fn, opts):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.opts = opts


def case(prop, name=None, **opts):
    def deco(fn):
        params = opts.pop('params', None)
        n = name or fn.__name__
        if params is None:
            CASES[(prop, n)] = Case(prop, n, fn, opts)
        else:
            for p in params:
                tag = '-'.join(str(x) for x in (p if isinstance(p, tuple) else (p,)))
                o = dict(opts)

                def g(t, _p=p):
                    return fn(t, *(_p if isinstance(_p, tuple) else (_p,)))
                CASES[(prop, f'{n}[{tag}]')] = Case(prop, f'{n}[{tag}]', g, o)
        return fn
    return deco


class Base:
    """shared vocabulary"""
    TOL = 1e-6

    # ---- library objects ----
    def V(self, x, y):
        return self.L.Vector2D(x, y)

    def vec(self, name, lo=None, hi=None):
        return self.L.Vector2D(self.real(name + 'x', lo, hi), self.real(name + 'y', lo, hi))

    def xy(self, name, lo=None, hi=None):
        return self.real(name + 'x', lo, hi), self.real(name + 'y', lo, hi)

    def A(self, d):
        return self.L.AngleDeg(d)

    def Or_list(self, xs):
        return self.Or(*list(xs))

    def eqv(self, v, x, y):
        """vector v is the point (x, y)"""
        return self.And(self.eq(v.x(), x), self.eq(v.y(), y))

    def veq(self, v, w):
        return self.eqv(v, w.x(), w.y())

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def raises(self, fn, exc=Exception):
        try:
            fn()
        except exc:
            return True
        return False


class SymCtx(Base):
    symbolic = True

    def fresh(self):
        """a second copy of the library, with no history"""
        return loader.Lib(symbolic=True)

    def __init__(self, run):
        self.run = run
        self.L = loader.Lib(symbolic=True)
        self.pathlabels = []

    # ---- inputs ----
    def _in(self, name, kind):
        eng = core.ENG
        v, fresh = eng.new_var(('in', name, kind), 'i_' + name + ('' if kind == 'real' else '_int'), kind)
        eng.inputs[name] = v
        self.run.used_inputs.add(name)
        return v

    def real(self, name, lo=None, hi=None):
        v = self._in(name, 'real')
        core.ENG.ranges[name] = (lo, hi)
        x = SymFloat(Rat(Poly.var(v.vid)))
        if lo is not None:
            core.ENG.path.assume(x >= lo)
        if hi is not None:
            core.ENG.path.assume(x <= hi)
        return x

    def int(self, name, lo=None, hi=None):
        v = self._in(name, 'int')
        core.ENG.ranges[name] = (lo, hi)
        x = SymInt(Rat(Poly.var(v.vid)))
        if lo is not None:
            core.ENG.path.assume(x >= lo)
        if hi is not None:
            core.ENG.path.assume(x <= hi)
        return x

    def choice(self, name, items):
        k = core.ENG.path.choose(len(items))
        self.run.choices[name] = k
        return items[k]

    def assume(self, c):
        if c is NotImplemented:
            raise TypeError('assume')
        core.ENG.path.assume(c if isinstance(c, SymBool) else bool(c))

    # ---- conditions ----
    def And(self, *xs):
        return b_and(*[self._b(x) for x in xs])

    def Or(self, *xs):
        return b_or(*[self._b(x) for x in xs])

    def Not(self, x):
        return b_not(self._b(x))

    def Iff(self, a, b):
        return b_iff(self._b(a), self._b(b))

    @staticmethod
    def _b(x):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Sym):
            return compare(x, 0, '!=')
        return bool(x)

    def _d(self, a, b):
        if not _isnum(a) or not _isnum(b):
            raise TypeError(f'expected numbers, got {type(a).__name__} and {type(b).__name__}')
        d = a - b
        return d

    def eq(self, a, b, tol=None):
        d = self._d(a, b)
        if not isinstance(d, Sym):
            return abs(d) <= self.TOL * (1 + max(abs(a), abs(b)))
        r = compare(d, 0, '==')
        if isinstance(r, SymBool):
            m = self.run.margin
            r = SymBool(r.f, r.at)
            r.sn = core.zb(b_or(compare(d, m, '>'), compare(d, -m, '<')))
            r.sp = r.f
        return r

    def le(self, a, b, tol=None):
        """a <= b (margin for counterexamples, tolerance on replay)"""
        d = self._d(a, b)
        if not isinstance(d, Sym):
            return d <= self.TOL * (1 + max(abs(a), abs(b)))
        r = compare(d, 0, '<=')
        if isinstance(r, SymBool):
            r = SymBool(r.f, r.at)
            r.sn = core.zb(compare(d, self.run.margin, '>'))
            r.sp = r.f
        return r

    def lt(self, a, b, tol=None):
        d = self._d(a, b)
        if not isinstance(d, Sym):
            return d < self.TOL * (1 + max(abs(a), abs(b)))
        r = compare(d, 0, '<')
        if isinstance(r, SymBool):
            r = SymBool(r.f, r.at)
            r.sn = core.zb(compare(d, self.run.margin, '>'))
            r.sp = r.f
        return r

    def sure(self, a, b, op):
        """a op b, meant to be decided with a margin in both directions on replay"""
        d = self._d(a, b)
        if not isinstance(d, Sym):
            return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0, '==': d == 0}[op]
        return compare(d, 0, op)

    def exact(self, a, b):
        """a is b exactly (no tolerance)"""
        d = self._d(a, b)
        if not isinstance(d, Sym):
            return d == 0
        return compare(d, 0, '==')

    # ---- numeric helpers usable in specifications ----
    def sqrt(self, x):
        return symmath.sqrt(x)

    def abs(self, x):
        return core.do_abs(x) if isinstance(x, Sym) else abs(x)

    def cos(self, deg):
        if not isinstance(deg, Sym):
            return symmath._const_cs(Fraction(deg))[0]
        return symmath.cs_deg(lift(deg))[0]

    def sin(self, deg):
        if not isinstance(deg, Sym):
            return symmath._const_cs(Fraction(deg))[1]
        return symmath.cs_deg(lift(deg))[1]

    def exp(self, x):
        return symmath.exp(x)

    def pow(self, b, e):
        return symmath.pow(b, e)

    def floor(self, x):
        return core.floor_of(x) if isinstance(x, Sym) else math.floor(x)

    def is_multiple(self, x, q):
        """x is an integer multiple of the constant q"""
        if not isinstance(x, Sym):
            k = Fraction(x) / Fraction(q)
            return abs(k - round(k)) * abs(Fraction(q)) <= Fraction(self.TOL) * (1 + abs(Fraction(x)))
        n = core.floor_of(SymFloat(core.ENG.div(x.r, lift(q))))
        return compare(x, n * q, '==')

    def link(self, deg, turns=1):
        """quadrant facts about an angle expression"""
        if isinstance(deg, Sym):
            symmath.link_quadrant(deg, symmath.cs_deg(lift(deg)), turns)

    def numbers(self, text):
        """the numbers shown in a text, in order"""
        out = []
        for tok, lit in NUMBER.findall(text):
            if lit:
                out.append(float(lit))
                continue
            v, kind, spec = core.PRINTED[int(tok)]
            m = re.fullmatch(r'\.(\d+)f', spec)
            if m:
                v = round(v, int(m[1]))
            elif spec:
                raise core.Unsupported('format ' + spec)
            out.append(v)
        return out

    def hash(self, x):
        return loader.sym_hash(x)

    def hash_eq(self, a, b):
        return loader.hash_equal(a, b)

    def split(self, c):
        """branch on a condition of the specification"""
        return bool(c)

    # ---- the assertion ----
    def check(self, label, cond):
        self.run.on_check(self, label, self._b(cond))

    def reach(self, label):
        self.run.on_check(self, label, True)


def _isnum(x):
    return isinstance(x, (Sym, int, float, Fraction)) and not isinstance(x, bool)


class ReplayStop(Exception):
    pass


class ConcCtx(Base):
    """the same harness on concrete inputs, against the unmodified library"""
    symbolic = False

    def fresh(self):
        return loader.Lib(symbolic=False)

    def __init__(self, values, choices, lib):
        self.values = values
        self.choices = choices
        self.L = lib
        self.failed = []
        self.reached = []
        self.used = {}

    def real(self, name, lo=None, hi=None):
        x = float(self.values.get(name, 0))
        self.used[name] = x
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise ReplayStop('input out of range')
        return x

    def int(self, name, lo=None, hi=None):
        x = int(self.values.get(name, 0))
        self.used[name] = x
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise ReplayStop('input out of range')
        return x

    def choice(self, name, items):
        k = self.choices.get(name, 0)
        self.used[name] = f'choice {k}'
        return items[k]

    def assume(self, c):
        if not c:
            raise ReplayStop('assumption does not hold on replay')

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def _chk(self, a, b):
        if not _isnum(a) or not _isnum(b):
            raise TypeError(f'expected numbers, got {type(a).__name__} and {type(b).__name__}')

    def _tol(self, a, b, tol):
        return (tol or self.TOL) * (1 + max(abs(a), abs(b)))

    def eq(self, a, b, tol=None):
        self._chk(a, b)
        if a == b:
            return True
        return abs(a - b) <= self._tol(a, b, tol)

    def le(self, a, b, tol=None):
        self._chk(a, b)
        return a <= b + self._tol(a, b, tol)

    def lt(self, a, b, tol=None):
        self._chk(a, b)
        return a < b + self._tol(a, b, tol)

    def sure(self, a, b, op):
        self._chk(a, b)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b}[op]

    def exact(self, a, b):
        self._chk(a, b)
        return a == b

    def sqrt(self, x):
        return math.sqrt(x) if x > 0 else 0.0

    def abs(self, x):
        return abs(x)

    def cos(self, deg):
        return math.cos(math.radians(deg))

    def sin(self, deg):
        return math.sin(math.radians(deg))

    def exp(self, x):
        return math.exp(x)

    def pow(self, b, e):
        return math.pow(b, e)

    def floor(self, x):
        return math.floor(x)

    def is_multiple(self, x, q):
        k = x / q
        return abs(k - round(k)) * abs(q) <= self.TOL * (1 + abs(x))

    def link(self, deg, turns=1):
        pass

    def numbers(self, text):
        return [float(lit) for _, lit in NUMBER.findall(text)]

    def hash(self, x):
        return hash(x)

    def hash_eq(self, a, b):
        return a == b

    def split(self, c):
        return bool(c)

    def check(self, label, cond):
        self.reached.append(label)
        if not cond:
            self.failed.append(label)

    def reach(self, label):
        self.reached.append(label)
