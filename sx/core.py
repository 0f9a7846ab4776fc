"""Symbolic values, path exploration and the term builder (real-arithmetic domain)."""
from __future__ import annotations
import math
import signal
import time
from fractions import Fraction

import z3

from .poly import Poly, Rat, Ring, P0, P1, Blowup

z3.set_param('memory_max_size', 6000)


class EngineStop(BaseException):
    """path-steering exceptions: never caught by the library under test"""


class Infeasible(EngineStop):
    pass


class Unsupported(EngineStop):
    """the code left the fragment the encoder handles: the path is inconclusive"""


class Budget(EngineStop):
    pass


class Violated(EngineStop):
    """a check failed on this path; the counterexample has been recorded"""


ATOM = {'<': lambda z: z < 0, '<=': lambda z: z <= 0, '==': lambda z: z == 0,
        '>': lambda z: z > 0, '>=': lambda z: z >= 0, '!=': lambda z: z != 0}
ENG = None      # engine of the running exploration


def lcm_den(p: Poly):
    d = 1
    for c in p.t.values():
        d = d * c.denominator // math.gcd(d, c.denominator)
    return d


class Var:
    __slots__ = ('vid', 'name', 'kind', 'z', 'axioms', 'info', 'zr')

    def __init__(self, vid, name, kind):
        self.vid = vid
        self.name = name
        self.kind = kind
        self.z = z3.Int(name) if kind == 'int' else z3.Real(name)
        self.zr = z3.ToReal(self.z) if kind == 'int' else self.z
        self.axioms = []
        self.info = None


class Engine:
    def __init__(self, opts):
        self.opts = opts
        self.ring = Ring()
        self.vars = []
        self.bykey = {}
        self.defined = {}
        self.zatoms = {}          # (canonical poly, op) -> formula
        self.inputs = {}          # name -> Var
        self.ranges = {}          # name -> the stated bounds of an input
        self.nn = set()           # canonical polys known >= 0
        self.path = None
        self.angle_base = {}      # mono-key -> list of registered denominators
        self.angles = []          # (vid-key, theta Rat, c Rat, s Rat)
        self.stats = dict(decisions=0, forks=0, feas_queries=0, feas_time=0.0,
                          model_hits=0, fact_hits=0, feas_unknown=0)

    # ---- variables ----
    def new_var(self, key, name, kind='real'):
        v = self.bykey.get(key)
        if v is None:
            v = Var(len(self.vars), f'{name}', kind)
            self.vars.append(v)
            self.bykey[key] = v
            return v, True
        return v, False

    def use(self, v):
        """assert v's definitional axioms on the current path (once)"""
        p = self.path
        if v.vid in p.used:
            return
        p.used.add(v.vid)
        for a in v.axioms:
            p.add(a() if callable(a) else a)

    def use_all(self, p):
        """roots and absolute values reached through a cache still need their definitions"""
        if not self.defined:
            return
        vs = p._vs
        if vs is None:
            vs = p._vs = tuple(p.vars())
        for k in vs:
            if k in self.defined and k not in self.path.used:
                v = self.vars[k]
                self.use(v)
                b = self.defined[k]
                self.use_all(b)

    # ---- rational arithmetic ----
    def mk(self, num, den=None, pik=0):
        if not num.t:
            return Rat(P0)
        if not den:
            return Rat(num, None, pik)
        d = {}
        work = list(den.items())
        while work:
            f, e = work.pop()
            if e == 0:
                continue
            v = f.single_var()
            if v is not None and v in self.ring.red:
                # rationalise: 1/v^e
                for _ in range(e):
                    num = self.ring.mul(num, f)
                rp = self.ring.red[v]
                if rp.is_const():
                    num = num.scale(1 / rp.const_value() ** e)
                else:
                    c, _s, lc = rp.canon()
                    num = num.scale(1 / lc ** e)
                    work.append((c, e))
                continue
            d[f] = d.get(f, 0) + e
        for f in list(d):
            while d.get(f):
                q = num.div_exact(f)
                if q is None:
                    break
                num = q
                d[f] -= 1
            if not d.get(f):
                d.pop(f, None)
        return Rat(num, d, pik)

    def pi_rat(self):
        v, fresh = self.new_var('pi', 'PI')
        if fresh:
            v.axioms = [v.z > z3.Q(314159265358979, 10**14), v.z < z3.Q(314159265358980, 10**14)]
        self.use(v)
        return Poly.var(v.vid)

    def drop_pi(self, r):
        if r.pik == 0:
            return r
        p = self.pi_rat()
        if r.pik > 0:
            return self.mk(self.ring.mul(r.num, self.ring.powp(p, r.pik)), r.den)
        d = dict(r.den)
        d[p] = d.get(p, 0) - r.pik
        return self.mk(r.num, d)

    def add(self, a, b):
        if not a.num.t:
            return b
        if not b.num.t:
            return a
        if a.pik != b.pik:
            a = self.drop_pi(a)
            b = self.drop_pi(b)
        if not a.den and not b.den:
            return Rat(a.num + b.num, None, a.pik)
        den = dict(a.den)
        for f, e in b.den.items():
            if den.get(f, 0) < e:
                den[f] = e
        na, nb = a.num, b.num
        for f, e in den.items():
            k = e - a.den.get(f, 0)
            for _ in range(k):
                na = self.ring.mul(na, f)
            k = e - b.den.get(f, 0)
            for _ in range(k):
                nb = self.ring.mul(nb, f)
        return self.mk(na + nb, den, a.pik)

    def neg(self, a):
        return Rat(-a.num, a.den, a.pik)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if not a.num.t or not b.num.t:
            return Rat(P0)
        num = self.ring.mul(a.num, b.num)
        pik = a.pik + b.pik
        if not a.den and not b.den:
            return Rat(num, None, pik)
        den = dict(a.den)
        for f, e in b.den.items():
            den[f] = den.get(f, 0) + e
        return self.mk(num, den, pik)

    def div(self, a, b):
        """a / b, b known non-zero"""
        if b.is_const() and b.pik == 0:
            return Rat(a.num.scale(1 / b.num.const_value()), a.den, a.pik)
        num = a.num
        for f, e in b.den.items():
            for _ in range(e):
                num = self.ring.mul(num, f)
        pik = a.pik - b.pik
        if b.num.is_const():
            return self.mk(num.scale(1 / b.num.const_value()), dict(a.den), pik)
        c, _s, lc = b.num.canon()
        den = dict(a.den)
        # use known factorisation of the divisor
        for f, e in self.split(c)[1].items():
            den[f] = den.get(f, 0) + e
        k = self.split(c)[0]
        return self.mk(num.scale(Fraction(1) / (lc * k)), den, pik)

    def split(self, p):
        """p (canonical) = k * prod f^e, using the recorded products; k is exact"""
        fac = {}
        k = Fraction(1)
        work = [p]
        while work:
            q = work.pop()
            if q.is_const():
                k *= q.const_value()
                continue
            r = self.ring.factors.get(q)
            ok = False
            if r is not None:
                _sg, a, b = r
                if not a.is_const() and not b.is_const():
                    pr = self.ring.mul(a, b)
                    # q = kk * a * b exactly
                    if pr.t and len(pr.t) == len(q.t):
                        m = pr.lead()
                        if m in q.t:
                            kk = q.t[m] / pr.t[m]
                            if pr.scale(kk) == q and a.degree() < q.degree() and b.degree() < q.degree():
                                k *= kk
                                work += [a, b]
                                ok = True
            if not ok:
                c, _s, lc = q.canon()
                k *= lc
                fac[c] = fac.get(c, 0) + 1
        return k, fac

    # ---- z3 terms ----
    def zpoly(self, p):
        """z3 term of p scaled to integer coefficients (positive factor)"""
        if p._z is not None and p._z[0] is self:
            return p._z[1]
        d = lcm_den(p)
        terms = []
        for m, c in sorted(p.t.items()):
            k = int(c * d)
            fs = []
            for v, e in m:
                fs += [self.vars[v].zr] * e
            if not fs:
                terms.append(z3.RealVal(k))
            elif k == 1:
                terms.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
            else:
                terms.append(z3.RealVal(k) * (z3.Product(*fs) if len(fs) > 1 else fs[0]))
        r = z3.Sum(*terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        p._z = (self, r)
        return r

    def zrat(self, r):
        """z3 term with the exact value (only for den-free Rat)"""
        assert not r.den and r.pik == 0
        return self.zpoly(r.num) / z3.RealVal(lcm_den(r.num)) if lcm_den(r.num) != 1 else self.zpoly(r.num)

    def atom(self, poly, op):
        """formula poly op 0 for op in < <= == ; returns bool or SymBool"""
        if poly.is_const():
            c = poly.const_value()
            return {'<': c < 0, '<=': c <= 0, '==': c == 0, '>': c > 0, '>=': c >= 0, '!=': c != 0}[op]
        c, s, _lc = poly.canon()
        if self.path is not None:
            self.use_all(c)
        if s < 0:
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
        # c has positive leading coefficient
        if self.nonneg(c):
            if op == '<':
                return False
            if op == '>=':
                return True
            self.path.note_nn(c)
        f = self.zatoms.get((c, op))
        if f is None:
            f = self.zatoms[c, op] = ATOM[op](self.zpoly(c))
        return SymBool(f, (c, op))

    def nonneg(self, c):
        if c in self.nn:
            return True
        for m, k in c.t.items():
            if k < 0:
                return False
            for v, e in m:
                if e % 2 and v not in self.path_nnvars():
                    return False
        return True

    def path_nnvars(self):
        return self._nnvars

    _nnvars = frozenset()

    def sign(self, r, op):
        """r op 0"""
        if not r.num.t:
            return {'<': False, '<=': True, '==': True, '>': False, '>=': True, '!=': False}[op]
        k, fac = self.split(r.num)
        neg = k < 0
        if op in ('==', '!='):
            fs = [self.atom(f, '==') for f in fac]
            res = b_or(*fs)
            return b_not(res) if op == '!=' else res
        odd = [f for f, e in fac.items() if e % 2]
        even = [f for f, e in fac.items() if e % 2 == 0]
        dodd = [f for f, e in r.den.items() if e % 2]
        # factors both in num and den are cancelled by mk
        allodd = odd + dodd
        # drop factors with a known sign
        keep = []
        for f in allodd:
            sg = self.path.known_sign(f)
            if sg == 1:
                continue
            if sg == -1:
                neg = not neg
                continue
            if f in dodd and self.nonneg(f):
                continue
            keep.append(f)
        if neg:
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
        if op in ('<=', '>='):
            strict = self._strict(keep, even, '<' if op == '<=' else '>')
            zero = b_or(*[self.atom(f, '==') for f in fac])
            if len(keep) == 1 and not even:
                return self.atom(keep[0], op)
            return b_or(strict, zero)
        return self._strict(keep, even, op)

    def _strict(self, odd, even, op):
        nz = [b_not(self.atom(f, '==')) for f in even]
        if not odd:
            return b_and(*nz) if op == '>' else False
        pos = [self.atom(f, '>') for f in odd]
        ng = [self.atom(f, '<') for f in odd]
        # product sign: DP over parity
        p, n = pos[0], ng[0]
        for a, b in zip(pos[1:], ng[1:]):
            p, n = b_or(b_and(p, a), b_and(n, b)), b_or(b_and(p, b), b_and(n, a))
        return b_and(p if op == '>' else n, *nz)


# ---------------------------------------------------------------- booleans

PRINTED = []


def printed(x, spec):
    """the text of a symbolic number: a token that names the number, its kind and the format"""
    PRINTED.append((x, type(x).__name__, spec))
    return f'<sym#{len(PRINTED) - 1}>'


class SymBool:
    # f: formula; at: (canonical polynomial, operator) for single sign atoms;
    # sn / sp: formulas for "false with a margin" / "true with a margin" (counterexample search only)
    __slots__ = ('f', 'at', 'sn', 'sp')

    def __init__(self, f, at=None, sn=None, sp=None):
        self.f = f
        self.at = at
        self.sn = sn
        self.sp = sp

    def __bool__(self):
        return ENG.path.decide(self)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_not(b_iff(self, o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return b_iff(self, o)
        return bool(self) == o

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __neg__(self):
        return -int(bool(self))

    def __lt__(self, o):
        return int(bool(self)) < o

    def __le__(self, o):
        return int(bool(self)) <= o

    def __gt__(self, o):
        return int(bool(self)) > o

    def __ge__(self, o):
        return int(bool(self)) >= o

    def __repr__(self):
        return '<symbool>'


def zb(x):
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, z3.ExprRef):
        return x
    return z3.BoolVal(bool(x))


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    r = SymBool(z3.And(*[x.f for x in out]))
    if any(x.sn is not None or x.sp is not None for x in out):
        r.sn = z3.Or(*[sneg(x) for x in out])
        r.sp = z3.And(*[spos(x) for x in out])
    return r


def sneg(x):
    if not isinstance(x, SymBool):
        return z3.BoolVal(not x)
    return x.sn if x.sn is not None else z3.Not(x.f)


def spos(x):
    if not isinstance(x, SymBool):
        return z3.BoolVal(bool(x))
    return x.sp if x.sp is not None else x.f


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    r = SymBool(z3.Or(*[x.f for x in out]))
    if any(x.sn is not None or x.sp is not None for x in out):
        r.sn = z3.And(*[sneg(x) for x in out])
        r.sp = z3.Or(*[spos(x) for x in out])
    return r


_NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}


def b_not(x):
    if isinstance(x, SymBool):
        if x.at is not None:
            return SymBool(z3.Not(x.f), (x.at[0], _NEG[x.at[1]]), x.sp, x.sn)
        return SymBool(z3.Not(x.f), None, x.sp, x.sn)
    return not x


def b_iff(a, b):
    if not isinstance(a, SymBool) and not isinstance(b, SymBool):
        return bool(a) == bool(b)
    if not isinstance(a, SymBool):
        return b if a else b_not(b)
    if not isinstance(b, SymBool):
        return a if b else b_not(a)
    r = SymBool(a.f == b.f)
    if any(x.sn is not None or x.sp is not None for x in (a, b)):
        r.sn = z3.Or(z3.And(spos(a), sneg(b)), z3.And(sneg(a), spos(b)))
        r.sp = z3.Or(z3.And(spos(a), spos(b)), z3.And(sneg(a), sneg(b)))
    return r


# ---------------------------------------------------------------- paths

_SIGNS = {'<': {-1}, '<=': {-1, 0}, '==': {0}, '>': {1}, '>=': {0, 1}, '!=': {-1, 1}}


class Path:
    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.taken = []
        self.cons = []
        self.facts = {}
        self.bounds = {}
        self.used = set()
        self.nnused = set()
        self.model = None
        self.solver = None
        self.alts = []
        self.angles = []
        self.abs_seen = []
        self.logs = []

    def add(self, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        self.cons.append(f)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(f, model_completion=False)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def note_nn(self, c):
        if c not in self.nnused:
            self.nnused.add(c)
            if c in self.eng.nn:
                self.add(self.eng.zpoly(c) >= 0)

    def known_sign(self, f):
        s = self.facts.get(f)
        if s is not None and len(s) == 1:
            return next(iter(s))
        return None

    def learn(self, at):
        if at is None:
            return
        p, op = at
        s = self.facts.get(p, {-1, 0, 1}) & _SIGNS[op]
        self.facts[p] = s
        if not s:
            raise Infeasible()
        if len(p.t) <= 2:
            self.bound(p, s)

    def bound(self, p, s):
        """x + k with a known sign bounds x"""
        v = None
        for m in p.t:
            if m != ():
                if v is not None or len(m) != 1 or m[0][1] != 1 or p.t[m] != 1:
                    return
                v = m[0][0]
        if v is None:
            return
        k = -p.t.get((), 0)
        lo, hi = self.bounds.get(v, (None, None))
        if -1 not in s and (lo is None or k > lo):
            lo = k
        if 1 not in s and (hi is None or k < hi):
            hi = k
        self.bounds[v] = (lo, hi)

    def interval(self, p):
        """(lo, hi) of a short polynomial in bounded variables, or None"""
        if len(p.t) > 8:
            return None
        L = H = 0
        for m, c in p.t.items():
            a = b = 1
            for v, e in m:
                lo, hi = self.bounds.get(v, (None, None))
                if lo is None or hi is None:
                    return None
                if e > 1:
                    x, y = lo ** e, hi ** e
                    if e % 2 == 0:
                        lo, hi = (0 if lo <= 0 <= hi else min(x, y)), max(x, y)
                    else:
                        lo, hi = x, y
                q = (a * lo, a * hi, b * lo, b * hi)
                a, b = min(q), max(q)
            if c > 0:
                L, H = L + a * c, H + b * c
            else:
                L, H = L + b * c, H + a * c
        return L, H

    def fact(self, at):
        if at is None:
            return None
        p, op = at
        s = self.facts.get(p)
        if s is None:
            iv = self.interval(p)
            if iv is None:
                return None
            s = {k for k, ok in ((-1, iv[0] < 0), (0, iv[0] <= 0 <= iv[1]), (1, iv[1] > 0)) if ok}
            if len(s) == 3:
                return None
            if not s:
                raise Infeasible()
            self.facts[p] = s
        want = _SIGNS[op]
        if s <= want:
            return True
        if not (s & want):
            return False
        return None

    def assume(self, b):
        if isinstance(b, SymBool):
            k = self.fact(b.at)
            if k is True:
                return
            if k is False:
                raise Infeasible()
            self.learn(b.at)
            self.add(b.f)
        elif not b:
            raise Infeasible()

    def feasible(self, f):
        """'sat'/'unsat'/'unknown' of cons & f ; stores the model when sat"""
        eng = self.eng
        t = time.time()
        eng.stats['feas_queries'] += 1
        r, m = quick_solve(self.cons + [f], eng.opts.get('feas_ms', 1500))
        eng.stats['feas_time'] += time.time() - t
        if r == 'unknown':
            eng.stats['feas_unknown'] += 1
        return r, m

    def choose(self, n):
        """solver-independent case split over range(n)"""
        i = len(self.taken)
        if i < len(self.prefix):
            if self.prefix[i][2] == n:
                self.taken.append(self.prefix[i])
                return self.prefix[i][0]
            self.leave_prefix(i)
        for k in range(n - 1, 0, -1):
            self.alts.append(self.taken + [(k, True, n)])
        self.taken.append((0, False, n))
        return 0

    def leave_prefix(self, i):
        """The run asks something else than the run that forked it did (what the engine's caches hold
        decides how much it sees without asking): explore everything from here on, which covers
        what the rest of the prefix stood for."""
        self.prefix = self.prefix[:i]
        self.eng.stats['diverged'] = self.eng.stats.get('diverged', 0) + 1

    def decide(self, b):
        eng = self.eng
        eng.stats['decisions'] += 1
        k = self.fact(b.at)
        if k is not None:
            eng.stats['fact_hits'] += 1
            return k
        i = len(self.taken)
        if i < len(self.prefix):
            v, _, key = self.prefix[i]
            if not isinstance(key, int) and (key == b.at if isinstance(key, tuple) else b.at is None and key.eq(b.f)):
                self.taken.append(self.prefix[i])
                f = b.f if v else z3.Not(b.f)
                self.learn(b.at if v else b_not(b).at)
                self.add(f)
                return v
            self.leave_prefix(i)
        if len(self.taken) > eng.opts.get('max_depth', 400):
            raise Budget('depth')
        if time.time() > eng.deadline:
            raise Budget('time')
        nb = z3.Not(b.f)
        key = b.at if b.at is not None else b.f
        st = {True: None, False: None}
        md = {}
        if self.model is not None:
            try:
                ev = self.model.eval(b.f, model_completion=True)
                if z3.is_true(ev):
                    st[True] = 'sat'
                    md[True] = self.model
                    eng.stats['model_hits'] += 1
                elif z3.is_false(ev):
                    st[False] = 'sat'
                    md[False] = self.model
                    eng.stats['model_hits'] += 1
            except z3.Z3Exception:
                pass
        for v, f in ((True, b.f), (False, nb)):
            if st[v] is None:
                other = st[not v]
                if other == 'unsat':
                    st[v] = 'sat?'
                    continue
                r, m = self.feasible(f)
                st[v] = r
                if m is not None:
                    md[v] = m
        if st[True] == 'unsat' and st[False] == 'unsat':
            raise Infeasible()
        if st[True] == 'unsat':
            v, forced = False, True
        elif st[False] == 'unsat':
            v, forced = True, True
        else:
            v, forced = True, False
            eng.stats['forks'] += 1
            self.alts.append(self.taken + [(False, True, key)])
        self.taken.append((v, forced, key))
        self.learn(b.at if v else b_not(b).at)
        self.cons.append(b.f if v else nb)
        self.model = md.get(v)
        return v


_shape = {}


def shape(f):
    """(has products of unknowns, has integers), remembered per formula"""
    c = _shape.get(f.get_id())
    if c is not None:
        return c
    seen = set()
    stack = [f]
    nl = it = False
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        ch = e.children()
        if not it and z3.is_int(e):
            it = True
        if not nl and z3.is_mul(e) and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in ch) > 1:
            nl = True
        if nl and it:
            break
        stack += ch
    _shape[f.get_id()] = c = (nl, it, f)            # keeps f, so that the id stays in use
    return c


def has_int(fs):
    return any(shape(f)[1] for f in fs)


def nonlinear(fs):
    return any(shape(f)[0] for f in fs)


_nlsat = None


def quick_solve(fs, ms):
    """in-process z3; returns (verdict, z3 model or None)"""
    global _nlsat
    fs = [f for f in fs if not z3.is_true(f)]
    if any(z3.is_false(f) for f in fs):
        return 'unsat', None
    try:
        if nonlinear(fs) and not has_int(fs):
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', ms)
            s.add(*fs)
            r = s.check()
            if r == z3.unknown:
                s = z3.Solver()
                s.set('timeout', ms)
                s.add(*fs)
                r = s.check()
        else:
            s = z3.Solver()
            s.set('timeout', ms)
            s.add(*fs)
            r = s.check()
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
    except z3.Z3Exception:
        pass
    return 'unknown', None


# ---------------------------------------------------------------- numbers

_lift_cache = {}


def pi_multiple(f):
    """(Fraction, k) with f == q * pi**k to within 2 ulp for a simple q, else None"""
    for k in (1, -1):
        base = math.pi if k == 1 else 1 / math.pi
        q = Fraction(f / base).limit_denominator(720)
        if q == 0 or abs(q.numerator) > 720000:
            continue
        if abs(float(q) * base - f) <= 2.5 * math.ulp(f):
            return q, k
    return None


def lift(x):
    """Rat of a Python or symbolic number, or None"""
    if isinstance(x, Sym):
        return x.r
    if isinstance(x, bool):
        return Rat(Poly.const(int(x)))
    if isinstance(x, int):
        return Rat(Poly.const(x))
    if isinstance(x, Fraction):
        return Rat(Poly.const(x))
    if isinstance(x, float):
        c = _lift_cache.get(x)
        if c is None:
            if math.isinf(x) or math.isnan(x):
                return None
            pm = pi_multiple(x)
            if pm:
                c = Rat(Poly.const(pm[0]), None, pm[1])
            else:
                c = Rat(Poly.const(Fraction(x)))
            _lift_cache[x] = c
        return c
    if isinstance(x, SymBool):
        return Rat(Poly.const(int(bool(x))))
    return None


def simp_out(r, isint=False):
    """SymFloat/SymInt of a Rat; constants stay symbolic-typed but exact"""
    return SymInt(r) if isint else SymFloat(r)


def is_int(x):
    return x.isint if isinstance(x, Sym) else isinstance(x, int)


class Sym:
    """mixin with the arithmetic of symbolic numbers"""
    __slots__ = ()

    def _bin(self, o, f, rev=False):
        if isinstance(o, float) and not isinstance(o, Sym) and (math.isinf(o) or math.isnan(o)):
            raise Unsupported('arithmetic with inf/nan')
        r = lift(o)
        if r is None:
            return NotImplemented
        a, b = (r, self.r) if rev else (self.r, r)
        try:
            res = f(a, b)
        except Blowup:
            raise Unsupported('polynomial too large')
        return simp_out(res, is_int(self) and is_int(o))

    def __add__(self, o):
        res = self._bin(o, ENG.add)
        if res is not NotImplemented and not res.r.den and res.r.num.t and isinstance(o, Sym):
            if is_nn(self) and is_nn(o):
                mark_nn(res)
        elif res is not NotImplemented and not isinstance(o, Sym) and is_nn(self) and o >= 0:
            mark_nn(res)
        return res
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, ENG.sub)

    def __rsub__(self, o):
        return self._bin(o, ENG.sub, True)

    def __mul__(self, o):
        res = self._bin(o, ENG.mul)
        if res is not NotImplemented and isinstance(o, Sym):
            if (not self.r.den and not o.r.den and self.r.num.t and o.r.num.t
                    and self.r.num.canon()[0] == o.r.num.canon()[0]
                    and self.r.num.canon()[1] == o.r.num.canon()[1]) or (is_nn(self) and is_nn(o)):
                mark_nn(res)
        return res
    __rmul__ = __mul__

    def __truediv__(self, o):
        return do_div(self, o)

    def __rtruediv__(self, o):
        return do_div(o, self)

    def __floordiv__(self, o):
        q = do_div(self, o, 'float floor division by zero' if not (is_int(self) and is_int(o)) else 'integer division or modulo by zero')
        n = floor_of(q)
        return n if is_int(self) and is_int(o) else SymFloat(n.r)

    def __rfloordiv__(self, o):
        q = do_div(o, self)
        n = floor_of(q)
        return n if is_int(self) and is_int(o) else SymFloat(n.r)

    def __mod__(self, o):
        q = do_div(self, o, 'float modulo')
        n = floor_of(q)
        return self - n * o

    def __rmod__(self, o):
        q = do_div(o, self, 'float modulo')
        n = floor_of(q)
        return o - n * self

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, n, mod=None):
        return do_pow(self, n, ZeroDivisionError)

    def __rpow__(self, b):
        return do_pow(b, self, ZeroDivisionError)

    def __neg__(self):
        return simp_out(ENG.neg(self.r), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return do_abs(self)

    def __lt__(self, o):
        return compare(self, o, '<')

    def __le__(self, o):
        return compare(self, o, '<=')

    def __gt__(self, o):
        return compare(self, o, '>')

    def __ge__(self, o):
        return compare(self, o, '>=')

    def __eq__(self, o):
        return compare(self, o, '==')

    def __ne__(self, o):
        return compare(self, o, '!=')

    def __bool__(self):
        return bool(compare(self, 0, '!='))

    def __hash__(self):
        return 0

    def __float__(self):
        raise Unsupported('float() of a symbolic value at a C boundary')

    def __int__(self):
        raise Unsupported('int() of a symbolic value at a C boundary')

    def __index__(self):
        raise Unsupported('index from a symbolic value')

    def __trunc__(self):
        return trunc_of(self)

    def __floor__(self):
        return floor_of(self)

    def __ceil__(self):
        return -floor_of(-self)

    def __round__(self, nd=None):
        if nd is None:
            return round_half_even(self)
        k = 10 ** nd
        return SymFloat((round_half_even(self * k) / k).r)

    def __repr__(self):
        return printed(self, '')
    __str__ = __repr__

    def __format__(self, spec):
        return printed(self, spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickle of a symbolic value')

    def is_integer(self):
        return compare(self, floor_of(self), '==')

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def as_integer_ratio(self):
        raise Unsupported('as_integer_ratio')

    def hex(self):
        raise Unsupported('hex')


class SymFloat(Sym):
    # deliberately not a subclass of float: C code that would read the payload
    # calls __float__ instead, which stops the path
    __slots__ = ('r', 'absof')
    isint = False

    def __init__(self, r):
        self.r = r
        self.absof = None


class SymInt(Sym):
    __slots__ = ('r', 'absof')
    isint = True

    def __init__(self, r):
        self.r = r
        self.absof = None

    # int-only operators fall back to path-wise concretisation
    def bit_length(self):
        raise Unsupported('bit_length')


for _n in ('__lshift__', '__rshift__', '__or__', '__xor__', '__and__', '__invert__',
           '__rlshift__', '__rrshift__', '__ror__', '__rxor__', '__rand__'):
    def _mk(n):
        def f(self, *a):
            raise Unsupported('bit operation ' + n)
        return f
    setattr(SymInt, _n, _mk(_n))


def is_nn(x):
    if not isinstance(x, Sym):
        return x >= 0
    r = x.r
    if not r.num.t:
        return True
    if r.den and not all(e % 2 == 0 or ENG.nonneg(f) for f, e in r.den.items()):
        return False
    c, s, _ = r.num.canon()
    if s < 0 and not r.num.is_const():
        return False
    if r.num.is_const():
        return r.num.const_value() >= 0
    return ENG.nonneg(c)


def mark_nn(x):
    r = x.r
    if r.num.t and not r.num.is_const():
        if r.den and not all(e % 2 == 0 or ENG.nonneg(f) for f, e in r.den.items()):
            return
        c, s, _ = r.num.canon()
        if s > 0:
            ENG.nn.add(c)


def do_div(a, b, msg='float division by zero'):
    ra, rb = lift(a), lift(b)
    if ra is None or rb is None:
        if isinstance(a, float) or isinstance(b, float):
            if ra is not None and isinstance(b, float) and math.isinf(b):
                return 0.0
            raise Unsupported('division with inf/nan')
        return NotImplemented
    z = ENG.sign(rb, '==')
    if z is True or (z is not False and bool(z)):
        raise ZeroDivisionError(msg)
    try:
        res = SymFloat(ENG.div(ra, rb))
    except Blowup:
        raise Unsupported('polynomial too large')
    return res


def assume_nonzero(r):
    ENG.path.assume(ENG.sign(r, '!='))


def do_abs(x):
    if not isinstance(x, Sym):
        return abs(x)
    r = x.r
    if is_nn(x):
        return x
    if is_nn(-x):
        return -x
    k = ENG.sign(r, '>=')
    if k is True:
        return x
    if k is False:
        return -x
    if k.at is not None:
        f = ENG.path.fact(k.at)
        if f is True:
            return x
        if f is False:
            return -x
    # |num/den|: materialise |num| and |den factors| through one variable
    core = r
    if r.den or r.pik:
        den_odd = [f for f, e in r.den.items() if e % 2 and not ENG.nonneg(f)]
        if den_odd:
            # fork: sign of value
            return x if bool(k) else -x
    num = r.num
    c, s, lc = num.canon()
    v, fresh = ENG.new_var(('abs', c), f'abs{len(ENG.vars)}')
    if fresh:
        ENG.ring.red[v.vid] = ENG.ring.mul(c, c)
        z = ENG.zpoly(c)
        d = lcm_den(c)
        zv = v.z if d == 1 else v.z * d
        v.axioms = [v.z >= 0, z3.Or(z3.And(z >= 0, zv == z), z3.And(z < 0, zv == -z))]
        ENG._nnvars = ENG._nnvars | {v.vid}
        ENG.nn.add(Poly.var(v.vid))
        ENG.defined[v.vid] = c
    res = Rat(Poly.var(v.vid).scale(abs(lc)), dict(r.den), r.pik)
    out = simp_out(res, x.isint)
    out.absof = x
    ENG.use(v)
    return out


def compare(a, b, op):
    if isinstance(b, float) and not isinstance(b, Sym) and (math.isinf(b) or math.isnan(b)):
        if math.isnan(b):
            return op == '!='
        pos = b > 0
        return {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]
    rb = lift(b)
    if rb is None:
        if op == '==':
            return NotImplemented
        return NotImplemented
    if a.absof is not None and rb.is_const() and rb.pik == 0:
        c = rb.num.const_value()
        t = a.absof
        if op in ('<', '<='):
            return b_and(compare(t, SymFloat(rb), op), compare(-t, SymFloat(rb), op))
        if op in ('>', '>='):
            return b_or(compare(t, SymFloat(rb), op), compare(-t, SymFloat(rb), op))
        e = b_or(compare(t, SymFloat(rb), '=='), compare(-t, SymFloat(rb), '=='))
        if c < 0:
            e = False
        return e if op == '==' else b_not(e)
    try:
        d = ENG.sub(a.r, rb)
    except Blowup:
        raise Unsupported('polynomial too large')
    return ENG.sign(d, op)


def int_var(key, name):
    v, fresh = ENG.new_var(key, f'{name}{len(ENG.vars)}', 'int')
    return v, fresh


def floor_of(x):
    """SymInt floor"""
    if not isinstance(x, Sym):
        return math.floor(x)
    if x.isint:
        return x
    r = ENG.drop_pi(x.r)
    if r.is_const():
        return SymInt(Rat(Poly.const(math.floor(r.num.const_value()))))
    if not r.den:
        # integer-valued part: floor(p + n) = floor(p) + n
        ip, rest = {}, {}
        for m, q in r.num.t.items():
            if q.denominator == 1 and all(ENG.vars[v].kind == 'int' for v, _ in m):
                ip[m] = q
            elif m == ():
                k = math.floor(q)
                if k:
                    ip[m] = Fraction(k)
                if q != k:
                    rest[m] = q - k
            else:
                rest[m] = q
        if ip:
            whole = SymInt(Rat(Poly(ip)))
            if not rest:
                return whole
            return floor_of(SymFloat(Rat(Poly(rest)))) + whole
    v, fresh = int_var(('floor', r.key()), 'fl')
    n = SymInt(Rat(Poly.var(v.vid)))
    if v.vid not in ENG.path.used:
        ENG.path.used.add(v.vid)
        xr = SymFloat(r)
        ENG.path.assume(compare(n, xr, '<='))
        ENG.path.assume(compare(xr, n + 1, '<'))
    return n


def trunc_of(x):
    if not isinstance(x, Sym):
        return int(x)
    if x.isint:
        return x
    if bool(compare(x, 0, '>=')):
        return floor_of(x)
    return -floor_of(-x)


def round_half_even(x):
    if not isinstance(x, Sym):
        return round(x)
    if x.isint:
        return x
    n = floor_of(x)
    d = x - n
    if bool(d < 0.5):
        return n
    if bool(d > 0.5):
        return n + 1
    h = floor_of(SymFloat((n / 2).r))
    if bool(compare(h * 2, n, '==')):
        return n
    return n + 1


def do_pow(b, e, zero_exc):
    if isinstance(e, Sym) and e.r.is_const() and e.r.pik == 0:
        c = e.r.num.const_value()
        e = int(c) if c.denominator == 1 else float(c)
    if isinstance(e, Sym):
        return opaque_pow(b, e)
    if isinstance(e, float) and e.is_integer():
        e = int(e)
    if isinstance(e, bool):
        e = int(e)
    if isinstance(e, int):
        if abs(e) > 64:
            raise Unsupported('large power')
        res = b if e != 0 else (1 if is_int(b) else SymFloat(Rat(P1)))
        if e == 0:
            return res
        res = b
        for _ in range(abs(e) - 1):
            res = res * b
        if abs(e) == 2:
            mark_nn(res)
        if e < 0:
            if bool(compare(b, 0, '==')):
                raise zero_exc('0.0 cannot be raised to a negative power')
            return 1.0 / res
        return res
    if e == 0.5:
        from . import symmath
        return symmath.sqrt(b)
    return opaque_pow(b, e)


def opaque_pow(b, e):
    rb, re_ = lift(b), lift(e)
    if rb is None or re_ is None:
        raise Unsupported('pow')
    if not re_.den and not re_.pik and re_.num.t.get((), 0) and not re_.is_const() and isinstance(b, Sym):
        # b^(x+k) = b^x * b^k
        k = re_.num.t[()]
        if k.denominator == 1 and abs(k) <= 64 and bool(compare(SymFloat(rb), 0, '>')):
            rest = Poly({m: c for m, c in re_.num.t.items() if m != ()})
            return opaque_pow(b, SymFloat(Rat(rest))) * do_pow(SymFloat(rb), int(k), ValueError)
    v, fresh = ENG.new_var(('pow', rb.key(), re_.key()), f'pow{len(ENG.vars)}')
    if v.vid not in ENG.path.used:
        ENG.path.used.add(v.vid)
        if not bool(compare(SymFloat(rb), 0, '>')):
            raise Unsupported('pow of a non-positive base to a symbolic power')
        one = SymFloat(Rat(P1))
        B, E, V = SymFloat(rb), SymFloat(re_), SymFloat(Rat(Poly.var(v.vid)))
        ENG.path.assume(V > 0)
        for f in (b_or(b_not(b_and(B < one, E > 0)), V < one),
                  b_or(b_not(b_and(B > one, E > 0)), V > one),
                  b_or(b_not(b_and(B < one, E < 0)), V > one),
                  b_or(b_not(b_and(B > one, E < 0)), V < one),
                  b_or(b_not(E == 0), V == one), b_or(b_not(B == one), V == one),
                  b_or(b_not(E == 1), V == B)):
            ENG.path.assume(f)
    return SymFloat(Rat(Poly.var(v.vid)))
