"""Exact multivariate polynomials and rational functions over named solver variables.

Every numeric value of a symbolic execution is kept as a quotient of two
polynomials with rational coefficients.  Variables may carry a reduction rule
v*v -> p (square roots, absolute values, sines), which is applied eagerly, so
that two expressions that are equal by ring identities and by those rules have
the same normal form.
"""
from __future__ import annotations
from fractions import Fraction

ZERO = Fraction(0)
ONE = Fraction(1)


class Blowup(Exception):
    """a polynomial grew past the size the encoder accepts"""


MAX_TERMS = 6000


def _mono_key(m):
    return tuple((-v, e) for v, e in m)


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def mono_div(a, b):
    """a / b or None"""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        c = d.get(v, 0) - e
        if c < 0:
            return None
        if c:
            d[v] = c
        else:
            del d[v]
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ('t', '_h', '_z', '_can', '_vs')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None
        self._vs = None
        self._can = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def var(vid):
        return Poly({((vid, 1),): ONE})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), ZERO)

    def is_zero(self):
        return not self.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, ZERO) + c
            if s:
                t[m] = s
            else:
                del t[m]
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if not k:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def vars(self):
        s = set()
        for m in self.t:
            for v, _ in m:
                s.add(v)
        return s

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def lead(self):
        return max(self.t, key=_mono_key)

    def canon(self):
        """(positive-scale-normalised poly, sign) ; leading coefficient is +1"""
        if self._can is None:
            lc = self.t[self.lead()]
            self._can = (self.scale(1 / lc), 1 if lc > 0 else -1, lc)
        return self._can

    def single_var(self):
        """vid if the polynomial is exactly one variable, else None"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def div_exact(self, d, limit=4000):
        """self / d if d divides self (as plain polynomials), else None"""
        if not d.t:
            return None
        if d.is_const():
            return self.scale(1 / d.const_value())
        dl = d.lead()
        dc = d.t[dl]
        if self.t and not d.vars() <= self.vars():
            return None
        r = dict(self.t)
        q = {}
        steps = 0
        while r:
            steps += 1
            if steps > limit:
                return None
            m = max(r, key=_mono_key)
            k = mono_div(m, dl)
            if k is None:
                return None
            c = r[m] / dc
            q[k] = c
            for dm, dcoef in d.t.items():
                mm = mono_mul(k, dm)
                s = r.get(mm, ZERO) - c * dcoef
                if s:
                    r[mm] = s
                else:
                    r.pop(mm, None)
        return Poly(q)

    def __repr__(self):
        return ' + '.join(f'{c}*' + '*'.join(f'v{v}^{e}' for v, e in m) for m, c in self.t.items()) or '0'


P0 = Poly({})
P1 = Poly.const(1)


class Ring:
    """multiplication with the reduction rules v^2 -> p"""

    def __init__(self):
        self.red = {}
        self.mulcache = {}
        self.factors = {}

    def mul(self, a: Poly, b: Poly) -> Poly:
        if not a.t or not b.t:
            return P0
        if a.is_const():
            return b.scale(a.const_value())
        if b.is_const():
            return a.scale(b.const_value())
        key = (a, b)
        r = self.mulcache.get(key)
        if r is not None:
            return r
        t = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = mono_mul(m1, m2)
                s = t.get(m, ZERO) + c1 * c2
                if s:
                    t[m] = s
                else:
                    del t[m]
        if len(t) > MAX_TERMS:
            raise Blowup()
        r = self.reduce(Poly(t))
        self.mulcache[key] = r
        if len(a.t) > 1 or len(b.t) > 1 or a == b:
            ca, sa, la = a.canon()
            cb, sb, lb = b.canon()
            if r.t and not r.is_const():
                cr, sr, lr = r.canon()
                # r = la*lb * ca*cb ; keep sign of r relative to ca*cb
                k = la * lb
                self.factors.setdefault(r, (1 if k > 0 else -1, a.canon()[0], b.canon()[0]))
        return r

    def reduce(self, p: Poly) -> Poly:
        if not self.red:
            return p
        todo = None
        for m in p.t:
            for v, e in m:
                if e >= 2 and v in self.red:
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return p
        out = P0
        plain = {}
        for m, c in p.t.items():
            hit = None
            for v, e in m:
                if e >= 2 and v in self.red:
                    hit = (v, e)
                    break
            if hit is None:
                s = plain.get(m, ZERO) + c
                if s:
                    plain[m] = s
                else:
                    plain.pop(m, None)
            else:
                v, e = hit
                rest = tuple((w, f) for w, f in m if w != v)
                q = Poly({rest: c}) if e % 2 == 0 else Poly({mono_mul(rest, ((v, 1),)): c})
                for _ in range(e // 2):
                    q = self.mul(q, self.red[v])
                out = out + q
        return Poly(plain) + out

    def powp(self, p, n):
        r = P1
        for _ in range(n):
            r = self.mul(r, p)
        return r


class Rat:
    """num / prod(f**e) * pi**pik ; den is a dict canonical-poly -> exponent"""
    __slots__ = ('num', 'den', 'pik')

    def __init__(self, num, den=None, pik=0):
        self.num = num
        self.den = den or {}
        self.pik = pik if num.t else 0

    def is_const(self):
        return self.num.is_const() and not self.den

    def key(self):
        return (self.num, frozenset(self.den.items()), self.pik)

    def __repr__(self):
        return f'({self.num})/({self.den})pi^{self.pik}'
